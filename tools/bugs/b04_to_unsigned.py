PROPERTY="C04"
EDITS=[("include/dlaf/types.h",'''U to_unsigned(const UB unsigned_value) {
  DLAF_ASSERT_MODERATE(std::numeric_limits<U>::max() >= static_cast<std::size_t>(unsigned_value),
                       std::numeric_limits<U>::max(), static_cast<std::size_t>(unsigned_value));
''','''U to_unsigned(const UB unsigned_value) {
  DLAF_ASSERT_MODERATE(std::numeric_limits<U>::max() >= static_cast<unsigned>(unsigned_value),
                       std::numeric_limits<U>::max(), static_cast<std::size_t>(unsigned_value));
''')]
NEEDS="a 64-bit unsigned value beyond 32 bits converted to a narrower unsigned type"
BREAKS="the value is truncated instead of stopping the program"
DEMO=r'''#include <dlaf/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <cstdio>
int main(){ pid_t p=fork(); if(!p){ fclose(stderr); std::set_terminate([]{_exit(7);}); volatile unsigned long v=(1ul<<32)+5; volatile unsigned u=dlaf::to_uint((unsigned long)v); _exit(u==5?3:4);} int st; waitpid(p,&st,0); int c=WIFEXITED(st)?WEXITSTATUS(st):99; std::printf("%d\n",c); return c==7?0:1; }
'''
