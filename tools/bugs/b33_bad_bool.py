PROPERTY="C33"
EDITS=[('src/init.cpp', '    if (is_one_of_ignore_case(var, {"OFF", "FALSE", "NO", "0"}))\n      return false;\n    return std::nullopt;', '    return !is_one_of_ignore_case(var, {"OFF", "FALSE", "NO", "0"});')]
NEEDS='a malformed value of a yes/no environment variable'
BREAKS='the value is taken for yes instead of being refused'
RUNTIME='full'
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
#include <sys/wait.h>
int main(int c,char**v){ setenv("DLAF_PRINT_CONFIG","offf",1); fclose(stderr); std::set_terminate([]{_exit(7);});
 pid_t p=fork(); if(!p){ demo(c,v,[]{return 0;}); _exit(3);} int st; waitpid(p,&st,0); int k=WIFEXITED(st)?WEXITSTATUS(st):99; std::printf("%d\n",k); return k==7?0:1; }
'''
