PROPERTY="C12"
EDITS=[("src/blas/scal.cpp","""void scal(std::int64_t n, double a, std::complex<double>* x, std::int64_t incx) noexcept {
  auto n_ = dlaf::to_signed<blas_int>(n);
  auto incx_ = dlaf::to_signed<blas_int>(incx);""","""void scal(std::int64_t n, double a, std::complex<double>* x, std::int64_t incx) noexcept {
  if (n <= 0)
    return;
  auto n_ = dlaf::to_signed<blas_int>(n);
  auto incx_ = static_cast<blas_int>(incx);""")]
NEEDS="an increment which does not fit the BLAS integer"
BREAKS="the increment is truncated silently"
REPO_SRC=["src/blas/scal.cpp"]
DEMO='''#include <dlaf/blas/scal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <cstdio>
int main(){ pid_t p=fork(); if(!p){ fclose(stderr); std::set_terminate([]{_exit(7);}); std::complex<double> x[4]; blas::scal(2,2.0,x,(std::int64_t(1)<<32)+1); _exit(3);} int st; waitpid(p,&st,0); int c=WIFEXITED(st)?WEXITSTATUS(st):99; std::printf("%d\\n",c); return c==7?0:1; }
'''
