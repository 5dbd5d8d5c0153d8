// The installed BLAS++/LAPACK++ predates to_c_string; this supplies the spellings DLA-Future's printing needs.
#pragma once
#include <stdexcept>
#include <string>
#include <blas.hh>
#include <lapack.hh>
namespace blas {
inline const char* to_c_string(Layout v) { return layout2str(v); }
inline const char* to_c_string(Op v) { return op2str(v); }
inline const char* to_c_string(Uplo v) { return uplo2str(v); }
inline const char* to_c_string(Diag v) { return diag2str(v); }
inline const char* to_c_string(Side v) { return side2str(v); }
inline void from_string(const std::string& s, Uplo* v) {
  const char c = s.empty() ? 0 : s[0];
  if (c == 'L' || c == 'l')
    *v = Uplo::Lower;
  else if (c == 'U' || c == 'u')
    *v = Uplo::Upper;
  else if (c == 'G' || c == 'g')
    *v = Uplo::General;
  else
    throw std::runtime_error("invalid uplo " + s);
}
}
namespace lapack {
inline const char* to_c_string(MatrixType v) { return matrixtype2str(v); }
}
