// Force-included when a repository source is compiled for some element types only: restricts the explicit instantiations
// made through the expansion macros of dlaf/common/eti.h. VK_ETI(X) expands X(T) for the wanted types.
#pragma once
#include <complex>
#include <dlaf/common/eti.h>
#undef DLAF_EXPAND_ETI_SDCZ_DEVICE
#undef DLAF_EXPAND_ETI_SDCZ_DEVICE_VA_ARGS
#ifdef VK_TYPE_S
#define VK_EXP_S(M, ...) M(__VA_ARGS__, float, Device::CPU);
#define VK_EXPV_S(M, K, ...) M(K, float, Device::CPU, __VA_ARGS__);
#else
#define VK_EXP_S(M, ...)
#define VK_EXPV_S(M, K, ...)
#endif
#ifdef VK_TYPE_D
#define VK_EXP_D(M, ...) M(__VA_ARGS__, double, Device::CPU);
#define VK_EXPV_D(M, K, ...) M(K, double, Device::CPU, __VA_ARGS__);
#else
#define VK_EXP_D(M, ...)
#define VK_EXPV_D(M, K, ...)
#endif
#ifdef VK_TYPE_C
#define VK_EXP_C(M, ...) M(__VA_ARGS__, std::complex<float>, Device::CPU);
#define VK_EXPV_C(M, K, ...) M(K, std::complex<float>, Device::CPU, __VA_ARGS__);
#else
#define VK_EXP_C(M, ...)
#define VK_EXPV_C(M, K, ...)
#endif
#ifdef VK_TYPE_Z
#define VK_EXP_Z(M, ...) M(__VA_ARGS__, std::complex<double>, Device::CPU);
#define VK_EXPV_Z(M, K, ...) M(K, std::complex<double>, Device::CPU, __VA_ARGS__);
#else
#define VK_EXP_Z(M, ...)
#define VK_EXPV_Z(M, K, ...)
#endif
#define DLAF_EXPAND_ETI_SDCZ_DEVICE(ETI_MACRO, KWORD) \
  VK_EXP_S(ETI_MACRO, KWORD) VK_EXP_D(ETI_MACRO, KWORD) VK_EXP_C(ETI_MACRO, KWORD) VK_EXP_Z(ETI_MACRO, KWORD) static_assert(true)
#define DLAF_EXPAND_ETI_SDCZ_DEVICE_VA_ARGS(ETI_MACRO, KWORD, ...)                              \
  VK_EXPV_S(ETI_MACRO, KWORD, __VA_ARGS__) VK_EXPV_D(ETI_MACRO, KWORD, __VA_ARGS__)             \
  VK_EXPV_C(ETI_MACRO, KWORD, __VA_ARGS__) VK_EXPV_Z(ETI_MACRO, KWORD, __VA_ARGS__) static_assert(true)
