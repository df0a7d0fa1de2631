// Specification interface shared by the verifier (symbolic reading of these
// calls) and by the native replay/search runtime (vf_native.cpp).
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <stdexcept>

extern "C" {
// Universally quantified inputs.
double vf_real(const char* name, double lo, double hi);
double vf_real_or_nan(const char* name, double lo, double hi);
long vf_int(const char* name, long lo, long hi);
long vf_split(const char* name, long lo, long hi);  // exhaustive case split
bool vf_bool(const char* name);
void vf_fill_real(double* p, long n, const char* name, double lo, double hi,
                  bool nan_allowed);
void vf_fill_float(float* p, long n, const char* name, double lo, double hi,
                   bool nan_allowed);
void vf_fill_int(void* p, long n, const char* name, long lo, long hi,
                 int element_size);
// Preconditions, obligations, reachability guards.
void vf_assume(bool condition);
void vf_assert(bool condition, const char* what);
void vf_close(double a, double b, double tolerance, const char* what);
void vf_same(double a, double b, double tolerance, const char* what);
// a is close to b or to c
void vf_close2(double a, double b, double c, double tolerance, const char* what);
void vf_cover(const char* what);
bool vf_symbolic();
// Uninterpreted specification functions.
double vf_uf1(const char* name, double a);
double vf_uf2(const char* name, double a, double b);
double vf_uf3(const char* name, double a, double b, double c);
}

// Runs f and reports how it ended: 0 returned, 1 std::out_of_range,
// 2 std::invalid_argument, 3 another std::exception, 4 something else.
template <typename Fn>
inline int vf_outcome(Fn&& f) {
  try {
    f();
  } catch (const std::out_of_range&) {
    return 1;
  } catch (const std::invalid_argument&) {
    return 2;
  } catch (const std::exception&) {
    return 3;
  } catch (...) {
    return 4;
  }
  return 0;
}

#ifdef VF_SYMBOLIC
#define VF_HARNESS(name) extern "C" void vh_##name()
#else
struct VfReg {
  VfReg(const char* name, void (*fn)());
};
#define VF_HARNESS(name)                     \
  extern "C" void vh_##name();               \
  static VfReg vf_reg_##name(#name, vh_##name); \
  extern "C" void vh_##name()
#endif
// A contract stub: stands for calls of the named function in callers.
#define VF_STUB(id) extern "C" __attribute__((used))
