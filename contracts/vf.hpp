// Contract primitives.  The verifier gives them their meaning; native/vf_rt.cpp executes them.
#ifndef VF_HPP_
#define VF_HPP_
#include <cstddef>
extern "C" {
double vf_real(const char* name);
float vf_realf(const char* name);
double vf_real_in(const char* name, double lo, double hi);
double vf_pos(const char* name);
float vf_posf(const char* name);
double vf_nonneg(const char* name);
float vf_nonnegf(const char* name);
bool vf_bool(const char* name);
int vf_int(const char* name, int lo, int hi);
void vf_unit4(double* q, const char* name);
void vf_unit4f(float* q, const char* name);
void vf_assume(bool c);
void vf_assume_eq(double a, double b);
void vf_assert(bool c, const char* id);
void vf_eq(double a, double b, const char* id);
void vf_near(double a, double b, double tol, const char* id);
void vf_le(double a, double b, const char* id);
void vf_lt(double a, double b, const char* id);
void vf_unreachable(const char* id);
void vf_reached(const char* id);
void vf_havoc(void* p, unsigned long size, const char* name);
void vf_same(const void* p, const void* q, unsigned long size, const char* id);
void vf_draw_reset();
double vf_draw(int i);
int vf_draw_count();
void vf_out_reset();
double vf_out_real(int i);
int vf_out_count();
bool vf_out_text_is(const char* s);
void vf_float_exact();
double vf_fn1(const char* f, double x);
double vf_fn2(const char* f, double x, double y);
double vf_sqrt(double x);
}
#endif
