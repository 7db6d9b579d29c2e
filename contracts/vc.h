// Contract harness API.  The same text is compiled twice from /repo's current sources:
//  - to LLVM IR, where the deductive verifier (engine/) treats vc_* as specification primitives, and
//  - natively (VC_NATIVE) to replay a failed obligation against the real code.
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cmath>
#include <cstdio>
#include <vector>
#include <string>
#include <complex>
#include <list>
#include <map>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <limits>
#include <numeric>
#include <iterator>
#include <iomanip>
#include <cassert>
#include <cstring>
#include <cstdlib>
#include <iosfwd>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <utility>
#include <random>
#include <tuple>
#include <type_traits>

extern "C" {
double vc_real_(const char*, double lo, double hi);
int vc_int_(const char*, int lo, int hi);       // case split over lo..hi
long vc_symint_(const char*, long lo, long hi); // symbolic integer
long vc_len_(const char*, long lo);             // unbounded symbolic length
bool vc_bool_(const char*);
void vc_assume_(bool);
void vc_assert_(const char*, bool);
void vc_eq_(const char*, double, double);
void vc_reach_(const char*);
void vc_use_(const char*);                      // replace a callee by its contract vcspec__<name>
int vc_native_();
void* vc_symarray_(const char*, long stride, long n);
void vc_arrsort_(void*, long off, int sort);
void vc_jac_(const double* in, const double* out, int n, int m, double* J);
double vc_fresh_(const char*);
double vc_again_(const char*);                  // an input drawn before (inputs have names of their own)
double vc_fun_(const char*, const double*, int);   // value of an uninterpreted function
}

#define VC_ENTRY(name) extern "C" void vch_##name(); \
	static VcReg vcreg_##name(#name, vch_##name); extern "C" void vch_##name()

#ifdef VC_NATIVE
struct VcReg { VcReg(const char* n, void (*f)()); };
#else
struct VcReg { constexpr VcReg(const char*, void (*)()) {} };
#endif

#ifdef VC_NATIVE
inline double vc_real(const char* n) { return vc_real_(n, -2, 2); }
#else
inline double vc_real(const char* n) { return vc_real_(n, 0, 0); }
#endif
inline double vc_in(const char* n, double lo, double hi) {   // lo <= x <= hi
	double x = vc_real_(n, lo, hi); vc_assume_(lo <= x); vc_assume_(x <= hi); return x; }
inline double vc_pos(const char* n) { double x = vc_real_(n, 0.01, 3); vc_assume_(x > 0); return x; }
inline double vc_nonneg(const char* n) { double x = vc_real_(n, 0, 3); vc_assume_(x >= 0); return x; }
// a positive quantity in the limit to infinity: dividing by it gives zero
#ifdef VC_NATIVE
inline double vc_limit(const char* n) { return 1e100; }
#else
extern "C" double vc_limit_(const char*);
inline double vc_limit(const char* n) { return vc_limit_(n); }
#endif
inline int vc_int(const char* n, int lo, int hi) { return vc_int_(n, lo, hi); }
inline long vc_len(const char* n, long lo = 0) { return vc_len_(n, lo); }
inline long vc_symint(const char* n, long lo, long hi) { return vc_symint_(n, lo, hi); }
inline bool vc_bool(const char* n) { return vc_bool_(n); }
inline double vc_again(const char* n) { return vc_again_(n); }
inline double vc_again(const char* base, int i) { char b[64]; int k = 0; while(base[k]) { b[k] = base[k]; ++k; } if(i >= 10) b[k++] = char('0' + i / 10); b[k++] = char('0' + i % 10); b[k] = 0; return vc_again_(b); }
inline bool vc_boolidx(const char* base, int i) { char b[64]; int k = 0; while(base[k]) { b[k] = base[k]; ++k; } if(i >= 10) b[k++] = char('0' + i / 10); b[k++] = char('0' + i % 10); b[k] = 0; return vc_bool_(b); }
inline void vc_assume(bool b) { vc_assume_(b); }
inline void vc_assert(const char* id, bool b) { vc_assert_(id, b); }
inline void vc_lemma(const char* id, bool b) { vc_assert_(id, b); vc_assume_(b); }   // proved, then used
inline void vc_eq(const char* id, double a, double b) { vc_eq_(id, a, b); }
inline void vc_reach(const char* id) { vc_reach_(id); }
inline double vc_fun(const char* f, std::initializer_list<double> a) { return vc_fun_(f, a.begin(), (int) a.size()); }
inline bool vc_far(double x, double y, double tol) { return x - y > tol || y - x > tol; }
inline void vc_assume_far(double x, double y, double tol) { vc_assume_(vc_far(x, y, tol)); }
inline double vc_idx(const char* base, int i, double lo = -2, double hi = 2) {
	char b[64]; int k = 0; while(base[k]) { b[k] = base[k]; ++k; }
	if(i >= 100) b[k++] = char('0' + i / 100 % 10);
	if(i >= 10) b[k++] = char('0' + i / 10 % 10);
	b[k++] = char('0' + i % 10); b[k] = 0; return vc_real_(b, lo, hi); }

// Jacobian of F: R^n -> R^n at in (exact derivative of the executed code; natively central differences)
template<class F> void vc_jacobian(F f, double* in, int n, double* J)
{
	double out[8];
#ifdef VC_NATIVE
	for(int j = 0; j < n; j++) {
		double x0 = in[j], h = 2e-3, o[4][8];
		static const double s[4] = {-2, -1, 1, 2};
		for(int k = 0; k < 4; k++) { in[j] = x0 + s[k] * h; f(in, o[k]); }
		in[j] = x0;
		for(int i = 0; i < n; i++) J[i * n + j] = (o[0][i] - 8 * o[1][i] + 8 * o[2][i] - o[3][i]) / (12 * h);
	}
	(void) out;
#else
	f(in, out);
	vc_jac_(in, out, n, n, J);
#endif
}
// derivative of F: R -> R^m at s
template<class F> void vc_derivative(F f, double s, int m, double* d)
{
	std::vector<double> o(m);
#ifdef VC_NATIVE
	double h = 2e-3;
	std::vector<double> a(m), b(m), c(m);
	f(s - 2 * h, a.data()); f(s - h, b.data()); f(s + h, c.data()); f(s + 2 * h, o.data());
	for(int i = 0; i < m; i++) d[i] = (a[i] - 8 * b[i] + 8 * c[i] - o[i]) / (12 * h);
#else
	f(s, o.data());
	vc_jac_(&s, o.data(), 1, m, d);
#endif
}
// J^T S J = sigma * S for canonical pairs (0,1),(2,3),(4,5) with per-pair sign sg[]
inline void vc_symplectic(const char* id, const double* J, int n, const double* sg)
{
	for(int a = 0; a < n; a++)
		for(int b = a + 1; b < n; b++) {
			double s = 0;
			for(int k = 0; k < n; k += 2) s += sg[k / 2] * (J[k * n + a] * J[(k + 1) * n + b] - J[(k + 1) * n + a] * J[k * n + b]);
			vc_eq(id, s, (a % 2 == 0 && b == a + 1) ? sg[a / 2] : 0.0);
		}
}

// std::vector<T> of unbounded symbolic length whose elements are unconstrained (first nd doubles natively)
template<class T> void vc_vector(const char* name, std::vector<T>& v, long n, int nd, int first = 0)   // doubles first..nd-1 of an element
{
#ifdef VC_NATIVE
	v.clear(); v.resize(n);
	for(long i = 0; i < n; i++)
		for(int k = first; k < nd; k++) {
			char b[96]; snprintf(b, sizeof b, "%s.%d[%ld]", name, 8 * k, i);
			double x = vc_real_(b, -2, 2); memcpy(reinterpret_cast<char*>(&v[i]) + 8 * k, &x, 8); }
#else
	struct Raw { char* b; char* e; char* c; };
	Raw* r = reinterpret_cast<Raw*>(&v);
	r->b = static_cast<char*>(vc_symarray_(name, sizeof(T), n));
	r->e = r->b + n * sizeof(T); r->c = r->e;
	(void) nd; (void) first;
#endif
}
// field at byte offset off of every element of a vc_vector is an integer
template<class T> void vc_intfield(std::vector<T>& v, long off)
{
#ifdef VC_NATIVE
	for(size_t i = 0; i < v.size(); i++) { long x = 7 * i + 3; memcpy(reinterpret_cast<char*>(&v[i]) + off, &x, 8); }
#else
	vc_arrsort_(&v[0], off, 1);
#endif
}
#endif
