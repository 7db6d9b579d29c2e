// VC: units = LinearAlgebra.cpp TMatrixLib.cpp
// VC: nodiv = 1
// Contracts of matrix inversion and factorisation: the system is solved, whatever pivots are chosen.
#include "vc.h"
#include "TLAS.h"
#include "TLASimp.h"
#include "LinearAlgebra.h"
using namespace TLAS;

VC_ENTRY(inverse)
{
	int n = vc_int("n", 1, 2);
	RealMatrix a(n, n), b(n, n);
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) b(i, j) = a(i, j) = vc_idx("a", 3 * i + j);
	double d = n == 1 ? a(0, 0) : a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
	vc_assume_far(d, 0, 1e-6);
	double least = Invert(b);
	vc_assert("pivots", least > 0);
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
		double s = 0;
		for(int k = 0; k < n; k++) s += a(i, k) * b(k, j);
		vc_eq("inverse", s, i == j ? 1 : 0);
	}
	vc_reach("post");
}
VC_ENTRY(factors)
{
	int n = vc_int("n", 1, 2);
	Matrix<double> a(n, n);
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) a(i, j) = vc_idx("a", 3 * i + j);
	double d = n == 1 ? a(0, 0) : a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
	vc_assume_far(d, 0, 1e-6);
	LUMatrix<double> lu(a);
	vc_eq("determinant", lu.det(), d);
	Vector<double> v(n);
	for(int i = 0; i < n; i++) v[i] = vc_idx("v", i);
	lu(v);
	for(int i = 0; i < n; i++) {
		double s = 0;
		for(int k = 0; k < n; k++) s += a(i, k) * v[k];
		vc_eq("solution", s, vc_again("v", i));
	}
	vc_reach("post");
}

static const double rest[2][3] = {{2, 1, -0.5}, {-1, 4, 0.25}};
static void three(RealMatrix& a)     // one row of any values among the others
{
	int free = vc_int("row", 0, 2), r = 0;
	for(int i = 0; i < 3; i++) { for(int j = 0; j < 3; j++) a(i, j) = i == free ? vc_idx("a", j, -8, 8) : rest[r][j]; if(i != free) r++; }
	double d = a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
	vc_assume_far(d, 0, 1e-6);
}
VC_ENTRY(inverse_of_three)
{
	RealMatrix a(3, 3);
	three(a);
	RealMatrix b(a);
	vc_assert("pivots", Invert(b) > 0);
	for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) vc_eq("inverse", a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j), i == j ? 1 : 0);
	vc_reach("post");
}
VC_ENTRY(factors_of_three)
{
	RealMatrix a(3, 3);
	three(a);
	LUMatrix<double> lu(a);
	Vector<double> v(3);
	for(int i = 0; i < 3; i++) v[i] = vc_idx("v", i);
	lu(v);
	for(int i = 0; i < 3; i++) vc_eq("solution", a(i, 0) * v[0] + a(i, 1) * v[1] + a(i, 2) * v[2], vc_again("v", i));
	vc_reach("post");
}
