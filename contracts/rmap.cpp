// VC: units = RMap.cpp MatrixMaps.cpp RTMap.cpp LinearParticleMap.cpp MatrixPrinter.cpp NumericalConstants.cpp ParticleBunch.cpp PSvector.cpp
// Contract: applying a linear or second-order map is the matrix / tensor product with the phase space vector,
// moments are transported as R S R^T, particle identity is kept.
#include "vc.h"
#include "RMap.h"
#include "RTMap.h"
#include "PSmoments.h"
#include "LinearParticleMap.h"
#include "ParticleBunch.h"
using namespace ParticleTracking;

static void fill(PSvector& p, const char* n = "x") { for(int i = 0; i < 6; i++) p[i] = vc_idx(n, i); p.id() = vc_symint("id", 0, 1000000); }
// the map acts on a phase space vector through the accumulating form
static void app(const RMap& R, PSvector& q) { PSvector r(0); R.Apply(q, r); q = r; }
VC_ENTRY(apply_vector)      // all 36 terms, any values
{
	RMap R;
	double m[6][6];
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { m[i][j] = vc_idx("r", i * 6 + j); R.AddTerm(i + 1, j + 1, m[i][j]); }
	PSvector p; fill(p);
	PSvector q(p);
	app(R, q);
	for(int i = 0; i < 6; i++) {
		double s = 0;
		for(int j = 0; j < 6; j++) s += m[i][j] * p[j];
		vc_eq("linear map is the matrix product", q[i], s);
	}
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) vc_eq("element access", static_cast<const RMap&>(R)(i + 1, j + 1), m[i][j]);
	vc_reach("post");
}
VC_ENTRY(sparse)            // terms that were never set read as zero and do not contribute
{
	RMap R;
	double a = vc_real("a"), b = vc_real("b"), c = vc_real("c");
	int i = vc_int("i", 1, 6), j = vc_int("j", 1, 6), k = vc_int("k", 1, 6);
	R(i, j) = a; R(k, k) = b;
	if(!(i == k && j == k)) vc_eq("unrelated element unchanged", R(i, j), a);
	vc_eq("element set", R(k, k), b);
	R(i, j) = c;
	vc_eq("element overwritten", R(i, j), c);
	const RMap& C = R;
	for(int u = 1; u <= 6; u++) for(int v = 1; v <= 6; v++)
		if(!(u == i && v == j) && !(u == k && v == k)) vc_eq("unset element is zero", C(u, v), 0);
	PSvector p; fill(p);
	PSvector q(p);
	app(R, q);
	for(int u = 1; u <= 6; u++) vc_eq("sparse product", q[u - 1], (u == i ? c * p[j - 1] : 0) + (u == k && !(i == k && j == k) ? b * p[k - 1] : 0));
	vc_reach("post");
}
VC_ENTRY(matrix_form)
{
	RealMatrix M(6, 6, 0.0);
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) M(i, j) = (i + 2 * j) % 3 == 0 || i == j ? vc_idx("r", i * 6 + j) : 0;
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) if((i + 2 * j) % 3 == 0 || i == j) vc_assume(M(i, j) != 0);
	RMap R(M);
	PSvector p; fill(p);
	PSvector q(p);
	app(R, q);
	for(int i = 0; i < 6; i++) { double s = 0; for(int j = 0; j < 6; j++) s += M(i, j) * p[j]; vc_eq("map built from a matrix", q[i], s); }
	RealMatrix N(6, 6);
	R.ToMatrix(N);
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) vc_eq("matrix round trip", N(i, j), M(i, j));
	RealMatrix O = R;
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) vc_eq("matrix conversion", O(i, j), M(i, j));
	vc_reach("post");
}
VC_ENTRY(copies)            // a copied map is independent of its source
{
	RMap A;
	double a = vc_real("a"), b = vc_real("b"), c = vc_real("c");
	A.AddTerm(1, 1, a); A.AddTerm(2, 5, b);
	RMap B(A), C;
	C.AddTerm(6, 6, c);
	C = A;
	A(1, 1) = c; A.AddTerm(3, 3, c);
	const RMap &X = B, &Y = C;
	vc_eq("copy keeps the terms", X(1, 1), a); vc_eq("copy keeps the terms", X(2, 5), b); vc_eq("copy keeps the terms", X(3, 3), 0);
	vc_eq("assignment keeps the terms", Y(1, 1), a); vc_eq("assignment keeps the terms", Y(2, 5), b); vc_eq("assignment keeps the terms", Y(6, 6), 0);
	vc_eq("assignment keeps the terms", Y(3, 3), 0);
	vc_reach("post");
}
VC_ENTRY(identity)
{
	RMap R;
	MakeIdentity(R);
	PSvector p; fill(p);
	PSvector q(p);
	app(R, q);
	for(int i = 0; i < 6; i++) vc_eq("identity map", q[i], p[i]);
	vc_reach("post");
}
VC_ENTRY(moments)           // S -> R S R^T and mean -> R mean, any map
{
	RMap R;
	double m[6][6];
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { m[i][j] = vc_idx("r", i * 6 + j); R.AddTerm(i + 1, j + 1, m[i][j]); }
	PSmoments S;
	double c[6][6];
	for(int i = 0; i < 6; i++) { S[i] = vc_idx("m", i); for(int j = 0; j <= i; j++) { S(i, j) = vc_idx("s", i * 6 + j); c[i][j] = c[j][i] = S(i, j); } }
	PSmoments T(S);
	R.Apply(T);
	for(int i = 0; i < 6; i++) {
		double s = 0;
		for(int k = 0; k < 6; k++) s += m[i][k] * S[k];
		vc_eq("mean transported", T[i], s);
		for(int j = 0; j <= i; j++) {
			double v = 0;
			for(int k = 0; k < 6; k++) for(int l = 0; l < 6; l++) v += m[i][k] * m[j][l] * c[k][l];
			vc_eq("covariance transported", T(i, j), v);
		}
	}
	vc_reach("post");
}
VC_ENTRY(moments4)
{
	RMap R;
	double m[4][4];
	for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) { m[i][j] = vc_idx("r", i * 4 + j); R.AddTerm(i + 1, j + 1, m[i][j]); }
	double r55 = vc_real("r55"), r66 = vc_real("r66");
	R.AddTerm(5, 5, r55); R.AddTerm(6, 6, r66);
	TPSMoments<2> S;
	double c[4][4];
	for(int i = 0; i < 6; i++) S[i] = vc_idx("m", i);
	for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) { S(i, j) = vc_idx("s", i * 4 + j); c[i][j] = c[j][i] = S(i, j); }
	TPSMoments<2> T(S);
	R.Apply(T);
	for(int i = 0; i < 4; i++) {
		double s = 0;
		for(int k = 0; k < 4; k++) s += m[i][k] * S[k];
		vc_eq("transverse mean transported", T[i], s);
		for(int j = 0; j <= i; j++) {
			double v = 0;
			for(int k = 0; k < 4; k++) for(int l = 0; l < 4; l++) v += m[i][k] * m[j][l] * c[k][l];
			vc_eq("transverse covariance transported", T(i, j), v);
		}
	}
	vc_eq("longitudinal mean", T[4], r55 * S[4]); vc_eq("longitudinal mean", T[5], r66 * S[5]);
	vc_reach("post");
}
VC_ENTRY(twobytwo)
{
	R2Map X(vc_real("a"), vc_real("b"), vc_real("c"), vc_real("d")), Y(vc_real("e"), vc_real("f"), vc_real("g"), vc_real("h"));
	PSvector p; fill(p);
	for(int pl = 0; pl < 3; pl++) {
		PSvector q(p);
		ApplyR2Map(X, q, pl);
		for(int i = 0; i < 6; i++)
			vc_eq("plane map", q[i], i == 2 * pl ? X.r11 * p[i] + X.r12 * p[i + 1] : i == 2 * pl + 1 ? X.r21 * p[i - 1] + X.r22 * p[i] : p[i]);
	}
	vc_eq("2x2 indexing", X[1][1], X.r11); vc_eq("2x2 indexing", X[1][2], X.r12); vc_eq("2x2 indexing", X[2][1], X.r21); vc_eq("2x2 indexing", X[2][2], X.r22);
	double m[4][4] = {{X.r11, X.r12, 0, 0}, {X.r21, X.r22, 0, 0}, {0, 0, Y.r11, Y.r12}, {0, 0, Y.r21, Y.r22}}, c[4][4];
	TPSMoments<2> S;
	for(int i = 0; i < 6; i++) S[i] = vc_idx("m", i);
	for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) { S(i, j) = vc_idx("s", i * 4 + j); c[i][j] = c[j][i] = S(i, j); }
	TPSMoments<2> T(S);
	ApplyR2Map(X, T, 0); ApplyR2Map(Y, T, 1); ApplyR2Map(X, T, Y);
	for(int i = 0; i < 4; i++) {
		double s = 0;
		for(int k = 0; k < 4; k++) s += m[i][k] * S[k];
		vc_eq("plane maps transport the mean", T[i], s);
		for(int j = 0; j <= i; j++) {
			double v = 0;
			for(int k = 0; k < 4; k++) for(int l = 0; l < 4; l++) v += m[i][k] * m[j][l] * c[k][l];
			vc_eq("plane maps transport the covariance", T(i, j), v);
		}
	}
	vc_eq("plane maps keep ct", T[4], S[4]); vc_eq("plane maps keep dp", T[5], S[5]);
	vc_reach("post");
}
template<int N> static void driftm(const char* id)
{
	double z = vc_real("z");
	TPSMoments<N> S;
	double c[6][6];
	for(int i = 0; i < 6; i++) S[i] = vc_idx("m", i);
	for(int i = 0; i < 2 * N; i++) for(int j = 0; j <= i; j++) { S(i, j) = vc_idx("s", i * 6 + j); c[i][j] = c[j][i] = S(i, j); }
	double m[6][6] = {{1, z, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 1, z, 0, 0}, {0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 0, 1}};
	TPSMoments<N> T(S);
	ApplySimpleDrift(z).Apply(T);
	for(int i = 0; i < 2 * N; i++) {
		double s = 0;
		for(int k = 0; k < 6; k++) s += m[i][k] * S[k];
		vc_eq("drift of the mean", T[i], s);
		for(int j = 0; j <= i; j++) {
			double v = 0;
			for(int k = 0; k < 2 * N; k++) for(int l = 0; l < 2 * N; l++) v += m[i][k] * m[j][l] * c[k][l];
			vc_eq(id, T(i, j), v);
		}
	}
	vc_reach("post");
}
VC_ENTRY(drift_moments4) { driftm<2>("drift of 4D moments"); }
VC_ENTRY(drift_moments6) { driftm<3>("drift of 6D moments"); }
VC_ENTRY(drift_path)
{
	PSvector p; fill(p);
	double z = vc_real("z");
	PSvector q(p), r(p);
	ApplyDriftWithPathLength d(z);
	d(q);
	vc_eq("drift x", q.x(), p.x() + z * p.xp()); vc_eq("drift y", q.y(), p.y() + z * p.yp());
	vc_eq("drift angle", q.xp(), p.xp()); vc_eq("drift angle", q.yp(), p.yp()); vc_eq("drift momentum", q.dp(), p.dp());
	vc_eq("path lengthening", q.ct(), p.ct() - z * (p.xp() * p.xp() + p.yp() * p.yp()) / 2);
	ApplySimpleDrift s(z);
	s(r);
	vc_eq("simple drift x", r.x(), q.x()); vc_eq("simple drift y", r.y(), q.y()); vc_eq("simple drift ct", r.ct(), p.ct());
	vc_reach("post");
}
VC_ENTRY(second_order)
{
	RTMap M;
	double m[6][6];
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { m[i][j] = vc_idx("r", i * 6 + j); M.AddTerm(i + 1, j + 1, m[i][j]); }
	int ti = vc_int("ti", 1, 6), tj = vc_int("tj", 1, 6);
	double t[6];
	for(int k = 0; k < 6; k++) { t[k] = vc_idx("t", k); M(ti, tj, k + 1) = t[k]; }
	PSvector p; fill(p);
	PSvector q(p);
	M.Apply(q);
	for(int i = 0; i < 6; i++) {
		double s = 0;
		for(int j = 0; j < 6; j++) s += m[i][j] * p[j];
		if(i == ti - 1) for(int k = 0; k < 6; k++) s += t[k] * p[tj - 1] * p[k];
		vc_eq("second order map", q[i], s);
	}
	vc_assert("particle identity kept by second order map", q.id() == p.id());
	vc_reach("post");
}
VC_ENTRY(bunch)            // a map applied to a bunch of any size acts on every particle once
{
	long n = vc_len("n", 0), i = vc_symint("i", 0, 1000000);
	vc_assume(i < n);
	ParticleBunch b(vc_pos("p0"), 1.0);
	vc_vector("p", b.pArray, n, 6);
	PSvector p = b.pArray[i];
	double m[6][6];
	LinearParticleMap L;
	for(int u = 0; u < 6; u++) for(int v = 0; v < 6; v++) { m[u][v] = vc_idx("r", u * 6 + v); L.R.R(u, v) = m[u][v]; }
	L.Apply(b);
	PSvector q = b.pArray[i];
	for(int u = 0; u < 6; u++) { double s = 0; for(int v = 0; v < 6; v++) s += m[u][v] * p[v]; vc_eq("every particle mapped once", q[u], s); }
	vc_assert("no particle lost by a map", (long) b.size() == n);
	vc_reach("post");
}
VC_ENTRY(momentum_scaled)  // map evaluated at the particle's own momentum offset
{
	long n = vc_len("n", 0), i = vc_symint("i", 0, 1000000);
	vc_assume(i < n);
	double p0 = vc_pos("p0"), p1 = vc_pos("p1");
	ParticleBunch b(p0, 1.0);
	vc_vector("p", b.pArray, n, 6);
	PSvector p = b.pArray[i];
	RTMap R;
	double m[6][6];
	for(int u = 0; u < 6; u++) for(int v = 0; v < 6; v++) { m[u][v] = vc_idx("r", u * 6 + v); R.AddTerm(u + 1, v + 1, m[u][v]); }
	ApplyMap(R, b.pArray, p0, p1);
	PSvector q = b.pArray[i];
	double x[6];
	for(int u = 0; u < 6; u++) x[u] = p[u];
	x[5] = p0 * (1 + p[5]) / p1 - 1;
	for(int u = 0; u < 5; u++) { double s = 0; for(int v = 0; v < 6; v++) s += m[u][v] * x[v]; vc_eq("map at the rescaled momentum", q[u], s); }
	vc_eq("momentum deviation kept", q[5], p[5]);
	vc_reach("post");
}
