// VC: units = TransportMatrix.cpp MatrixMaps.cpp MatrixPrinter.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp
// VC: nosqrt = 1
// Contract of the matrix factories used by the thin-lens and symplectic integrators: symplectic, concatenating, with the
// right equation of motion; the chromatic matrices are the derivative with respect to momentum.
#include "vc.h"
#include "TransportMatrix.h"
#include "MatrixMaps.h"
#include "PhysicalConstants.h"

static const double SG[3] = {1, 1, 1};
static RealMatrix junk(int n) { RealMatrix m(n, n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) m(i, j) = 77; return m; }
static void symp(const char* id, const RealMatrix& m)
{
	int n = m.nrows();
	double J[36];
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) J[i * n + j] = m(i, j);
	vc_symplectic(id, J, n, SG);
}
static void eqm(const char* id, const RealMatrix& x, const RealMatrix& y)
{
	for(size_t i = 0; i < x.nrows(); i++) for(size_t j = 0; j < x.ncols(); j++) vc_eq(id, x(i, j), y(i, j));
}
static RealMatrix prod(const RealMatrix& x, const RealMatrix& y)
{
	int n = x.nrows();
	RealMatrix m(n, n);
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { double s = 0; for(int k = 0; k < n; k++) s += x(i, k) * y(k, j); m(i, j) = s; }
	return m;
}
static RealMatrix unit(int n) { RealMatrix m(n, n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) m(i, j) = i == j; return m; }
static void noother(const char* id, const RealMatrix& m) { for(size_t i = 0; i < m.nrows(); i++) for(size_t j = 0; j < m.ncols(); j++) if((i < 2) != (j < 2) || i > 3 || j > 3) vc_eq(id, m(i, j), i == j); }

VC_ENTRY(drift)
{
	double l1 = vc_real("l1"), l2 = vc_real("l2");
	int n = 2 * vc_int("ndf", 1, 3);
	RealMatrix a = junk(n), b = junk(n), c = junk(n);
	TransportMatrix::Drift(l1, a); TransportMatrix::Drift(l2, b); TransportMatrix::Drift(l1 + l2, c);
	symp("drift symplectic", a); eqm("drift slicing", prod(b, a), c);
	vc_eq("drift length", a(0, 1), l1); if(n > 2) vc_eq("drift length", a(2, 3), l1);
	vc_reach("post");
}
VC_ENTRY(quadrupole)
{
	double l1 = vc_real("l1"), l2 = vc_real("l2"), k = vc_real("k");
	int n = 2 * vc_int("ndf", 2, 3);
	RealMatrix a = junk(n), b = junk(n), c = junk(n), d = junk(n), e = junk(n);
	TransportMatrix::QuadrupoleR(l1, k, a); TransportMatrix::QuadrupoleR(l2, k, b); TransportMatrix::QuadrupoleR(l1 + l2, k, c);
	TransportMatrix::QuadrupoleR(0, k, d); TransportMatrix::Quadrupole(l1, k, e);
	symp("quadrupole symplectic", a); eqm("quadrupole slicing", prod(b, a), c); eqm("quadrupole of zero length", d, unit(n));
	eqm("quadrupole is a straight combined bend", e, a);
	vc_eq("horizontal focusing", a(1, 0), -k * a(0, 1)); vc_eq("vertical focusing", a(3, 2), k * a(2, 3));
	vc_eq("equal diagonal", a(0, 0), a(1, 1)); vc_eq("equal diagonal", a(2, 2), a(3, 3));
	noother("planes uncoupled", a);
	vc_reach("post");
}
VC_ENTRY(bend)
{
	double l1 = vc_pos("l1"), l2 = vc_pos("l2"), h = vc_real("h"), k = vc_bool("pole") ? -h * h : vc_real("k");
	RealMatrix a = junk(6), b = junk(6), c = junk(6), d = junk(6), e = junk(4);
	TransportMatrix::SectorBend(l1, h, k, a); TransportMatrix::SectorBend(l2, h, k, b); TransportMatrix::SectorBend(l1 + l2, h, k, c); TransportMatrix::SectorBend(0, h, k, d);
	TransportMatrix::SectorBend(l1, h, k, e);
	symp("bend symplectic", a); eqm("bend slicing", prod(b, a), c); eqm("bend of zero length", d, unit(6));
	double kx = k + h * h;
	vc_eq("bend horizontal focusing", a(1, 0), -kx * a(0, 1)); vc_eq("bend vertical focusing", a(3, 2), k * a(2, 3));
	vc_eq("bend dispersion slope", a(1, 5), h * a(0, 1)); vc_eq("bend dispersion", kx * a(0, 5), h * (1 - a(0, 0)));
	for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) vc_eq("4x4 and 6x6 bends agree", e(i, j), a(i, j));
	vc_reach("post");
}
VC_ENTRY(roll)
{
	double p = vc_real("p"), q = vc_real("q");
	int n = 2 * vc_int("ndf", 2, 3);
	RealMatrix a = junk(n), b = junk(n), c = junk(n);
	TransportMatrix::Srot(p, a); TransportMatrix::SrotR4(q, b); TransportMatrix::Srot(std::cos(p + q), std::sin(p + q), c);
	symp("roll symplectic", a); eqm("rolls add up", prod(b, a), c);
	vc_reach("post");
}
VC_ENTRY(poleface)
{
	double h = vc_real("h"), th = vc_in("theta", -1.2, 1.2), fint = vc_in("fint", 0, 1), gap = vc_in("hgap", 0, 0.05);
	vc_assume(std::cos(th) > 0);
	vc_assume(std::cos(th - 2 * fint * gap * h * (1 + std::sin(th) * std::sin(th)) / std::cos(th)) != 0);
	RealMatrix a = junk(6);
	TransportMatrix::PoleFaceRot(h, th, fint, gap, a);
	symp("pole face symplectic", a);
	vc_eq("horizontal kick", a(1, 0), h * std::tan(th));
	vc_eq("vertical kick", a(3, 2), -h * std::tan(th - 2 * fint * gap * h * (1 + std::sin(th) * std::sin(th)) / std::cos(th)));
	vc_reach("post");
}
VC_ENTRY(solenoid)
{
	double l1 = vc_pos("l1"), l2 = vc_pos("l2"), k = vc_real("k");
	vc_assume(k == 0 || vc_far(k * l1, 0, 1e-9)); vc_assume(k == 0 || vc_far(k * l2, 0, 1e-9)); vc_assume(k == 0 || vc_far(k * (l1 + l2), 0, 1e-9));
	int n = 2 * vc_int("ndf", 2, 3);
	RealMatrix a = junk(n), b = junk(n), c = junk(n), d = junk(n);
	TransportMatrix::Solenoid(l1, k, 0, true, true, a); TransportMatrix::Solenoid(l2, k, 0, true, true, b); TransportMatrix::Solenoid(l1 + l2, k, 0, true, true, c);
	TransportMatrix::Drift(l1, d);
	symp("solenoid symplectic", a); eqm("solenoid slicing", prod(b, a), c);
	if(k == 0) { vc_reach("no field"); eqm("solenoid without field is a drift", a, d); }
	else { vc_eq("solenoid focusing", a(1, 0), -k * k / 4 * a(0, 1)); vc_eq("Larmor turn", a(0, 0) * a(0, 2), k / 2 * a(0, 0) * a(0, 1)); }
	vc_reach("post");
}
// the chromatic matrix is d/dp of the linear matrix at reduced strength k/(1+dp)
VC_ENTRY(quadrupole_chromatic)
{
	double l = vc_pos("l");
	double in[1], J[16], k;
	in[0] = k = vc_real("k");
	int n = 4;
	RealMatrix T = junk(4);
	TransportMatrix::QuadrupoleT(l, k, T);
	vc_reach("pre");
	double out[16];
	if(k == 0) { for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) vc_eq("no strength, no chromatic part", T(i, j), 0); return; }
	for(int r = 0; r < n; r++) for(int s = 0; s < n; s++) {
		vc_jacobian([&](const double* a, double* o) { RealMatrix R(4, 4); TransportMatrix::QuadrupoleR(l, a[0], R); o[0] = R(r, s); }, in, 1, J);
		out[r * n + s] = -k * J[0];
	}
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) vc_eq("chromatic derivative", T(i, j), out[i * n + j]);
}
// curvature of the trajectory fixed, magnetic strengths reduced by the momentum: Kx - (2 h^2 + K1) dp, Ky + K1 dp
VC_ENTRY(bend_chromatic)
{
	double l = vc_pos("l"), h = vc_real("h"), k = vc_real("k"), J[4];
	vc_assume(h != 0); vc_assume(k != 0); vc_assume_far(k, -h * h, 1e-3);
	double kx = h * h + k;
	RealMatrix T = junk(6);
	TransportMatrix::SectorBendT(l, h, k, T);
	vc_reach("pre");
	double in[1];
	in[0] = vc_real("K");
	vc_assume(in[0] == kx);
	for(int r = 0; r < 2; r++) for(int s = 0; s < 2; s++) {
		vc_jacobian([&](const double* a, double* o) { RealMatrix R(4, 4); TransportMatrix::QuadrupoleR(l, a[0], R); o[0] = R(r, s); }, in, 1, J);
		vc_eq("chromatic derivative, bending plane", T(r, s), -(2 * h * h + k) * J[0]);
	}
	double iy[1];
	iy[0] = vc_real("Ky");
	vc_assume(iy[0] == k);
	for(int r = 2; r < 4; r++) for(int s = 2; s < 4; s++) {
		vc_jacobian([&](const double* a, double* o) { RealMatrix R(4, 4); TransportMatrix::QuadrupoleR(l, a[0], R); o[0] = R(r, s); }, iy, 1, J);
		vc_eq("chromatic derivative, other plane", T(r, s), -k * J[0]);
	}
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) if((i < 2) != (j < 2) && i < 4 && j < 4) vc_eq("planes uncoupled", T(i, j), 0);
	vc_eq("no chromatic part", T(4, 4), 0); vc_eq("no chromatic part", T(5, 5), 0); vc_eq("no chromatic part", T(5, 4), 0);
}
static double det(const RealMatrix& m) { return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0); }
static double dety(const RealMatrix& m) { return m(2, 2) * m(3, 3) - m(2, 3) * m(3, 2); }
VC_ENTRY(travelling)
{
	double l = vc_pos("l"), g = vc_pos("g"), f = vc_in("f", 1e8, 1e10), phi = vc_in("phi", -1, 1), E0 = vc_pos("E0");
	double c = std::cos(phi), E1 = E0 + l * g * c;
	vc_assume(E1 > 0); vc_assume_far(l * g * c, 0, 1e-9);
	int n = 2 * vc_int("ndf", 1, 3);
	RealMatrix a = junk(n), b = junk(n);
	TransportMatrix::TWRFCavity(l, g, f, phi, E0, true, a); TransportMatrix::TWRFCavity(l, g, f, phi, E0, false, b);
	vc_eq("adiabatic damping with end fields", det(a) * E1, E0); vc_eq("adiabatic damping", det(b) * E1, E0);
	if(n > 2) { vc_eq("adiabatic damping with end fields", dety(a) * E1, E0); vc_eq("adiabatic damping", dety(b) * E1, E0); }
	double ke = -0.5 * g * c / E0, kx = 0.5 * g * c / E1;      // entrance and exit kicks of the end fields
	double r11 = b(0, 0) + b(0, 1) * ke;
	vc_eq("no focusing without end fields", b(1, 0), 0);
	vc_eq("end kicks", a(0, 0), r11); vc_eq("end kicks", a(0, 1), b(0, 1));
	vc_eq("end kicks", a(1, 0), b(1, 0) + b(1, 1) * ke + kx * r11); vc_eq("end kicks", a(1, 1), b(1, 1) + kx * b(0, 1));
	if(n == 6) vc_eq("momentum deviation damped", a(5, 5) * E1, E0);
	vc_reach("post");
}
VC_ENTRY(standing)
{
	double g = vc_pos("g"), f = vc_in("f", 1e8, 1e10), phi = vc_in("phi", -1, 1), E0 = vc_pos("E0");
	int c = vc_int("n", 1, 3), n = 2 * vc_int("ndf", 1, 3);
	double E1 = E0 + g * (c * (PhysicalConstants::SpeedOfLight / f) / 2) * std::cos(phi);
	vc_assume(E1 > 0); vc_assume(std::cos(phi) != 0);
	RealMatrix a = junk(n);
	TransportMatrix::SWRFCavity(c, g, f, phi, E0, a);
	vc_eq("standing wave damping", det(a) * E1, E0);
	if(n > 2) vc_eq("standing wave damping", dety(a) * E1, E0);
	vc_reach("post");
}
// matrix maps acting on first and second moments: mean and covariance of the mapped distribution
static void fillS(PSmoments& S, double c[6][6])
{
	for(int i = 0; i < 6; i++) { S[i] = vc_idx("c", i); for(int j = 0; j <= i; j++) S(i, j) = vc_idx("s", i * 6 + j); }
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) c[i][j] = S(i, j);
}
static void mapped(const char* id, const PSmoments& T, const double m[6][6], const double x[6], const double c[6][6])
{
	for(int i = 0; i < 6; i++) {
		double s = 0;
		for(int k = 0; k < 6; k++) s += m[i][k] * x[k];
		vc_eq(id, T[i], s);
		for(int j = 0; j <= i; j++) {
			double v = 0;
			for(int k = 0; k < 6; k++) for(int l = 0; l < 6; l++) v += m[i][k] * m[j][l] * c[k][l];
			vc_eq(id, T(i, j), v);
		}
	}
}
VC_ENTRY(moments)
{
	PSmoments S; double c[6][6], x[6], m[6][6];
	fillS(S, c);
	for(int i = 0; i < 6; i++) x[i] = S[i];
	int nd = vc_int("ndf", 1, 3);
	RMtrx M(nd);
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { m[i][j] = i == j; if(i < 2 * nd && j < 2 * nd) M.R(i, j) = m[i][j] = vc_idx("r", i * 6 + j); }
	M.Apply(S);
	mapped("mapped moments", S, m, x, c);
	PSvector v(0), w;
	for(int i = 0; i < 6; i++) v[i] = vc_idx("v", i);
	w = v; M.Apply(w);
	for(int i = 0; i < 6; i++) { double s = 0; for(int k = 0; k < 6; k++) s += m[i][k] * v[k]; vc_eq("mapped vector", w[i], s); }
	vc_reach("post");
}
VC_ENTRY(moments_momentum)   // dp is relative to p0; the map is for momentum Pref
{
	PSmoments S; double c[6][6], x[6], m[6][6];
	fillS(S, c);
	double p0 = vc_pos("p0"), pr = vc_pos("pref"), r = p0 / pr; vc_assume(pr > 1e-3);
	int nd = vc_int("ndf", 2, 3);
	RMtrx M(nd, pr);
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { m[i][j] = i == j; if(i < 2 * nd && j < 2 * nd) M.R(i, j) = m[i][j] = vc_idx("r", i * 6 + j); }
	for(int i = 0; i < 6; i++) { x[i] = S[i]; c[i][5] *= r; c[5][i] *= r; }
	x[5] = r * (1 + x[5]) - 1;
	PSmoments T = S;
	M.Apply(T, p0);
	PSmoments U = T;
	for(int i = 0; i < 5; i++) U(i, 5) *= r;
	U(5, 5) *= r * r; U[5] = r * (1 + U[5]) - 1;
	mapped("moments at the rescaled momentum", U, m, x, c);
	PSvector v(0), w, u;
	for(int i = 0; i < 6; i++) v[i] = vc_idx("v", i);
	w = v; M.Apply(w, p0);
	u = v; u.dp() = r * (1 + v.dp()) - 1;
	w.dp() = r * (1 + w.dp()) - 1;
	for(int i = 0; i < 6; i++) { double s = 0; for(int k = 0; k < 6; k++) s += m[i][k] * u[k]; vc_eq("vector at the rescaled momentum", w[i], s); }
	vc_reach("post");
}
VC_ENTRY(sets)               // a set of moments or of vectors is mapped one by one
{
	PSmoments S[2]; double c[6][6];
	fillS(S[0], c); S[1] = S[0];
	for(int i = 0; i < 6; i++) { S[1][i] = vc_idx("other mean", i); S[1](i, i) = vc_idx("other variance", i); }
	double p0 = vc_pos("p0"), pr = vc_pos("pref"); vc_assume(pr > 1e-3);
	bool any = vc_bool("independent of the momentum"), as = vc_bool("momentum given");
	int nd = vc_int("ndf", 2, 3);
	RMtrx M(nd, any ? 0.0 : pr);
	for(int i = 0; i < 2 * nd; i++) for(int j = 0; j < 2 * nd; j++) M.R(i, j) = (i == j) + ((i == 1) & (j == 0) ? vc_real("kick") : (i == 0) & (j == 5) ? vc_real("dispersion") : (i == 5) & (j == 4) ? vc_real("acceleration") : 0);
	PSmomentsArray a; PSvectorArray b;
	PSvector v[2];
	for(int k = 0; k < 2; k++) {
		for(int i = 0; i < 6; i++) v[k][i] = vc_idx("v", 6 * k + i);
		v[k].id() = k + 1;
		a.push_back(S[k]); b.push_back(v[k]);
	}
	if(as) { M.Apply(a, p0); M.Apply(b, p0); } else { M.Apply(a); M.Apply(b); }
	vc_assert("size", (a.size() == 2) & (b.size() == 2));
	for(int k = 0; k < 2; k++) {
		if(as) { M.Apply(S[k], p0); M.Apply(v[k], p0); } else { M.Apply(S[k]); M.Apply(v[k]); }
		for(int i = 0; i < 6; i++) {
			vc_eq("mean", a[k][i], S[k][i]); vc_eq("vector", b[k][i], v[k][i]);
			for(int j = 0; j <= i; j++) vc_eq("covariance", a[k](i, j), S[k](i, j));
		}
		vc_assert("identity", b[k].id() == v[k].id());
	}
	vc_reach("post");
}
VC_ENTRY(chromatic_map_momentum)
{
	double p0 = vc_pos("p0"), pr = vc_pos("pref"), r = p0 / pr; vc_assume(pr > 1e-3);
	int nd = vc_int("ndf", 2, 3), n = 2 * nd;
	RdpMtrx M(nd, pr);
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { M.R(i, j) = vc_idx("r", i * 6 + j); M.T(i, j) = vc_idx("t", i * 6 + j); }
	PSvector v(0), w, u;
	for(int i = 0; i < 6; i++) v[i] = vc_idx("v", i);
	w = v; M.Apply(w, p0);
	u = v; u.dp() = r * (1 + v.dp()) - 1;
	w.dp() = r * (1 + w.dp()) - 1;
	for(int i = 0; i < 6; i++) {
		double s = i < n ? 0 : u[i];
		if(i < n) for(int k = 0; k < n; k++) s += (M.R(i, k) + M.T(i, k) * u[5]) * u[k];
		vc_eq("chromatic map at the rescaled momentum", w[i], s);
	}
	vc_reach("post");
}
VC_ENTRY(chromatic_map)      // (R + T dp) x
{
	int nd = vc_int("ndf", 2, 2);
	RdpMtrx M(nd);
	for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) { M.R(i, j) = vc_idx("r", i * 6 + j); M.T(i, j) = vc_idx("t", i * 6 + j); }
	PSvector v(0), w;
	for(int i = 0; i < 6; i++) v[i] = vc_idx("v", i);
	w = v; M.Apply(w);
	for(int i = 0; i < 4; i++) { double s = 0; for(int k = 0; k < 4; k++) s += (M.R(i, k) + M.T(i, k) * v[5]) * v[k]; vc_eq("chromatic map", w[i], s); }
	vc_eq("longitudinal unchanged", w[4], v[4]); vc_eq("longitudinal unchanged", w[5], v[5]);
	vc_reach("post");
}
