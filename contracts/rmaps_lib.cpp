// VC: units = TransportRMaps.cpp RMap.cpp MatrixPrinter.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp
// VC: nosqrt = 1
// Contract: the linear beam-optics maps are symplectic (or damp by the momentum ratio in a cavity), leave the
// longitudinal coordinates alone where they should, and concatenate like the elements they describe.
#include "vc.h"
#include "TransportRMap.h"
#include "PhysicalConstants.h"

static const double SG[3] = {1, 1, 1};
struct M6 { double a[6][6]; };
static M6 mat(const RMap& R)       // by application to the unit vectors: exactly what tracking applies
{
	M6 m;
	for(int j = 0; j < 6; j++) {
		PSvector e(0), r(0);
		e[j] = 1;
		R.Apply(e, r);
		for(int i = 0; i < 6; i++) m.a[i][j] = r[i];
	}
	return m;
}
static M6 mul(const M6& x, const M6& y)
{
	M6 m;
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { double s = 0; for(int k = 0; k < 6; k++) s += x.a[i][k] * y.a[k][j]; m.a[i][j] = s; }
	return m;
}
static void eqm(const char* id, const M6& x, const M6& y) { for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) vc_eq(id, x.a[i][j], y.a[i][j]); }
static void symp(const char* id, const M6& m) { vc_symplectic(id, &m.a[0][0], 6, SG); }
static M6 unit() { M6 m; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) m.a[i][j] = i == j; return m; }

VC_ENTRY(drift)
{
	double l1 = vc_real("l1"), l2 = vc_real("l2");
	RMap A, B, C;
	TransportRMap::Drift(l1, A); TransportRMap::Drift(l2, B); TransportRMap::Drift(l1 + l2, C);
	M6 a = mat(A);
	symp("drift symplectic", a);
	vc_eq("drift length", a.a[0][1], l1); vc_eq("drift length", a.a[2][3], l1);
	eqm("drift slicing", mul(mat(B), a), mat(C));
	vc_reach("post");
}
VC_ENTRY(quadrupole)
{
	double l1 = vc_real("l1"), l2 = vc_real("l2"), k = vc_real("k");
	RMap A, B, C, D, E;
	TransportRMap::Quadrupole(l1, k, A); TransportRMap::Quadrupole(l2, k, B); TransportRMap::Quadrupole(l1 + l2, k, C);
	TransportRMap::Quadrupole(0, k, D); TransportRMap::Quadrupole(-l1, k, E);
	M6 a = mat(A);
	symp("quadrupole symplectic", a);
	eqm("quadrupole slicing", mul(mat(B), a), mat(C));
	eqm("quadrupole of zero length", mat(D), unit());
	eqm("quadrupole backwards", mul(mat(E), a), unit());
	// equation of motion  x'' = -k x, y'' = +k y
	vc_eq("horizontal focusing", a.a[1][0], -k * a.a[0][1]); vc_eq("vertical focusing", a.a[3][2], k * a.a[2][3]);
	vc_eq("equal diagonal", a.a[0][0], a.a[1][1]); vc_eq("equal diagonal", a.a[2][2], a.a[3][3]);
	R2Map x, y;
	TransportRMap::Quadrupole(l1, k, x); TransportRMap::Quadrupole(l1, -k, y);
	vc_eq("2x2 quadrupole", x.r11, a.a[0][0]); vc_eq("2x2 quadrupole", x.r12, a.a[0][1]); vc_eq("2x2 quadrupole", x.r21, a.a[1][0]); vc_eq("2x2 quadrupole", x.r22, a.a[1][1]);
	vc_eq("2x2 quadrupole", y.r11, a.a[2][2]); vc_eq("2x2 quadrupole", y.r12, a.a[2][3]); vc_eq("2x2 quadrupole", y.r21, a.a[3][2]); vc_eq("2x2 quadrupole", y.r22, a.a[3][3]);
	vc_reach("post");
}
VC_ENTRY(sectorbend)
{
	double l1 = vc_pos("l1"), l2 = vc_pos("l2"), h = vc_real("h"), k = vc_bool("pole") ? -h * h : vc_real("k");
	RMap A, B, C, D;
	TransportRMap::SectorBend(l1, h, k, A); TransportRMap::SectorBend(l2, h, k, B); TransportRMap::SectorBend(l1 + l2, h, k, C); TransportRMap::SectorBend(0, h, k, D);
	M6 a = mat(A);
	symp("bend symplectic", a);
	eqm("bend slicing", mul(mat(B), a), mat(C));
	eqm("bend of zero length", mat(D), unit());
	double kx = k + h * h;
	vc_eq("bend horizontal focusing", a.a[1][0], -kx * a.a[0][1]); vc_eq("bend vertical focusing", a.a[3][2], k * a.a[2][3]);
	vc_eq("bend dispersion slope", a.a[1][5], h * a.a[0][1]);
	vc_eq("bend dispersion", kx * a.a[0][5], h * (1 - a.a[0][0]));
	vc_reach("post");
}
VC_ENTRY(roll)
{
	double p = vc_real("p"), q = vc_real("q");
	RMap A, B, C;
	TransportRMap::Srot(p, A); TransportRMap::Srot(q, B); TransportRMap::Srot(p + q, C);
	M6 a = mat(A);
	symp("roll symplectic", a);
	eqm("rolls add up", mul(mat(B), a), mat(C));
	double c = std::cos(p), s = std::sin(p);
	for(int d = 0; d < 2; d++) {
		vc_eq("roll angle", a.a[d][d], c); vc_eq("roll angle", a.a[d][d + 2], -s); vc_eq("roll angle", a.a[d + 2][d], s); vc_eq("roll angle", a.a[d + 2][d + 2], c); }
	vc_reach("post");
}
VC_ENTRY(poleface)
{
	double h = vc_real("h"), t = vc_in("t", -1, 1), f = vc_real("fint"), g = vc_real("gap");
	vc_assume(std::cos(t) > 0);
	RMap A;
	TransportRMap::PoleFaceRot(h, t, f, g, A);
	M6 a = mat(A);
	symp("pole face symplectic", a);
	vc_eq("pole face horizontal", a.a[1][0], h * std::tan(t));
	vc_eq("pole face thin", a.a[0][0], 1); vc_eq("pole face thin", a.a[0][1], 0); vc_eq("pole face thin", a.a[2][3], 0);
	RMap B;
	TransportRMap::PoleFaceRot(h, t, 0, g, B);
	vc_eq("pole face vertical without fringe", mat(B).a[3][2], -h * std::tan(t));
	vc_reach("post");
}
VC_ENTRY(solenoid)
{
	double l1 = vc_pos("l1"), l2 = vc_pos("l2"), k = vc_real("k");
	vc_assume(k == 0 || (vc_far(k * l1, 0, 1e-9) && vc_far(k * l2, 0, 1e-9)));
	RMap A, B, C;
	TransportRMap::Solenoid(l1, k, 0, true, true, A); TransportRMap::Solenoid(l2, k, 0, true, true, B); TransportRMap::Solenoid(l1 + l2, k, 0, true, true, C);
	M6 a = mat(A);
	symp("solenoid symplectic", a);
	eqm("solenoid slicing", mul(mat(B), a), mat(C));
	// with no field it is a drift
	RMap D, E;
	TransportRMap::Solenoid(l1, 0, 0, true, true, D); TransportRMap::Drift(l1, E);
	eqm("solenoid without field", mat(D), mat(E));
	vc_reach("post");
}
static double det(const R2Map& m) { return m.r11 * m.r22 - m.r12 * m.r21; }
static void blocks(const char* id, const RMap& R, const R2Map& m)
{
	M6 a = mat(R);
	for(int p = 0; p < 4; p += 2) {
		vc_eq(id, a.a[p][p], m.r11); vc_eq(id, a.a[p][p + 1], m.r12); vc_eq(id, a.a[p + 1][p], m.r21); vc_eq(id, a.a[p + 1][p + 1], m.r22); }
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) if(i / 2 != j / 2 || i > 3) vc_eq("cavity map leaves the rest alone", a.a[i][j], i == j);
}
VC_ENTRY(travelling)
{
	double l = vc_pos("l"), g = vc_real("g"), f = vc_pos("f"), phi = vc_real("phi"), E0 = vc_pos("E0");
	bool en = vc_bool("entrance"), ex = vc_bool("exit");
	double c = std::cos(phi), E1 = E0 + l * g * c;
	vc_assume(E1 > 0);
	R2Map m;
	RMap R;
	TransportRMap::TWRFCavity(l, g, f, phi, E0, en, ex, m);
	TransportRMap::TWRFCavity(l, g, f, phi, E0, en, ex, R);
	vc_eq("adiabatic damping", det(m) * E1, E0);
	blocks("6D and 2D cavity maps agree", R, m);
	if(g != 0 && c != 0 && en && ex) {
		vc_reach("fringes");
		R2Map a, b;      // fringes at both ends = entrance fringe, body, exit fringe
		TransportRMap::TWRFCavity(l, g, f, phi, E0, false, false, b);
		double ke = -0.5 * g * c / E0, kx = 0.5 * g * c / E1;
		a.r11 = b.r11 + b.r12 * ke; a.r12 = b.r12; a.r21 = b.r21 + b.r22 * ke + kx * a.r11; a.r22 = b.r22 + kx * b.r12;
		vc_eq("end kicks", a.r11, m.r11); vc_eq("end kicks", a.r12, m.r12); vc_eq("end kicks", a.r21, m.r21); vc_eq("end kicks", a.r22, m.r22);
	}
	vc_reach("post");
}
VC_ENTRY(standing)
{
	double g = vc_pos("g"), f = vc_in("f", 1e8, 1e10), phi = vc_in("phi", -1, 1), E0 = vc_pos("E0");
	int n = vc_int("n", 1, 3);
	double E1 = E0 + g * (n * (PhysicalConstants::SpeedOfLight / f) / 2) * std::cos(phi);
	vc_assume(E1 > 0);
	vc_assume(std::cos(phi) != 0);
	R2Map m;
	RMap R;
	TransportRMap::SWRFCavity(n, g, f, phi, E0, m);
	TransportRMap::SWRFCavity(n, g, f, phi, E0, R);
	vc_eq("standing wave damping", det(m) * E1, E0);
	blocks("6D and 2D standing wave maps agree", R, m);
	vc_reach("post");
}
