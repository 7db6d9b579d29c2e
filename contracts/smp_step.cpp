// VC: units = SMPBunch.cpp SliceMacroParticle.cpp StandardMultipoles.cpp RectMultipole.cpp TransportRMaps.cpp RMap.cpp SectorBend.cpp PSvector.cpp MultipoleField.cpp EMField.cpp Solenoid.cpp Drift.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp Monitor.cpp TWRFStructure.cpp SWRFStructure.cpp RFStructure.cpp TWRFfield.cpp MerlinIO.cpp SMPTransform3D.cpp Marker.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
// Contracts of the tracking of slice macro-particles: every element moves the centre of each slice and its covariance by
// the linear map of its field at the momentum of the slice.
#include "vc.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "StandardMultipoles.h"
#include "SMPStdIntegrators.cpp"
using namespace SMPTracking;

struct Mat { double a[6][6]; };
static Mat one() { Mat m; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) m.a[i][j] = i == j ? 1 : 0; return m; }
static Mat roll(double c, double s)     // coordinates in axes turned so that z -> exp(ia) z
{
	Mat m = one();
	for(int i = 0; i < 2; i++) { m.a[i][i] = m.a[i + 2][i + 2] = c; m.a[i][i + 2] = -s; m.a[i + 2][i] = s; }
	return m;
}
static Mat dense(const RMap& M) { Mat m; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) m.a[i][j] = M(i + 1, j + 1); return m; }
static Mat drift(double s) { Mat m = one(); m.a[0][1] = m.a[2][3] = s; return m; }
static Mat planes(const R2Map& X, const R2Map& Y)
{
	Mat m = one();
	m.a[0][0] = X.r11; m.a[0][1] = X.r12; m.a[1][0] = X.r21; m.a[1][1] = X.r22;
	m.a[2][2] = Y.r11; m.a[2][3] = Y.r12; m.a[3][2] = Y.r21; m.a[3][3] = Y.r22;
	return m;
}
struct Slices
{
	long n, i; SMPBunch& b; SliceMacroParticle p; double P0, q;
	double m[6], S[4][4];      // expected
	Slices(double P, double Q) : b(*new SMPBunch(P, Q)), P0(P), q(Q)
	{
		n = vc_len("n", 0); i = vc_symint("i", 0, 1000000);
		vc_assume(i < n);
		vc_vector("p", b.slices, n, 19, 1); vc_intfield(b.slices, 136);
		p = b.slices[i];
		vc_assume(1 + p.dp() > 0);
		for(int k = 0; k < 6; k++) m[k] = p[k];
		for(int k = 0; k < 4; k++) for(int l = 0; l < 4; l++) S[k][l] = p.sig(k, l);
	}
	double brho() { return P0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight; }
	void map(const Mat& M)             // transverse planes
	{
		double w[4], T[4][4], U[4][4];
		for(int k = 0; k < 4; k++) { w[k] = 0; for(int l = 0; l < 6; l++) w[k] += M.a[k][l] * m[l]; }
		for(int k = 0; k < 4; k++) for(int l = 0; l < 4; l++) { T[k][l] = 0; for(int g = 0; g < 4; g++) T[k][l] += M.a[k][g] * S[g][l]; }
		for(int k = 0; k < 4; k++) for(int l = 0; l < 4; l++) { U[k][l] = 0; for(int g = 0; g < 4; g++) U[k][l] += T[k][g] * M.a[l][g]; }
		for(int k = 0; k < 4; k++) { m[k] = w[k]; for(int l = 0; l < 4; l++) S[k][l] = U[k][l]; }
	}
	void result(const char* id)
	{
		const SliceMacroParticle& r = b.slices[i];
		for(int k = 0; k < 6; k++) vc_eq(id, r[k], m[k]);
		for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) vc_eq(id, r.sig(k, l), S[k][l]);
		vc_eq("charge kept", r.Q(), p.Q());
		vc_assert("no slice lost", (long) b.Size() == n);
		vc_reach("post");
	}
};
template<class CI, class C> void setup(CI& ci, C& comp, Slices& p) { ci.SetCurrentComponent(comp); ci.currentBunch = &p.b; }
static RectMultipole* magnet(double len, int terms, Complex* c, double B0)
{
	Quadrupole* m = new Quadrupole("m", len, 1.0);
	MultipoleField& f = m->GetField();
	f.expansion.clear();
	f.expansion.resize(terms, Complex(0, 0));
	for(int i = 0; i < terms; i++) f.expansion[i] = c[i];
	f.B0 = B0;
	return m;
}
VC_ENTRY(drift)
{
	double ds = vc_nonneg("ds");
	Slices p(vc_pos("P0"), 1.0);
	Drift d("d", ds);
	DriftCI ci; setup(ci, d, p);
	ci.TrackStep(ds);
	p.map(drift(ds));
	p.result("drift");
}
VC_ENTRY(marker)
{
	Slices p(vc_pos("P0"), 1.0);
	Marker d("d");
	MarkerCI ci; setup(ci, d, p);
	ci.TrackStep(0);
	p.result("nothing");
}
static void multipole(bool skew, bool thin)     // dipole and quadrupole terms; higher terms are outside the linear model
{
	double ds = thin ? 0.0 : vc_pos("ds"), B0 = skew ? vc_pos("B0") : vc_real("B0"), q = !skew && vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B0, 0, 1e-9);
	int t = vc_int("terms", skew ? 2 : 1, 2);
	bool dip = vc_bool("dipole");
	double a = skew ? vc_in("a", -1.5, 1.5) : 0.0, k = skew ? vc_pos("k") : vc_real("k");
	if(skew) { vc_assume(std::sin(2 * a) != 0); vc_assume_far(a, 0, 1e-9); }
	Complex c[2] = {dip ? Complex(vc_real("b0"), vc_real("a0")) : Complex(0, 0), Complex(k, 0)};
	if(dip) vc_assume(c[0].real() != 0);
	vc_assume(k != 0);
	double ca = std::cos(a), sa = std::sin(a);
	if(skew) c[1] = Complex(k * std::cos(2 * a), k * std::sin(2 * a));
	Slices p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c, B0);
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	double s = q * B0 / p.brho() / (1 + p.p.dp()), K = t > 1 ? s * k : 0.0;
	if(thin) {
		Mat M = one();     // x' - iy' -= K z
		M.a[1][0] = -s * (t > 1 ? c[1].real() : 0.0); M.a[1][2] = s * (t > 1 ? c[1].imag() : 0.0);
		M.a[3][0] = s * (t > 1 ? c[1].imag() : 0.0); M.a[3][2] = s * (t > 1 ? c[1].real() : 0.0);
		p.map(M);
		p.m[1] -= s * c[0].real(); p.m[3] += s * c[0].imag();
		p.result("thin lens");
		return;
	}
	R2Map X, Y;
	double l = dip ? ds / 2 : ds;
	TransportRMap::Quadrupole(l, K, X); TransportRMap::Quadrupole(l, -K, Y);
	for(int half = 0; half < (dip ? 2 : 1); half++) {
		if(skew) p.map(roll(ca, sa));
		p.map(planes(X, Y));
		if(skew) p.map(roll(ca, -sa));
		if(dip & (half == 0)) { p.m[1] -= s * ds * c[0].real(); p.m[3] += s * ds * c[0].imag(); }
	}
	p.result("thick lens");
}
VC_ENTRY(thick) { multipole(false, false); }
VC_ENTRY(thick_skew) { multipole(true, false); }
VC_ENTRY(thin) { multipole(false, true); }
VC_ENTRY(thin_skew) { multipole(true, true); }
VC_ENTRY(magnet_off)
{
	double ds = vc_pos("ds");
	Slices p(vc_pos("P0"), 1.0);
	Complex c[2] = {Complex(0, 0), Complex(0, 0)};
	RectMultipole* m = magnet(ds, 2, c, 0.0);
	RectMultipoleCI ci; setup(ci, *m, p);
	ci.TrackStep(ds);
	p.map(drift(ds));
	p.result("drift");
}
VC_ENTRY(sector_bend)
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), h = vc_real("h");
	vc_assume_far(B0, 0, 1e-9); vc_assume_far(h, 0, 1e-9);
	int t = vc_int("terms", 1, 2);
	bool tilted = vc_bool("tilted");
	double q = tilted ? -1.0 : 1.0, tilt = tilted ? vc_in("tilt", -3, 3) : 0.0;
	if(tilted) vc_assume(tilt != 0);
	Complex c[2] = {Complex(vc_real("b0"), 0), Complex(vc_real("b1"), 0)};
	Slices p(vc_pos("P0"), q);
	SectorBend* m = new SectorBend("m", ds, h, 1.0);
	MultipoleField& f = m->GetField();
	f.expansion.clear(); f.expansion.resize(t, Complex(0, 0));
	for(int k = 0; k < t; k++) f.expansion[k] = c[k];
	f.B0 = B0;
	m->GetGeometry().SetTilt(tilt);
	double Pref = PhysicalUnits::eV * PhysicalConstants::SpeedOfLight * B0 * c[0].real() / h / q;
	vc_assume(Pref > 0);
	vc_assume_far(Pref, p.P0, 1e-6);
	SectorBendCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	double K = t > 1 ? q * B0 * c[1].real() / p.brho() : 0.0, dp = p.m[5];
	RMap M;
	TransportRMap::SectorBend(ds, h, K, M);
	if(tilted) p.map(roll(std::cos(tilt), std::sin(tilt)));
	p.m[5] = p.P0 * (1 + dp) / Pref - 1;
	double dct = 0; Mat D = dense(M);
	for(int l = 0; l < 4; l++) dct += D.a[4][l] * p.m[l];
	dct += D.a[4][5] * p.m[5];
	p.map(D);
	p.m[4] += dct;
	p.m[5] = dp;
	if(tilted) p.map(roll(std::cos(tilt), -std::sin(tilt)));
	p.result("bend");
}
VC_ENTRY(pole_faces)
{
	double h = vc_real("h");
	bool in = vc_bool("in"), out = vc_bool("out"), way = vc_bool("entrance");
	Slices p(vc_pos("P0"), 1.0);
	SectorBend* m = new SectorBend("m", 1.0, h, 1.0);
	SectorBend::PoleFace* a = new SectorBend::PoleFace(vc_in("rot1", -1.5, 1.5), vc_real("fint1"), vc_real("hgap1"));
	SectorBend::PoleFace* b = new SectorBend::PoleFace(vc_in("rot2", -1.5, 1.5), vc_real("fint2"), vc_real("hgap2"));
	m->SetPoleFaceInfo(in ? a : nullptr, out ? b : nullptr);
	SectorBendCI ci; setup(ci, *m, p);
	if(way) ci.TrackEntrance(); else ci.TrackExit();
	SectorBend::PoleFace* f = way ? a : b;
	if(way ? in : out) {
		RMap M;
		TransportRMap::PoleFaceRot(h, f->rot, f->fint, f->hgap, M);
		p.map(dense(M));
	}
	p.result("face");
}
VC_ENTRY(solenoid)
{
	double ds = vc_pos("ds"), B = vc_real("B"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B, 0, 1e-9);
	Slices p(vc_pos("P0"), q);
	Solenoid* m = new Solenoid("m", ds, B);
	SolenoidCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	RMap M;
	double K = q * B / p.brho() / (1 + p.p.dp());
	vc_assume_far(K, 0, 1e-9);
	TransportRMap::Solenoid(ds, K, 0, true, true, M);
	p.map(dense(M));
	p.result("solenoid");
}
VC_ENTRY(solenoid_off)
{
	double ds = vc_pos("ds");
	Slices p(vc_pos("P0"), 1);
	Solenoid* m = new Solenoid("m", ds, 0.0);
	SolenoidCI ci; setup(ci, *m, p);
	ci.TrackStep(ds);
	p.map(drift(ds));
	p.result("drift");
}
VC_ENTRY(cavity)         // plane maps of the accelerating structure at the phase of the slice; the momenta follow the energy
{
	double ds = vc_in("ds", 1e-6, 1000), g = vc_real("g"), k = vc_pos("k"), phi = vc_in("phi", -3, 3), P0 = vc_pos("P0");
	vc_assume_far(g, 0, 1e-9);
	Slices p(P0, 1.0);
	TWRFStructure* m = new TWRFStructure("m", ds, 1.0, 1.0, 0);
	m->GetField().SetAmplitude(g); m->GetField().w = k * PhysicalConstants::SpeedOfLight; m->GetField().SetPhase(phi);
	double u = phi - k * p.m[4], E = P0 * (1 + p.m[5]), dE = g * ds * std::cos(u), P1 = P0 + g * ds * std::cos(phi);
	vc_assume(P1 > 0); vc_assume(E + dE > 0); vc_assume_far(std::cos(u), 0, 1e-9);
	int part = vc_int("part", 0, 3);       // whole, first, last, middle piece
	TWRFStructureCI ci; setup(ci, *m, p);
	double l = ds;
	if(part == 1) l = ds / 2;
	if(part == 2) { l = ds / 2; ci.cur_S = ds / 2; }
	if(part == 3) { l = ds / 4; ci.cur_S = ds / 2; }
	vc_reach("pre");
	dE *= l / ds; P1 = P0 + g * l * std::cos(phi);
	ci.TrackStep(l);
	R2Map M;
	TransportRMap::TWRFCavity(l, g, m->GetField().GetFrequency(), u, E, part < 2, (part == 0) | (part == 2), M);
	p.map(planes(M, M));
	p.m[5] = (E + dE) / P1 - 1;
	p.result("cavity");
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), P1);
}
VC_ENTRY(cavity_off)
{
	double ds = vc_pos("ds"), P0 = vc_pos("P0");
	Slices p(P0, 1.0);
	TWRFStructure* m = new TWRFStructure("m", ds, 1.0, 1.0, 0);
	m->GetField().SetAmplitude(0); m->GetField().SetPhase(vc_real("phi"));
	TWRFStructureCI ci; setup(ci, *m, p);
	ci.TrackEntrance(); ci.TrackStep(ds); ci.TrackExit();
	p.map(drift(ds));
	p.result("cavity off");
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), P0);
}
static int measured;
static double at[6], sg[4][4];
struct Probe: Monitor
{
	Slices* p;
	Probe(double len, double m, Slices* q) : Monitor("m", len, m), p(q) {}
	void MakeMeasurement(const Bunch& b)
	{
		measured++;
		const SliceMacroParticle& s = p->b.slices[p->i];
		for(int k = 0; k < 6; k++) at[k] = s[k];
		for(int k = 0; k < 4; k++) for(int l = 0; l < 4; l++) sg[k][l] = s.sig(k, l);
	}
};
VC_ENTRY(monitor)        // a drift in three steps of any length; one measurement, taken at the measurement point
{
	double len = vc_pos("len"), m = vc_real("mpt"), s1 = vc_pos("s1"), s2 = vc_pos("s2");
	vc_assume(-len / 2 <= m); vc_assume(m < len / 2); vc_assume(s1 + s2 < len);
	Slices p(vc_pos("P0"), 1.0);
	Probe& mon = *new Probe(len, m, &p);
	MonitorCI ci; setup(ci, mon, p);
	measured = 0;
	ci.TrackStep(s1); ci.cur_S += s1;
	ci.TrackStep(s2); ci.cur_S += s2;
	ci.TrackStep(len - s1 - s2);
	vc_assert("one measurement", measured == 1);
	p.map(drift(len / 2 + m));
	for(int k = 0; k < 6; k++) vc_eq("measured at its point", at[k], p.m[k]);
	for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) vc_eq("measured at its point", sg[k][l], p.S[k][l]);
	p.map(drift(len / 2 - m));
	p.result("drift");
}
VC_ENTRY(monitor_thin)
{
	Slices p(vc_pos("P0"), 1.0);
	Probe& mon = *new Probe(0, vc_real("mpt"), &p);
	MonitorCI ci; setup(ci, mon, p);
	measured = 0;
	ci.TrackStep(0);
	vc_assert("one measurement", measured == 1);
	p.result("unchanged");
}
