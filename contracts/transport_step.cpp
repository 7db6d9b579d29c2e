// VC: units = StandardMultipoles.cpp RectMultipole.cpp TransportMatrix.cpp MatrixMaps.cpp SectorBend.cpp PSvector.cpp MultipoleField.cpp Drift.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp ParticleBunch.cpp ElectronBunch.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp RMap.cpp
// VC: skip = BasicTransportMaps.cpp RTMap.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
// Contracts of the TRANSPORT integrator steps: second order map of the main field in the frame of the element, centred
// kick of the remaining multipoles, pole faces inside the tilted frame.  The callees are replaced by their contracts
// (I04: the map is a function of its parameters; L01: application maps all coordinates as a function of the vector):
// the map factories and RTMap::Apply below are uninterpreted functions, everything else is the code of the library.
#include "step.h"
#include "ElectronBunch.h"
#include "TransportIntegrators.cpp"
using namespace ParticleTracking::TRANSPORT;

static void roll(PSvector& v, double a)     // coordinates in axes turned so that z -> exp(ia) z
{
	double c = std::cos(a), s = std::sin(a), x = v.x(), px = v.xp();
	v.x() = c * x - s * v.y(); v.y() = s * x + c * v.y();
	v.xp() = c * px - s * v.yp(); v.yp() = s * px + c * v.yp();
}
static RTMap* abstract(double kind, std::initializer_list<double> a)
{
	RTMap* m = new RTMap;
	RMap::Rij* r = m->rterms.array;
	for(int i = 0; i < 8; i++) { r[i].i = r[i].j = 0; r[i].val = 0; }
	r->val = kind; for(double x: a) (++r)->val = x;
	m->rterms.last = m->rterms.array + 8;
	return m;
}
RTMap* DriftTM(double s) { return abstract(1, {s}); }
RTMap* QuadrupoleTM(double s, double K) { return abstract(2, {s, K}); }
RTMap* SextupoleTM(double s, double K) { return abstract(3, {s, K}); }
RTMap* SectorBendTM(double s, double h, double gamma) { return abstract(4, {s, h, gamma}); }
RTMap* GenSectorBendTM(double s, double h, double K1, double K2) { return abstract(5, {s, h, K1, K2}); }
RTMap* PoleFaceTM(double h, double K, double t, double c, double f, double g, bool in) { return abstract(in ? 6 : 7, {h, K, t, c, f, g}); }
PSvector& RTMap::Apply(PSvector& p) const
{
	double a[14];
	for(int i = 0; i < 8; i++) a[i] = rterms.array[i].val;
	for(int i = 0; i < 6; i++) a[8 + i] = p[i];
	static const char* n[6] = {"x", "xp", "y", "yp", "ct", "dp"};
	for(int i = 0; i < 6; i++) p[i] = vc_fun_(n[i], a, 14);
	return p;
}
static void along(RTMap* m, PSvector& v) { m->Apply(v); delete m; }
static double brho(double P0) { return P0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight; }
static void fly(PSvector& v, double s)
{
	v.x() += s * v.xp(); v.y() += s * v.yp(); v.ct() -= s * (v.xp() * v.xp() + v.yp() * v.yp()) / 2;
}
VC_ENTRY(drift)
{
	double ds = vc_nonneg("ds");
	Particles p(vc_pos("P0"), 1.0);
	Drift d("d", ds);
	DriftCI ci; setup(ci, d, p);
	ci.TrackStep(ds);
	PSvector w = p.p;
	if(ds != 0) along(DriftTM(ds), w);
	p.result("drift", w);
}
VC_ENTRY(thin)           // zero length: the field is the integrated strength
{
	double B0 = vc_real("B0"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B0, 0, 1e-9);
	int t = vc_int("terms", 1, 4);
	Complex c[4] = {Complex(vc_real("b0"), vc_real("a0")), Complex(vc_real("b1"), vc_real("a1")), Complex(vc_real("b2"), vc_real("a2")), Complex(vc_real("b3"), vc_real("a3"))};
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(0, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(0);
	PSvector w = p.p;
	kick(w, c, 0, t, B0, 1.0, q, p.p0, true);
	p.result("kick", w);
}
VC_ENTRY(multipole)      // dipole, octupole: kick in the middle of a drift
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B0, 0, 1e-9);
	int t = vc_int("terms", 1, 4);
	Complex c[4] = {Complex(vc_real("b0"), vc_real("a0")), Complex(0, 0), Complex(0, 0), Complex(vc_real("b3"), vc_real("a3"))};
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	fly(w, ds / 2); kick(w, c, 0, t, B0, ds, q, p.p0, true); fly(w, ds / 2);
	p.result("drift-kick-drift", w);
}
static void focusing(int main)   // quadrupole (main = 1) or sextupole (main = 2), normal or skew
{
	bool skew = vc_bool("skew"), bend = vc_bool("bend");
	double ds = vc_pos("ds"), B0 = skew ? vc_pos("B0") : vc_real("B0"), q = !skew && vc_bool("negative") ? -1.0 : 1.0, a = skew ? vc_in("a", -1.5, 1.5) : 0.0, k = skew ? vc_pos("k") : vc_real("k");
	vc_assume_far(B0, 0, 1e-9);
	vc_assume(k != 0);
	if(skew) { vc_assume(std::sin((main + 1) * a) != 0); vc_assume_far(a, 0, 1e-9); }
	if(skew & (main == 2)) { vc_assume(a > -1.04); vc_assume(a < 1.04); }
	int t = vc_int("terms", main + 1, 4 - (main == 1));
	Complex c[4] = {Complex(0, 0), Complex(0, 0), Complex(0, 0), Complex(0, 0)};
	if(bend) { c[0] = Complex(vc_real("b0"), 0); vc_assume(c[0].real() != 0); }
	if(t > main + 1) c[t - 1] = Complex(vc_real("b"), vc_real("a_"));
	Complex d[4] = {c[0], c[1], c[2], c[3]};
	c[main] = skew ? Complex(k * std::cos((main + 1) * a), k * std::sin((main + 1) * a)) : Complex(k, 0);
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	double K = main * q * B0 * k / brho(p.p0);
	bool split = bend | (t > main + 1);
	for(int half = 0; half < (split ? 2 : 1); half++) {
		if(skew) roll(w, a);
		double l = split ? ds / 2 : ds;
		along(main == 1 ? QuadrupoleTM(l, K) : SextupoleTM(l, K), w);
		if(skew) roll(w, -a);
		if(split & (half == 0)) kick(w, d, 0, t, B0, ds, q, p.p0, true);
	}
	p.result("map and kick", w);
	MultipoleField& f = m->GetField();
	for(int i = 0; i < t; i++) { vc_eq("field unchanged", f.expansion[i].real(), c[i].real()); vc_eq("field unchanged", f.expansion[i].imag(), c[i].imag()); }
}
VC_ENTRY(quadrupole) { focusing(1); }
VC_ENTRY(sextupole) { focusing(2); }
struct Bend
{
	SectorBend* m; double h, K, tilt;
	Bend(double len, double B0, int t, const Complex* c, double q, double P0) : h(vc_real("h"))
	{
		vc_assume_far(B0, 0, 1e-9); vc_assume_far(h, 0, 1e-9);
		m = new SectorBend("m", len, h, 1.0);
		MultipoleField& f = m->GetField();
		f.expansion.clear(); f.expansion.resize(t, Complex(0, 0));
		for(int k = 0; k < t; k++) f.expansion[k] = c[k];
		f.B0 = B0;
		tilt = vc_bool("tilted") ? vc_in("tilt", -3, 3) : 0.0;
		m->GetGeometry().SetTilt(tilt);
		K = t > 1 ? q * B0 * c[1].real() / brho(P0) : 0.0;
	}
};
static RTMap* bend(double s, double h, double K, double P0)
{
	double m = PhysicalConstants::ElectronMassMeV * PhysicalUnits::MeV;
	return K == 0 ? SectorBendTM(s, h, std::sqrt(1 + P0 / m * (P0 / m))) : GenSectorBendTM(s, h, K, 0);
}
VC_ENTRY(sector_bend)
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), P0 = vc_pos("P0");
	int t = vc_int("terms", 1, 3), kind = t < 3 ? vc_int("kind", 0, 1) : 0;
	bool skewdip = (kind == 1) & (t == 1), skewquad = (kind == 1) & (t == 2), gradient = t > 1;
	double q = vc_bool("negative") ? -1.0 : 1.0;
	Complex c[3] = {Complex(vc_real("b0"), skewdip ? vc_real("a0") : 0), Complex(gradient ? vc_real("b1") : 0.0, skewquad ? vc_real("a1") : 0), Complex(vc_real("b2"), vc_real("a2"))};
	if(skewdip) vc_assume(c[0].imag() != 0);
	if(skewquad) vc_assume(c[1].imag() != 0);
	if(gradient) vc_assume(c[1].real() != 0);
	ParticleTracking::ElectronBunch* e = new ParticleTracking::ElectronBunch(P0, q);
	long n = vc_len("n", 0), i = vc_symint("i", 0, 1000000);
	vc_assume(i < n);
	vc_vector("p", e->pArray, n, 6); vc_intfield(e->pArray, 48);
	PSvector p0 = e->pArray[i];
	vc_assume(1 + p0.dp() > 0);
	Bend b(ds, B0, t, c, q, P0);
	double Pref = PhysicalUnits::eV * PhysicalConstants::SpeedOfLight * B0 * c[0].real() / b.h / q;
	vc_assume(Pref > 0); vc_assume_far(Pref, 0, 1e-9);
	bool matched = vc_bool("matched");
	if(matched) vc_assume(Pref == P0);
	else vc_assume_far(P0, Pref, 1e-5);
	SectorBendCI ci; ci.SetCurrentComponent(*b.m); ci.currentBunch = e;
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p0;
	bool split = skewdip | skewquad | (t > 2);
	double dp = w.dp(), D = matched ? dp : P0 / Pref * (1 + dp) - 1;
	w.dp() = D; along(bend(split ? ds / 2 : ds, b.h, b.K, P0), w); if(!matched) w.dp() = dp;
	if(split) {
		Complex d[3] = {Complex(0, c[0].imag()), Complex(0, c[1].imag()), c[2]};
		kick(w, d, 0, t, B0, ds, q, P0, true);
		if(!matched) w.dp() = D;
		along(bend(ds / 2, b.h, b.K, P0), w); if(!matched) w.dp() = dp;
	}
	PSvector r = e->pArray[i];
	for(int k = 0; k < 6; k++) vc_eq("bend", r[k], w[k]);
	vc_assert("no particle lost", (long) e->size() == n);
	MultipoleField& f = b.m->GetField();
	for(int k = 0; k < t; k++) { vc_eq("field unchanged", f.expansion[k].real(), c[k].real()); vc_eq("field unchanged", f.expansion[k].imag(), c[k].imag()); }
	vc_reach("post");
}
VC_ENTRY(pole_faces)     // entrance inside the tilted frame on the way in, exit on the way out; a missing face is a plain edge
{
	double P0 = vc_pos("P0"), B0 = vc_real("B0"), q = vc_bool("negative") ? -1.0 : 1.0;
	bool in = vc_bool("in"), out = vc_bool("out"), way = vc_bool("entrance");
	Complex c[2] = {Complex(vc_real("b0"), 0), Complex(vc_real("b1"), 0)};
	Particles p(P0, q);
	Bend b(1.0, B0, 2, c, q, P0);
	SectorBend::PoleFace* f1 = new SectorBend::PoleFace(vc_in("rot1", -1.5, 1.5), vc_real("fint1"), vc_real("hgap1"));
	SectorBend::PoleFace* f2 = new SectorBend::PoleFace(vc_in("rot2", -1.5, 1.5), vc_real("fint2"), vc_real("hgap2"));
	b.m->SetPoleFaceInfo(in ? f1 : nullptr, out ? f2 : nullptr);
	SectorBendCI ci; setup(ci, *b.m, p);
	vc_reach("pre");
	if(way) ci.TrackEntrance(); else ci.TrackExit();
	PSvector w = p.p;
	const SectorBend::PoleFace* f = way ? (in ? f1 : nullptr) : (out ? f2 : nullptr);
	if(way) roll(w, -b.tilt);
	along(f ? PoleFaceTM(b.h, b.K, f->rot, 0, f->fint, f->hgap, way) : PoleFaceTM(b.h, b.K, 0, 0, 0, 0, way), w);
	if(!way) roll(w, b.tilt);
	p.result("pole face", w);
}
