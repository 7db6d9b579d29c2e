// VC: units = StdIntegrators.cpp StandardMultipoles.cpp SWRFStructure.cpp SWRFfield.cpp RectMultipole.cpp TransportMatrix.cpp MatrixMaps.cpp SectorBend.cpp PSvector.cpp MultipoleField.cpp Solenoid.cpp Drift.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp ParticleBunch.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp Monitor.cpp TWRFStructure.cpp RFStructure.cpp TWRFfield.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
// Contracts of the steps of the symplectic integrators; the element maps themselves are decided in symplectic.cpp.
#include "step.h"
#include "SymplecticIntegrators.cpp"
#include "SWRFStructure.h"
using namespace ParticleTracking::SYMPLECTIC;

template<class M> static void on(PSvector& w, const M& m) { m(w); }
static void roll(PSvector& v, double a)
{
	double c = std::cos(a), s = std::sin(a), x = v.x(), px = v.xp();
	v.x() = c * x - s * v.y(); v.y() = s * x + c * v.y();
	v.xp() = c * px - s * v.yp(); v.yp() = s * px + c * v.yp();
}
static double brho(double P0) { return P0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight; }
static void quad(PSvector& v, double l, double K)
{
	RdpMtrx M(2);
	TransportMatrix::QuadrupoleR(l, K, M.R); TransportMatrix::QuadrupoleT(l, K, M.T);
	M.Apply(v);
}

VC_ENTRY(drift)
{
	double ds = vc_nonneg("ds");
	Particles p(vc_pos("P0"), 1.0);
	Drift d("d", ds);
	DriftCI ci; setup(ci, d, p);
	p.forward();
	ci.TrackStep(ds);
	PSvector w = p.p;
	DriftMap m(ds); m(w);
	p.result("drift", w);
}
VC_ENTRY(multipole)      // exact drift, kick in the middle, exact drift
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B0, 0, 1e-9);
	int t = vc_int("terms", 1, 3);
	Complex c[3] = {Complex(vc_real("b0"), vc_real("a0")), Complex(0, 0), Complex(vc_real("b2"), vc_real("a2"))};
	vc_assume(c[0].real() != 0);
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	DriftMap half(ds / 2);
	half(w);
	kick(w, c, 0, t, B0, ds, q, p.p0, false);
	half(w);
	p.result("drift-kick-drift", w);
}
VC_ENTRY(thin_multipole) // zero length magnets carry the integrated field
{
	double B0 = vc_real("B0"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B0, 0, 1e-9);
	int t = vc_int("terms", 1, 3);
	Complex c[3] = {Complex(vc_real("b0"), vc_real("a0")), Complex(vc_real("b1"), vc_real("a1")), Complex(vc_real("b2"), vc_real("a2"))};
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(0.0, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(0.0);
	PSvector w = p.p;
	kick(w, c, 0, t, B0, 1.0, q, p.p0, false);
	p.result("thin kick", w);
}
VC_ENTRY(quadrupole)
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B0, 0, 1e-9);
	int t = vc_int("terms", 2, 3);
	bool bend = vc_bool("bend");
	Complex c[3] = {Complex(bend ? vc_real("b0") : 0, 0), Complex(vc_real("b1"), 0), Complex(vc_real("b2"), vc_real("a2"))};
	vc_assume(c[1].real() != 0);
	if(bend) vc_assume(c[0].real() != 0);
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	double K = q * B0 * c[1].real() / brho(p.p0);
	if(!bend && t == 2) quad(w, ds, K);
	else {
		quad(w, ds / 2, K);
		Complex d[3] = {c[0], Complex(0, 0), c[2]};
		kick(w, d, 0, t, B0, ds, q, p.p0, false);
		quad(w, ds / 2, K);
	}
	p.result("quadrupole", w);
	for(int k = 0; k < t; k++) { vc_eq("field unchanged", m->GetField().expansion[k].real(), c[k].real()); vc_eq("field unchanged", m->GetField().expansion[k].imag(), c[k].imag()); }
}
VC_ENTRY(skew_quadrupole)
{
	double ds = vc_pos("ds"), B0 = vc_pos("B0"), q = 1.0, a = vc_in("a", -1.5, 1.5), k = vc_pos("k");
	vc_assume_far(B0, 0, 1e-9); vc_assume(std::sin(2 * a) != 0);
	int t = vc_int("terms", 2, 3);
	Complex c[3] = {Complex(0, 0), Complex(k * std::cos(2 * a), k * std::sin(2 * a)), Complex(vc_real("b2"), vc_real("a2"))};
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	double K = q * B0 * k / brho(p.p0);
	if(t == 2) { roll(w, a); quad(w, ds, K); roll(w, -a); }
	else {
		roll(w, a); quad(w, ds / 2, K); roll(w, -a);
		Complex d[3] = {c[0], Complex(0, 0), c[2]};
		kick(w, d, 0, t, B0, ds, q, p.p0, false);
		roll(w, a); quad(w, ds / 2, K); roll(w, -a);
	}
	p.result("skew quadrupole", w);
}
// the map of a bend slice: exact for a pure bend (ef) or expanded (not ef), combined function with a gradient
static void slice(PSvector& w, bool ef, double h, double K, double l, bool grad)
{
	if(grad) { if(h == 0) on(w, QuadrupoleMap(K, l)); else on(w, CombinedFunctionSectorBendMap(h, K, l)); }
	else if(h == 0) on(w, DriftMap(l));
	else if(ef) on(w, SectorBendMapEF(h, l));
	else on(w, SectorBendMap(h, l));
}
template<class CI> static void bend(bool ef, bool curved, bool grad, int kind, bool tilted)
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), h = curved ? vc_real("h") : 0.0;
	vc_assume_far(B0, 0, 1e-9); if(curved) vc_assume(h != 0);
	int t = kind == 3 ? 3 : grad || kind == 2 ? 2 : 1;
	double tilt = tilted ? vc_in("tilt", -3, 3) : 0.0;
	if(tilted) vc_assume(tilt != 0);
	double q = tilted ? -1.0 : 1.0;
	Complex c[3] = {Complex(vc_real("b0"), kind == 1 ? vc_real("a0") : 0), Complex(grad ? vc_real("b1") : 0.0, kind == 2 ? vc_real("a1") : 0), Complex(vc_real("b2"), vc_real("a2"))};
	if(grad) vc_assume(c[1].real() != 0);
	if(kind == 1) vc_assume(c[0].imag() != 0);
	if(kind == 2) vc_assume(c[1].imag() != 0);
	Particles p(vc_pos("P0"), q);
	SectorBend* m = new SectorBend("m", ds, h, 1.0);
	MultipoleField& f = m->GetField();
	f.expansion.clear(); f.expansion.resize(t, Complex(0, 0));
	for(int k = 0; k < t; k++) f.expansion[k] = c[k];
	f.B0 = B0;
	m->GetGeometry().SetTilt(tilt);
	if(curved) vc_assume(B0 * c[0].real() / h / q > 0);
	p.forward();
	CI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	double K = grad ? q * B0 * c[1].real() / brho(p.p0) : 0.0;
	roll(w, tilt);
	if(kind == 0) slice(w, ef, h, K, ds, grad);
	else {
		slice(w, ef, h, K, ds / 2, grad);
		Complex d[3] = {Complex(0, c[0].imag()), Complex(0, c[1].imag()), c[2]};
		kick(w, d, 0, t, B0, ds, q, p.p0, false);
		slice(w, ef, h, K, ds / 2, grad);
	}
	roll(w, -tilt);
	p.result("bend", w);
	for(int k = 0; k < t; k++) { vc_eq("field unchanged", f.expansion[k].real(), c[k].real()); vc_eq("field unchanged", f.expansion[k].imag(), c[k].imag()); }
}
VC_ENTRY(sector_bend) { int kind = vc_int("kind", 0, 3); bend<SectorBendCI>(false, true, vc_bool("gradient"), kind, kind == 0); }
VC_ENTRY(exact_sector_bend) { int kind = vc_int("kind", 0, 3); bend<SectorBendCI_ef>(true, true, vc_bool("gradient"), kind, kind == 0); }
VC_ENTRY(pole_faces)
{
	double h = vc_real("h");
	bool in = vc_bool("in"), out = vc_bool("out"), way = vc_bool("entrance"), ef = vc_bool("exact");
	Particles p(vc_pos("P0"), 1.0);
	SectorBend* m = new SectorBend("m", 1.0, h, 1.0);
	SectorBend::PoleFace* a = new SectorBend::PoleFace(vc_in("rot1", -1.5, 1.5), vc_real("fint1"), vc_real("hgap1"));
	SectorBend::PoleFace* b = new SectorBend::PoleFace(vc_in("rot2", -1.5, 1.5), vc_real("fint2"), vc_real("hgap2"));
	m->SetPoleFaceInfo(in ? a : nullptr, out ? b : nullptr);
	SectorBendCI c1; setup(c1, *m, p);
	SectorBendCI_ef c2; setup(c2, *m, p);
	if(ef) { if(way) c2.TrackEntrance(); else c2.TrackExit(); }
	else { if(way) c1.TrackEntrance(); else c1.TrackExit(); }
	PSvector w = p.p;
	const SectorBend::PoleFace* f = way ? (in ? a : nullptr) : (out ? b : nullptr);
	if(f) on(w, PoleFaceRotation(h, *f));
	p.result("pole face", w);
}
VC_ENTRY(cavity)         // half the drift, momentum kick, half the drift; the reference momentum stays
{
	double ds = vc_pos("ds"), g = vc_real("g"), k = vc_pos("k"), phi = vc_in("phi", -3, 3), P0 = vc_pos("P0");
	bool act = vc_bool("on");
	if(act) vc_assume(g != 0);
	Particles p(P0, 1.0);
	TWRFStructure* m = new TWRFStructure("m", ds, 1.0, 1.0, 0);
	m->GetField().SetAmplitude(act ? g : 0); m->GetField().w = k * PhysicalConstants::SpeedOfLight; m->GetField().SetPhase(phi);
	TWRFStructureCI ci; setup(ci, *m, p);
	p.forward();
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	if(!act) on(w, DriftMap(ds));
	else {
		on(w, DriftMap(ds / 2));
		w.dp() += g * ds / P0 * std::cos(phi - k * w.ct());
		on(w, DriftMap(ds / 2));
	}
	p.result("cavity", w);
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), P0);
}
VC_ENTRY(standing_cavity)
{
	double g = vc_real("g"), f = vc_pos("f"), phi = vc_in("phi", -3, 3), P0 = vc_pos("P0");
	int cells = vc_int("cells", 1, 3);
	bool act = vc_bool("on");
	if(act) vc_assume(g != 0);
	double ds = cells * (PhysicalConstants::SpeedOfLight / f / 2);
	Particles p(P0, 1.0);
	SWRFStructure* m = new SWRFStructure("m", 1, 1.0, 1.0, 0);
	m->GetField().SetAmplitude(act ? g : 0); m->GetField().SetFrequency(f); m->GetField().SetPhase(phi);
	SWRFStructureCI ci; setup(ci, *m, p);
	p.forward();
	if(act) { vc_assume_far(std::cos(phi), 0, 1e-9); vc_assume(1 + g * ds / P0 * std::cos(phi) > 0); }
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	if(!act) on(w, DriftMap(ds));
	else on(w, RSRFStructureMap(g * ds / P0, 0, twoPi * f / PhysicalConstants::SpeedOfLight, phi, 0, ds));
	p.result("cavity", w);
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), act ? P0 + g * ds * std::cos(phi) : P0);
}
