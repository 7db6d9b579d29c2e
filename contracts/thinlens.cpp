// VC: units = StandardMultipoles.cpp RectMultipole.cpp TransportMatrix.cpp MatrixMaps.cpp SectorBend.cpp PSvector.cpp MultipoleField.cpp Solenoid.cpp Drift.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp ParticleBunch.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp Monitor.cpp TWRFStructure.cpp RFStructure.cpp TWRFfield.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
#include "step.h"
#include "StdIntegrators.cpp"
using namespace ParticleTracking::THIN_LENS;

VC_ENTRY(drift)
{
	double ds = vc_nonneg("ds");
	Particles p(vc_pos("P0"), 1.0);
	Drift d("d", ds);
	DriftCI ci; setup(ci, d, p);
	ci.TrackStep(ds);
	PSvector w = p.p;
	w.x() += ds * w.xp(); w.y() += ds * w.yp();
	p.result("drift", w);
}
VC_ENTRY(multipole)      // dipole, sextupole, octupole: kick in the middle of a drift
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B0, 0, 1e-9);
	int t = vc_int("terms", 1, 4);
	Complex c[4] = {Complex(vc_real("b0"), vc_real("a0")), Complex(0, 0), Complex(vc_real("b2"), vc_real("a2")), Complex(vc_real("b3"), vc_real("a3"))};
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	w.x() += ds / 2 * w.xp(); w.y() += ds / 2 * w.yp();
	kick(w, c, 0, t, B0, ds, q, p.p0, true);
	w.x() += ds / 2 * w.xp(); w.y() += ds / 2 * w.yp();
	p.result("drift-kick-drift", w);
}
static void roll(PSvector& v, double a)     // coordinates in axes turned so that z -> exp(ia) z
{
	double c = std::cos(a), s = std::sin(a), x = v.x(), px = v.xp();
	v.x() = c * x - s * v.y(); v.y() = s * x + c * v.y();
	v.xp() = c * px - s * v.yp(); v.yp() = s * px + c * v.yp();
}
static void quad(PSvector& v, double l, double K)
{
	RdpMtrx M(2);
	TransportMatrix::QuadrupoleR(l, K, M.R); TransportMatrix::QuadrupoleT(l, K, M.T);
	M.Apply(v);
}
static double brho(double P0) { return P0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight; }
VC_ENTRY(quadrupole)     // normal quadrupole of either sign and charge, further multipoles kicked at the centre
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B0, 0, 1e-9);
	int t = vc_int("terms", 2, 3);
	bool bend = vc_bool("bend");
	Complex c[3] = {Complex(bend ? vc_real("b0") : 0, 0), Complex(vc_real("b1"), 0), Complex(vc_real("b2"), vc_real("a2"))};
	vc_assume(c[1].real() != 0);
	if(bend) vc_assume(c[0].real() != 0);
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	double K = q * B0 * c[1].real() / brho(p.p0);
	if(!bend && t == 2) quad(w, ds, K);
	else {
		quad(w, ds / 2, K);
		Complex d[3] = {c[0], Complex(0, 0), c[2]};
		kick(w, d, 0, t, B0, ds, q, p.p0, true);
		quad(w, ds / 2, K);
	}
	p.result("quadrupole", w);
	for(int k = 0; k < t; k++) { vc_eq("field unchanged", m->GetField().expansion[k].real(), c[k].real()); vc_eq("field unchanged", m->GetField().expansion[k].imag(), c[k].imag()); }
}
VC_ENTRY(skew_quadrupole)   // quadrupole turned by any angle: By + i Bx = k exp(2ia) z
{
	double ds = vc_pos("ds"), B0 = vc_pos("B0"), q = 1.0, a = vc_in("a", -1.5, 1.5), k = vc_pos("k");
	vc_assume_far(B0, 0, 1e-9); vc_assume(std::sin(2 * a) != 0);
	int t = vc_int("terms", 2, 3);
	Complex c[3] = {Complex(0, 0), Complex(k * std::cos(2 * a), k * std::sin(2 * a)), Complex(vc_real("b2"), vc_real("a2"))};
	Particles p(vc_pos("P0"), q);
	RectMultipole* m = magnet(ds, t, c);
	m->GetField().B0 = B0;
	RectMultipoleCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	double K = q * B0 * k / brho(p.p0);
	if(t == 2) { roll(w, a); quad(w, ds, K); roll(w, -a); }
	else {
		roll(w, a); quad(w, ds / 2, K); roll(w, -a);
		Complex d[3] = {c[0], Complex(0, 0), c[2]};
		kick(w, d, 0, t, B0, ds, q, p.p0, true);
		roll(w, a); quad(w, ds / 2, K); roll(w, -a);
	}
	p.result("skew quadrupole", w);
}
static void mapR(RMtrx& M, PSvector& v, double p0) { M.Apply(v, p0); }
VC_ENTRY(sector_bend)    // roll by the tilt, bend of the matched momentum, remaining field kicked at the centre, roll back
{
	double ds = vc_pos("ds"), B0 = vc_real("B0"), h = vc_real("h");
	vc_assume_far(B0, 0, 1e-9); vc_assume_far(h, 0, 1e-9);
	int t = vc_int("terms", 1, 3), kind = t < 3 ? vc_int("kind", 0, t) : 0;
	bool tilted = vc_bool("tilted"), skewdip = kind == 1, skewquad = kind == 2;
	double q = tilted ? -1.0 : 1.0;
	double tilt = tilted ? vc_in("tilt", -3, 3) : 0.0;
	if(tilted) vc_assume(tilt != 0);
	Complex c[3] = {Complex(vc_real("b0"), skewdip ? vc_real("a0") : 0), Complex(vc_real("b1"), skewquad ? vc_real("a1") : 0), Complex(vc_real("b2"), vc_real("a2"))};
	if(skewdip) vc_assume(c[0].imag() != 0);
	if(skewquad) vc_assume(c[1].imag() != 0);
	Particles p(vc_pos("P0"), q);
	SectorBend* m = new SectorBend("m", ds, h, 1.0);
	MultipoleField& f = m->GetField();
	f.expansion.clear(); f.expansion.resize(t, Complex(0, 0));
	for(int k = 0; k < t; k++) f.expansion[k] = c[k];
	f.B0 = B0;
	m->GetGeometry().SetTilt(tilt);
	double Pref = PhysicalUnits::eV * PhysicalConstants::SpeedOfLight * B0 * c[0].real() / h / q;
	vc_assume(Pref > 0); vc_assume_far(Pref, 0, 1e-9);
	SectorBendCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	double K = t > 1 ? q * B0 * c[1].real() / brho(p.p0) : 0.0;
	bool split = skewdip || skewquad || t > 2;
	RMtrx M(3, Pref);
	TransportMatrix::SectorBend(split ? ds / 2 : ds, h, K, M.R);
	roll(w, tilt);
	mapR(M, w, p.p0);
	if(split) {
		Complex d[3] = {Complex(0, c[0].imag()), Complex(0, c[1].imag()), c[2]};
		kick(w, d, 0, t, B0, ds, q, p.p0, true);
		mapR(M, w, p.p0);
	}
	roll(w, -tilt);
	p.result("bend", w);
	for(int k = 0; k < t; k++) { vc_eq("field unchanged", f.expansion[k].real(), c[k].real()); vc_eq("field unchanged", f.expansion[k].imag(), c[k].imag()); }
}
VC_ENTRY(pole_faces)     // the entrance face acts on the way in, the exit face on the way out, a missing face not at all
{
	double h = vc_real("h");
	bool in = vc_bool("in"), out = vc_bool("out"), way = vc_bool("entrance");
	Particles p(vc_pos("P0"), 1.0);
	SectorBend* m = new SectorBend("m", 1.0, h, 1.0);
	SectorBend::PoleFace* a = new SectorBend::PoleFace(vc_in("rot1", -1.5, 1.5), vc_real("fint1"), vc_real("hgap1"));
	SectorBend::PoleFace* b = new SectorBend::PoleFace(vc_in("rot2", -1.5, 1.5), vc_real("fint2"), vc_real("hgap2"));
	m->SetPoleFaceInfo(in ? a : nullptr, out ? b : nullptr);
	SectorBendCI ci; setup(ci, *m, p);
	vc_reach("pre");
	if(way) ci.TrackEntrance(); else ci.TrackExit();
	PSvector w = p.p;
	const SectorBend::PoleFace* f = way ? (in ? a : nullptr) : (out ? b : nullptr);
	if(f) {
		RMtrx M(2);
		TransportMatrix::PoleFaceRot(h, f->rot, f->fint, f->hgap, M.R);
		M.Apply(w);
	}
	p.result("pole face", w);
}
VC_ENTRY(solenoid)       // momentum dependent focusing
{
	double ds = vc_pos("ds"), B = vc_real("B"), q = vc_bool("negative") ? -1.0 : 1.0;
	vc_assume_far(B, 0, 1e-9);
	Particles p(vc_pos("P0"), q);
	Solenoid* m = new Solenoid("m", ds, B);
	ParticleTracking::SolenoidCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	RMtrx M(2);
	double K = q * B / brho(p.p0) / (1 + w.dp());
	vc_assume_far(K, 0, 1e-9);
	TransportMatrix::Solenoid(ds, K, 0, true, true, M.R);
	M.Apply(w);
	p.result("solenoid", w);
}
VC_ENTRY(solenoid_off)
{
	double ds = vc_pos("ds");
	Particles p(vc_pos("P0"), 1);
	Solenoid* m = new Solenoid("m", ds, 0.0);
	ParticleTracking::SolenoidCI ci; setup(ci, *m, p);
	ci.TrackStep(ds);
	PSvector w = p.p;
	w.x() += ds * w.xp(); w.y() += ds * w.yp();
	p.result("drift", w);
}
VC_ENTRY(cavity)         // linear cavity matrix, then the exact momentum gain; reference momentum follows
{
	double ds = vc_pos("ds"), g = vc_real("g"), k = vc_pos("k"), phi = vc_in("phi", -3, 3), P0 = vc_pos("P0");
	vc_assume_far(g, 0, 1e-9);
	Particles p(P0, 1.0);
	TWRFStructure* m = new TWRFStructure("m", ds, 1.0, 1.0, 0);
	m->GetField().SetAmplitude(g); m->GetField().w = k * PhysicalConstants::SpeedOfLight; m->GetField().SetPhase(phi);
	double Vn = g * ds / P0;
	vc_assume(1 + Vn * std::cos(phi) > 0); vc_assume_far(std::cos(phi), 0, 1e-9);
	TWRFStructureCI ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(ds);
	PSvector w = p.p;
	RMtrx M(2);
	TransportMatrix::TWRFCavity(ds, g, m->GetField().GetFrequency(), phi, P0, true, M.R);
	M.Apply(w);
	w.dp() = (w.dp() + Vn * (std::cos(phi - k * w.ct()) - std::cos(phi))) / (1 + Vn * std::cos(phi));
	p.result("cavity", w);
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), P0 + g * ds * std::cos(phi));
}
static int measured;
static double atx, aty;
struct Probe: Monitor
{
	Particles* p;
	Probe(double len, double m, Particles* q) : Monitor("m", len, m), p(q) {}
	void MakeMeasurement(const Bunch& b) { measured++; atx = p->b.pArray[p->i].x(); aty = p->b.pArray[p->i].y(); }
};
VC_ENTRY(monitor)        // a drift in three steps of any length; one measurement, taken at the measurement point
{
	double len = vc_pos("len"), m = vc_real("mpt"), s1 = vc_pos("s1"), s2 = vc_pos("s2");
	vc_assume(-len / 2 <= m); vc_assume(m < len / 2); vc_assume(s1 + s2 < len);
	Particles p(vc_pos("P0"), 1.0);
	Probe mon(len, m, &p);
	ParticleTracking::MonitorCI ci; setup(ci, mon, p);
	measured = 0;
	ci.TrackStep(s1); ci.cur_S += s1;
	ci.TrackStep(s2); ci.cur_S += s2;
	ci.TrackStep(len - s1 - s2);
	vc_assert("one measurement", measured == 1);
	PSvector w = p.p;
	vc_eq("measured at its point", atx, w.x() + (len / 2 + m) * w.xp());
	vc_eq("measured at its point", aty, w.y() + (len / 2 + m) * w.yp());
	w.x() += len * w.xp(); w.y() += len * w.yp();
	p.result("drift", w);
}
VC_ENTRY(monitor_thin)
{
	Particles p(vc_pos("P0"), 1.0);
	Probe mon(0, vc_real("mpt"), &p);
	ParticleTracking::MonitorCI ci; setup(ci, mon, p);
	measured = 0;
	ci.TrackStep(0);
	vc_assert("one measurement", measured == 1);
	p.result("unchanged", p.p);
}
