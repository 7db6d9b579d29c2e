// VC: units = TWRFStructure.cpp SWRFStructure.cpp RFStructure.cpp TransverseRFStructure.cpp TWRFfield.cpp SWRFfield.cpp TransRFfield.cpp TransportMatrix.cpp MatrixMaps.cpp PSvector.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ParticleBunch.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp StandardMultipoles.cpp RectMultipole.cpp MultipoleField.cpp SectorBend.cpp Solenoid.cpp Drift.cpp ArcGeometry.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
// Contracts of the thin lens steps through cavities.
#include "step.h"
#include "TransverseRFStructure.h"
#include "SWRFStructure.h"
#include "LCAVintegrator.cpp"
#include "TransRFIntegrator.cpp"
using namespace ParticleTracking;

template<class F> static void field(F& f, double g, double k, double phi) { f.SetAmplitude(g); f.w = k * PhysicalConstants::SpeedOfLight; f.SetPhase(phi); }
struct Cavity
{
	double ds, g, k, phi, P0;
	Cavity() : ds(vc_pos("ds")), g(vc_real("g")), k(vc_pos("k")), phi(vc_in("phi", -3, 3)), P0(vc_pos("P0")) { vc_assume(g != 0); }
};

VC_ENTRY(linac)          // energy gain g ds cos(phi - k ct), adiabatic damping of the slopes, reference momentum follows
{
	Cavity c;
	Particles p(c.P0, 1.0);
	TWRFStructure* m = new TWRFStructure("m", c.ds, 1.0, 1.0, 0);
	field(m->GetField(), c.g, c.k, c.phi);
	LCAVIntegrator ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(c.ds);
	PSvector w = p.p;
	double dE = c.g * c.ds * std::cos(c.phi - c.k * w.ct()), E = c.P0 * (1 + w.dp()), P1 = c.P0 + c.g * c.ds * std::cos(c.phi);
	vc_assume(E + dE > 0); vc_assume(P1 > 0);
	w.x() += c.ds * (1 - dE / E / 2) * w.xp(); w.y() += c.ds * (1 - dE / E / 2) * w.yp();
	w.xp() *= E / (E + dE); w.yp() *= E / (E + dE);
	w.dp() = (E + dE) / P1 - 1;
	p.result("linac", w);
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), P1);
}
VC_ENTRY(linac_ends)     // focusing of the entrance field, defocusing of the exit field
{
	Cavity c;
	bool way = vc_bool("entrance");
	Particles p(c.P0, 1.0);
	TWRFStructure* m = new TWRFStructure("m", c.ds, 1.0, 1.0, 0);
	field(m->GetField(), c.g, c.k, c.phi);
	LCAVIntegrator ci; setup(ci, *m, p);
	vc_reach("pre");
	if(way) ci.TrackEntrance(); else ci.TrackExit();
	PSvector w = p.p;
	double a = (way ? -1.0 : 1.0) * c.g * std::cos(c.phi - c.k * w.ct()) / (2 * c.P0 * (1 + w.dp()));
	w.xp() += a * w.x(); w.yp() += a * w.y();
	p.result("end field", w);
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), c.P0);
}
VC_ENTRY(linac_off)
{
	double ds = vc_pos("ds"), P0 = vc_pos("P0");
	int way = vc_int("way", 0, 2);
	Particles p(P0, 1.0);
	TWRFStructure* m = new TWRFStructure("m", ds, 1.0, 1.0, 0);
	field(m->GetField(), 0, vc_pos("k"), vc_real("phi"));
	LCAVIntegrator ci; setup(ci, *m, p);
	if(way == 0) ci.TrackStep(ds); else if(way == 1) ci.TrackEntrance(); else ci.TrackExit();
	PSvector w = p.p;
	if(way == 0) { w.x() += ds * w.xp(); w.y() += ds * w.yp(); }
	p.result("cavity off", w);
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), P0);
}
VC_ENTRY(linac_fixed_reference)   // without full acceleration the particles gain energy but the reference stays
{
	Cavity c;
	Particles p(c.P0, 1.0);
	TWRFStructure* m = new TWRFStructure("m", c.ds, 1.0, 1.0, 0);
	field(m->GetField(), c.g, c.k, c.phi);
	m->GetField().SetFullAcceleration(false);
	LCAVIntegrator ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(c.ds);
	PSvector w = p.p;
	w.x() += c.ds * w.xp(); w.y() += c.ds * w.yp();
	w.dp() += c.g * c.ds / c.P0 * std::cos(c.phi - c.k * w.ct());
	p.result("cavity", w);
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), c.P0);
}
VC_ENTRY(transverse)     // uniform transverse force along the field orientation
{
	Cavity c;
	double th = vc_in("theta", -3, 3);
	Particles p(c.P0, 1.0);
	TransverseRFStructure* m = new TransverseRFStructure("m", c.ds, 1.0, 1.0, 0, th);
	field(m->GetField(), c.g, c.k, c.phi);
	TransRFIntegrator ci; setup(ci, *m, p);
	vc_reach("pre");
	ci.TrackStep(c.ds);
	PSvector w = p.p;
	double a = c.g * c.ds / c.P0 * std::cos(c.phi - c.k * w.ct()) / (1 + w.dp());
	w.x() += c.ds * (w.xp() + a * std::cos(th) / 2); w.y() += c.ds * (w.yp() + a * std::sin(th) / 2);
	w.xp() += a * std::cos(th); w.yp() += a * std::sin(th);
	p.result("crab cavity", w);
	vc_eq("reference momentum", p.b.GetReferenceMomentum(), c.P0);
}
