// VC: units = SynchRadParticleProcess.cpp ElectronBunch.cpp ParticleBunch.cpp PSvector.cpp StandardMultipoles.cpp RectMultipole.cpp SectorBend.cpp MultipoleField.cpp EMField.cpp Drift.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
// Contract of synchrotron radiation: what each particle loses in a step, where it is lost, and what becomes of the reference.
#include "vc.h"
#include "SynchRadParticleProcess.h"
#include "ElectronBunch.h"
#include "StandardMultipoles.h"
#include "SectorBend.h"
#include "Drift.h"
#include "RandomNG.h"
#include "NumericalConstants.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
using namespace ParticleTracking;
using namespace PhysicalConstants;

static int photons[2], nphot, nen; static double average[2], critical[4], energies[4];
double RandomNG::poisson(double m) { average[nphot] = m; return photons[nphot++]; }
static double photon(double uc) { critical[nen] = uc; return energies[nen++]; }
double HBSpectrumGen(double uc) { return photon(uc); }
double AWSpectrumGen(double uc) { return photon(uc); }

static const double mass = ElectronMassMeV * PhysicalUnits::MeV;
// energy lost per metre, field squared and momentum squared: e^3 mu0 / (6 pi m^2) electron volts, for the momentum in units of m c
static double loss() { return ElectronCharge * ElectronCharge * ElectronCharge * FreeSpacePermeability * PhysicalUnits::eV / (6 * pi * ElectronMass * ElectronMass); }
struct Radiation
{
	double P0, length; long n, i;
	ElectronBunch b; PSvector p; Complex c[2]; double B0;
	SynchRadParticleProcess s; AcceleratorComponent* m; MultipoleField* f; bool symplectic;
	Radiation(bool bend, int terms, bool quanta, long least, bool many) : b(1.0, 1.0), B0(vc_real("B0")), s(1, quanta)
	{
		P0 = vc_pos("P0"); b.SetReferenceMomentum(P0);
		length = vc_nonneg("length");
		vc_assume_far(B0, 0, 1e-9);
		for(int k = 0; k < terms; k++) c[k] = k ? Complex(vc_real("b1"), vc_real("a1")) : Complex(vc_real("b0"), vc_real("a0"));
		if(bend) { SectorBend* e = new SectorBend("b", length, 0.1, 1.0); m = e; f = &e->GetField(); }
		else { Quadrupole* e = new Quadrupole("q", length, 1.0); m = e; f = &e->GetField(); s.IncludeQuadRadiation(true); }
		f->expansion.clear(); f->expansion.resize(terms, Complex(0, 0));
		for(int k = 0; k < terms; k++) f->expansion[k] = c[k];
		f->B0 = B0;
		if(many) {
			n = vc_len("n", least); i = vc_symint("i", 0, 1000000);
			vc_assume(i < n);
			vc_vector("p", b.pArray, n, 6); vc_intfield(b.pArray, 48);
		}
		else { n = 1; i = 0; PSvector q; q.id() = 7; for(int k = 0; k < 6; k++) q[k] = vc_idx("p", k); b.pArray.push_back(q); }
		p = b.pArray[i];
		symplectic = vc_bool("canonical slopes");
		SynchRadParticleProcess::UseSymplecticVariables(symplectic);
		if(symplectic) vc_assume((1 + p.dp() > 0) & ((1 + p.dp()) * (1 + p.dp()) - p.xp() * p.xp() - p.yp() * p.yp() > 0));
		nphot = nen = 0;
		s.InitialiseProcess(b);
	}
	double field() { Complex F = B0 * c[0]; if(f->expansion.size() > 1) F += B0 * c[1] * Complex(p.x(), p.y()); return std::sqrt(F.real() * F.real() + F.imag() * F.imag()); }
	void lost(double u, double P1)       // momentum of the particle, its direction, and the others
	{
		const PSvector& r = b.pArray[i];
		vc_assert("no particle lost", ((long) b.size() == n) & (r.id() == p.id()));
		vc_assert("place and time kept", (r.x() == p.x()) & (r.y() == p.y()) & (r.ct() == p.ct()));
		vc_eq("momentum", P1 * (1 + r.dp()), P0 * (1 + p.dp()) - u);
		if(symplectic) {
			double d = p.dp() - u / P0;     // transverse momentum in proportion: direction kept
			vc_eq("direction", r.xp() * (1 + p.dp()), p.xp() * (1 + d)); vc_eq("direction", r.yp() * (1 + p.dp()), p.yp() * (1 + d));
		}
		else { vc_eq("slope", r.xp() * (1 + u / P0), p.xp()); vc_eq("slope", r.yp() * (1 + u / P0), p.yp()); }
		vc_reach("post");
	}
};
VC_ENTRY(mean_loss)          // each particle loses what its momentum and the field at its place radiate
{
	bool bend = vc_bool("bend");
	Radiation a(bend, vc_int("terms", 1, 2), false, 0, true);
	a.s.AdjustBunchReferenceEnergy(false);
	a.s.SetCurrentComponent(*a.m);
	vc_assert("active", a.s.IsActive());
	vc_eq("one step", a.s.GetMaxAllowedStepSize(), a.length);
	a.s.DoProcess(a.length);
	vc_assert("done", !a.s.IsActive());
	double B = a.field(), g = a.P0 * (1 + a.p.dp()) / mass;
	vc_eq("reference kept", a.b.GetReferenceMomentum(), a.P0);
	a.lost(loss() * B * B * g * g * a.length, a.P0);
}
VC_ENTRY(reference)          // follows the mean loss
{
	Radiation a(true, 1, false, 1, true);
	double U = 0, B = a.field(), k = loss() * B * B * a.length / (mass * mass) * a.P0 * a.P0;
	for(long j = 0; j < a.n; j++) { double d = 1 + a.b.pArray[j].dp(); U += k * d * d; }
	U /= a.n;
	vc_assume_far(a.P0 - U, 0, 1e-9);
	a.s.SetCurrentComponent(*a.m);
	a.s.DoProcess(a.length);
	vc_eq("reference", a.b.GetReferenceMomentum(), a.P0 - U);
	double g = a.P0 * (1 + a.p.dp()) / mass;
	a.lost(loss() * B * B * g * g * a.length, a.b.GetReferenceMomentum());
}
VC_ENTRY(nobody)             // nothing to lose
{
	ElectronBunch b(1.0, 1.0);
	double P0 = vc_pos("P0"); b.SetReferenceMomentum(P0);
	SectorBend m("b", 1.0, 0.1, 1.0);
	SynchRadParticleProcess s(1);
	s.InitialiseProcess(b);
	s.SetCurrentComponent(m);
	s.DoProcess(1.0);
	vc_eq("reference kept", b.GetReferenceMomentum(), P0);
	vc_reach("post");
}
VC_ENTRY(photons)            // as many as the mean number, each of the critical energy of the field
{
	int k = photons[0] = vc_int("photons", 0, 2);
	for(int j = 0; j < 2; j++) energies[j] = vc_idx("photon", j, 0, 1);
	Radiation a(true, 2, true, 1, false);
	a.s.AdjustBunchReferenceEnergy(vc_bool("reference follows"));
	double u = 0;
	for(int j = 0; j < k; j++) u += energies[j];
	vc_assume_far(a.P0 - u, 0, 1e-9);
	a.s.SetCurrentComponent(*a.m);
	a.s.DoProcess(a.length);
	double B = a.field(), g = a.P0 * (1 + a.p.dp()) / mass, uc = 1.5 * PlanckConstant / (2 * pi) / ElectronMass * PhysicalUnits::eV * B * g * g;
	vc_assert("once per step", (nphot == 1) & (nen == k));
	vc_eq("mean number times mean energy is the mean loss", average[0] * 8 * uc, 15 * std::sqrt(3.0) * loss() * B * B * g * g * a.length);
	for(int j = 0; j < k; j++) vc_eq("critical energy", critical[j], uc);
	a.lost(u, a.b.GetReferenceMomentum());
}
static double total; static int steps;
VC_ENTRY(steps_cover)        // the steps of the process cover the element once, however others divide them
{
	double L = vc_in("L", 0.1, 10), b0 = vc_pos("b0");
	vc_assume(L > 0.05);
	vc_assume_far(b0, 0, 1e-9);
	int ns = vc_int("steps", 1, 3); bool longest = vc_bool("by longest step"), cut = vc_bool("cut");
	ElectronBunch b(1.0, 1.0);
	b.push_back(PSvector(0));
	SectorBend m("b", L, 0.1, b0);
	SynchRadParticleProcess s(1);
	s.AdjustBunchReferenceEnergy(false);
	SynchRadParticleProcess::UseSymplecticVariables(false);
	if(longest) { s.SetNumComponentSteps(7); double f = vc_in("fraction", 0.05, 0.95); vc_assume((f > 0.01) & (f < 0.99)); s.SetMaxComponentStepSize(L / (ns - 1 + f)); }
	else { s.SetMaxComponentStepSize(0.01); s.SetNumComponentSteps(ns); }
	s.InitialiseProcess(b);
	SectorBend before("a", 0.75, 0.1, 0.0);
	s.SetCurrentComponent(before);
	for(int j = vc_int("before", 0, 3); j > 0 && s.IsActive(); j--) s.DoProcess(s.GetMaxAllowedStepSize());
	s.SetCurrentComponent(m);
	double at = 0;
	double part = vc_in("part", 0.1, 0.9); vc_assume((part > 0.01) & (part < 0.99));
	for(int j = 0; j < ns; j++) {
		double dp = vc_idx("dp", j, -0.5, 0.5); b.FirstParticle().dp() = dp;
		vc_assert("active", s.IsActive());
		double ds = s.GetMaxAllowedStepSize();
		vc_eq("equal steps", ds, L / ns);
		if(cut & (j == 0)) {
			s.DoProcess(part * ds);
			vc_eq("not before the end of the step", b.FirstParticle().dp(), dp);
			vc_eq("what remains", s.GetMaxAllowedStepSize(), ds - part * ds);
			s.DoProcess(ds - part * ds);
		}
		else s.DoProcess(ds);
		at += ds;
		vc_eq("loss of the step", b.FirstParticle().dp(), dp - loss() * b0 * b0 / (mass * mass) * (1 + dp) * (1 + dp) * (L / ns));
	}
	vc_eq("whole element", at, L);
	vc_reach("post");
}
VC_ENTRY(where)              // in bends, in other magnets if asked, nowhere else
{
	int quads = vc_int("magnets too", 0, 1);
	ElectronBunch b(1.0, 1.0);
	b.push_back(PSvector(0));
	SynchRadParticleProcess s(1);
	s.IncludeQuadRadiation(quads == 1);
	s.InitialiseProcess(b);
	SectorBend m("b", 1.0, 0.1, 1.0); Quadrupole q("q", 1.0, 1.0); Drift d("d", 1.0);
	int order = vc_int("order", 0, 2);
	for(int k = 0; k < 3; k++) {
		int w = (k + order) % 3;
		s.SetCurrentComponent(w == 0 ? (AcceleratorComponent&) m : w == 1 ? (AcceleratorComponent&) q : (AcceleratorComponent&) d);
		vc_assert("where", s.IsActive() == (w == 0 || (w == 1 && quads == 1)));
	}
	vc_reach("post");
}
