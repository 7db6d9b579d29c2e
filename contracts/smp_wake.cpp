// VC: units = SMPWakeFieldProcess.cpp SMPBunch.cpp SliceMacroParticle.cpp SMPTransform3D.cpp Drift.cpp SectorBend.cpp StandardMultipoles.cpp RectMultipole.cpp MultipoleField.cpp EMField.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp PSvector.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp Transform3D.cpp Rot3Drep.cpp AxisRotations.cpp GeneralRotation.cpp IdentityRotation.cpp
// VC: nodiv = 1
// Contract of wake fields on slice macro-particles: slices, wake of each on those behind, kick.
#include "vc.h"
#include "SMPWakeFieldProcess.h"
#include "WakePotentials.h"
#include "SMPBunch.h"
#include "Drift.h"
#include "SectorBend.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
using namespace SMPTracking;

struct Potential: WakePotentials
{
	double Wlong(double z) const { return vc_fun("long", {z}); }
	double Wtrans(double z) const { return vc_fun("trans", {z}); }
};
static double energy(double a) { return a * (PhysicalConstants::ElectronCharge * PhysicalUnits::Volt); }
static double positive(const char* id, int k) { double v = vc_idx(id, k, 0.1, 2); vc_assume(v > 0.01); return v; }
struct Slices
{
	int n; SMPBunch& b; double q[3], P0; WakeFieldProcess* w; Potential* potential;
	Slices(int size, double width): n(size), b(*new SMPBunch(1.0, 1.0)), P0(vc_pos("P0")), w(new WakeFieldProcess(1, width)), potential(new Potential)
	{
		b.SetReferenceMomentum(P0);
		double t = vc_real("ct");
		for(int i = 0; i < n; i++) {
			SliceMacroParticle m(q[i] = positive("q", i));
			for(int k = 0; k < 6; k++) if(k != ps_CT) m[k] = vc_idx("m", 6 * i + k);
			for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) m.sig(k, l) = vc_idx("s", 16 * i + 4 * k + l);
			if(i) { double d = vc_idx("later", i, 0, 2); vc_assume(d >= 0); t += d; }
			m.ct() = t;
			b.AddParticle(m, true);
		}
		w->InitialiseProcess(b);
		w->currentWake = potential;
	}
	const SliceMacroParticle& m(int i) { return b.Get(i); }
};
VC_ENTRY(macro_slices)          // no longer than asked, each particle and its charge in one
{
	double width = vc_in("width", 0.1, 2); vc_assume(width > 0.01);
	Slices a(vc_int("particles", 1, 3), width);
	a.w->PrepSlices();
	int ns = a.w->slice_z.size();
	vc_assert("boundaries", (int) a.w->sliceBoundaries.size() == ns + 1);
	vc_assert("charges", (int) a.w->slice_q.size() == ns);
	vc_assert("whole bunch", (a.w->sliceBoundaries[0] == a.b.begin()) & (a.w->sliceBoundaries[ns] == a.b.end()));
	for(int k = 0; k < ns; k++) {
		double Q = 0, Z = 0, first = a.w->sliceBoundaries[k]->ct();
		for(SMPBunch::iterator p = a.w->sliceBoundaries[k]; p != a.w->sliceBoundaries[k + 1]; p++) {
			Q += p->Q(); Z += p->Q() * p->ct();
			vc_assert("not longer", p->ct() < first + width);
		}
		vc_assert("not empty", Q > 0);
		vc_assert("not shorter", k == 0 || first >= a.w->sliceBoundaries[k - 1]->ct() + width);
		vc_eq("charge", a.w->slice_q[k], Q);
		vc_eq("centre", a.w->slice_z[k] * Q, Z);
	}
	vc_reach("post");
}
VC_ENTRY(macro_longitudinal)    // half of its own wake and that of those ahead; load, their mean by charge
{
	Slices a(1, 1.0);
	int ns = vc_int("slices", 1, 3);
	double q[3], z[3], s[3], U = 0, Q = 0;
	for(int k = 0; k < ns; k++) { a.w->slice_q.push_back(q[k] = positive("Q", k)); a.w->slice_z.push_back(z[k] = vc_idx("Z", k)); }
	a.w->PrepLWake();
	vc_assert("one for each slice", (int) a.w->wake_z.size() == ns);
	for(int i = 0; i < ns; i++) {
		s[i] = energy(q[i] * vc_fun("long", {0.0})) / 2;
		for(int j = i + 1; j < ns; j++) s[i] += energy(q[j] * vc_fun("long", {z[j] - z[i]}));
		vc_eq("wake", a.w->wake_z[i], s[i]);
		U += q[i] * s[i]; Q += q[i];
	}
	vc_eq("load", a.w->bload * Q, U);
	vc_reach("post");
}
VC_ENTRY(macro_kick)            // momentum changed by the wake of its slice and those ahead, shape with it
{
	Slices a(3, 1.0);
	int cut = vc_int("cut", 1, 2), ns = 2;
	double length = vc_nonneg("length"), z[2], q[2], x[2] = {0, 0}, y[2] = {0, 0};
	bool transverse = vc_bool("transverse");
	a.w->IncludeTransverseWake(transverse);
	a.w->recalc = false;
	a.w->bload = vc_real("load");
	SMPBunch::iterator at[3] = {a.b.begin(), a.b.begin() + cut, a.b.end()};
	for(int k = 0; k < 3; k++) a.w->sliceBoundaries.push_back(at[k]);
	for(int k = 0; k < ns; k++) {
		a.w->slice_z.push_back(z[k] = vc_idx("Z", k)); a.w->wake_z.push_back(vc_idx("W", k));
		q[k] = 0;
		for(SMPBunch::iterator p = at[k]; p != at[k + 1]; p++) { q[k] += p->Q(); x[k] += p->Q() * p->x(); y[k] += p->Q() * p->y(); }
		a.w->slice_q.push_back(q[k]);
	}
	SliceMacroParticle old[3] = {a.m(0), a.m(1), a.m(2)};
	double P1 = a.P0 - length * a.w->bload;
	vc_assume_far(P1, 0, 1e-9);
	for(int i = 0; i < 3; i++) vc_assume_far(a.P0 * (1 + old[i].dp()) - length * a.w->wake_z[i < cut ? 0 : 1], 0, 1e-9);
	a.w->ApplyWakefield(length);
	vc_eq("reference", a.b.GetReferenceMomentum(), P1);
	for(int i = 0; i < 3; i++) {
		int k = i < cut ? 0 : 1;
		const SliceMacroParticle& m = a.m(i); const SliceMacroParticle& o = old[i];
		double P = a.P0 * (1 + o.dp()), R = P - length * a.w->wake_z[k], g = 0;
		if(transverse && k == 0) g = length * energy(1) * vc_fun("trans", {z[1] - z[0]});
		vc_eq("momentum", P1 * (1 + m.dp()), R);
		vc_eq("horizontal", R * m.xp(), P * o.xp() + g * x[1]);
		vc_eq("vertical", R * m.yp(), P * o.yp() + g * y[1]);
		vc_assert("place, time and charge kept", (m.x() == o.x()) & (m.y() == o.y()) & (m.ct() == o.ct()) & (m.Q() == o.Q()));
		for(int u = 0; u < 4; u++) for(int v = 0; v <= u; v++) {
			double f = (u % 2 ? R : 1.0) * (v % 2 ? R : 1.0), h = (u % 2 ? P : 1.0) * (v % 2 ? P : 1.0);
			vc_eq("shape", f * m.sig(u, v), h * o.sig(u, v));
		}
	}
	vc_reach("post");
}
struct Once: WakeFieldProcess
{
	int applied; double length;
	Once(): WakeFieldProcess(1, 0.5), applied(0) {}
	void ApplyWakefield(double ds) { applied++; length = ds; }
};
VC_ENTRY(macro_where)           // once, at the exit or the centre, of components with a wake of this process
{
	bool centre = vc_bool("centre"); int kind = vc_int("kind", 0, 2);
	double L = vc_in("L", 0.5, 2), cut = vc_in("cut", 0.1, 0.9);
	vc_assume((L > 0.1) & (cut > 0.01) & (cut < 0.99));
	SMPBunch& b = *new SMPBunch(1.0, 1.0);
	SliceMacroParticle m(1.0); m.ct() = vc_real("ct"); b.AddParticle(m);
	WakeFieldProcess* w = new WakeFieldProcess(1, 0.5);
	if(centre) w->ApplyImpulseAt(WakeFieldProcess::atCentre);
	w->IncludeTransverseWake(false);
	w->InitialiseProcess(b);
	Drift* d = new Drift("d", L);
	Potential* potential = new Potential;
	if(kind != 0) d->SetWakePotentials(potential);
	if(kind == 2) potential->SetExpectedProcess(new Once);
	w->SetCurrentComponent(*d);
	vc_assert("active", w->IsActive() == (kind == 1));
	if(kind == 1) {
		double at = centre ? L / 2 : L, U = energy(vc_fun("long", {0.0})) / 2;
		vc_assume_far(1 - L * U, 0, 1e-9);
		vc_eq("step", w->GetMaxAllowedStepSize(), at);
		w->DoProcess(cut * at);
		vc_eq("not before", b.GetReferenceMomentum(), 1);
		vc_assert("not before", w->IsActive());
		vc_eq("step", w->GetMaxAllowedStepSize(), at - cut * at);
		w->DoProcess(at - cut * at);
		vc_eq("once, over the whole length", b.GetReferenceMomentum(), 1 - L * U);
		vc_assert("done", !w->IsActive());
	}
	vc_reach("post");
}
