// VC: units = WakeFieldProcess.cpp ParticleBunchUtilities.cpp ParticleBunch.cpp PSvector.cpp Drift.cpp SectorBend.cpp StandardMultipoles.cpp RectMultipole.cpp MultipoleField.cpp EMField.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp MerlinIO.cpp
// VC: nodiv = 1
// Contract of single bunch wake fields: slices of the bunch, wake at their boundaries, kick between them.
#include "vc.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "ParticleBunch.h"
#include "ParticleBunchUtilities.h"
#include "Drift.h"
#include "SectorBend.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
using namespace ParticleTracking;

struct Potential: WakePotentials
{
	Potential(bool c = false) { csr = c; }
	double Wlong(double z) const { return vc_fun("long", {z}); }
	double Wtrans(double z) const { return vc_fun("trans", {z}); }
};
static double energy(double a) { return a * PhysicalConstants::ElectronCharge * PhysicalUnits::Volt; }

struct Kick: WakeFieldProcess      // with any transverse wake
{
	int transverse; double wx[4], wy[4];
	Kick(size_t nb): WakeFieldProcess(1, nb, 3.0), transverse(0) { for(size_t k = 0; k <= nb; k++) { wx[k] = vc_idx("wx", k); wy[k] = vc_idx("wy", k); } }
	void CalculateWakeT() { transverse++; wake_x.assign(wx, wx + nbins + 1); wake_y.assign(wy, wy + nbins + 1); }
};
VC_ENTRY(kick)             // wake at the place of the particle, linear between the boundaries of its slice
{
	const int nb = 3;
	double P0 = vc_pos("P0"), length = vc_nonneg("length"), wz[nb + 1];
	ParticleBunch& b = *new ParticleBunch(P0, 1.0);
	b.SetReferenceMomentum(P0);
	long n = vc_len("n", 1), i = vc_symint("i", 0, 1000000);
	vc_assume(i < n);
	vc_vector("p", b.pArray, n, 6); vc_intfield(b.pArray, 48);
	PSvector p = b.pArray[i];
	Potential* potential = new Potential(vc_bool("csr"));
	Kick* w = new Kick(nb);
	w->InitialiseProcess(b);
	w->currentWake = potential;
	bool transverse = vc_bool("transverse");
	w->IncludeTransverseWake(transverse);
	w->recalc = false; w->oldBunchLen = n;
	w->zmin = vc_real("zmin"); w->dz = vc_in("dz", 0.1, 2); vc_assume(w->dz > 0.01);
	int slice = vc_int("slice", 0, nb - 1);
	for(int k = 0; k <= nb; k++) { w->bunchSlices.push_back(k <= slice ? b.begin() : b.end()); w->wake_z.push_back(wz[k] = vc_idx("wz", k)); }
	double k = length / P0, f, u, U = 0;
	for(long j = 0; j < n; j++) U += -k * (wz[slice] + (b.pArray[j].ct() - (w->zmin + slice * w->dz)) / w->dz * (wz[slice + 1] - wz[slice]));
	U /= n;
	f = (p.ct() - (w->zmin + slice * w->dz)) / w->dz;
	u = -k * (wz[slice] + f * (wz[slice + 1] - wz[slice]));
	vc_assume_far(1 + u, 0, 1e-9); vc_assume_far(1 + U, 0, 1e-9);
	w->ApplyWakefield(length);
	const PSvector& r = b.pArray[i];
	vc_assert("transverse wake", w->transverse == (transverse ? 1 : 0));
	vc_eq("reference", b.GetReferenceMomentum(), potential->Is_CSR() ? P0 : P0 * (1 + U));
	vc_eq("momentum", b.GetReferenceMomentum() * (1 + r.dp()), P0 * (1 + p.dp() + u));
	double dx = transverse ? k * (w->wx[slice] + f * (w->wx[slice + 1] - w->wx[slice])) : 0.0;
	double dy = transverse ? k * (w->wy[slice] + f * (w->wy[slice + 1] - w->wy[slice])) : 0.0;
	vc_eq("slope", (1 + u) * r.xp(), p.xp() + dx); vc_eq("slope", (1 + u) * r.yp(), p.yp() + dy);
	vc_assert("place and time kept", (r.x() == p.x()) & (r.y() == p.y()) & (r.ct() == p.ct()) & (r.id() == p.id()));
	vc_reach("post");
}
VC_ENTRY(longitudinal)     // charge ahead times the wake at its distance; of radiation, slope of the charge behind
{
	int nb = vc_int("bins", 1, 4); bool csr = vc_bool("csr");
	ParticleBunch& b = *new ParticleBunch(1.0, vc_real("q"));
	b.pArray.resize(3, PSvector(0));
	WakeFieldProcess* w = new WakeFieldProcess(1, nb, 3.0);
	w->InitialiseProcess(b);
	w->currentWake = new Potential(csr);
	w->bunchSlices.resize(nb + 1, b.begin());
	double dz = w->dz = vc_in("dz", 0.1, 2), q = b.GetTotalCharge();
	vc_assume(dz > 0.01);
	for(int j = 0; j < nb; j++) { w->Qd.push_back(vc_idx("Q", j)); w->Qdp.push_back(vc_idx("Qp", j)); }
	w->CalculateWakeL();
	vc_assert("one for each boundary", (int) w->wake_z.size() == nb + 1);
	double a = energy(q < 0 ? -q : q);
	for(int i = 0; i <= nb; i++) {
		double s = 0;
		if(csr) for(int j = 1; j < i; j++) s += vc_again("Qp", j) * vc_fun("long", {-(i - j - 0.5) * dz});
		else for(int j = i; j < nb; j++) s += vc_again("Q", j) * dz * vc_fun("long", {(j + 0.5 - i) * dz});
		vc_eq("wake", w->wake_z[i], a * s);
	}
	vc_reach("post");
}
VC_ENTRY(transverse)       // charge ahead times its offset times the wake at its distance
{
	const int nb = 2;
	ParticleBunch& b = *new ParticleBunch(1.0, vc_real("q"));
	const int sizes[4] = {0, 1, 2, 4}, cut = sizes[vc_int("first", 0, 3)], n = cut + sizes[vc_int("second", 0, 3)];
	for(int j = 0; j < n; j++) { PSvector p(0); p.x() = vc_idx("x", j); p.y() = vc_idx("y", j); b.push_back(p); }
	WakeFieldProcess* w = new WakeFieldProcess(1, nb, 3.0);
	w->InitialiseProcess(b);
	w->currentWake = new Potential;
	w->bunchSlices.push_back(b.begin()); w->bunchSlices.push_back(b.begin() + cut); w->bunchSlices.push_back(b.end());
	double dz = w->dz = vc_in("dz", 0.1, 2), q = b.GetTotalCharge(), X[2] = {0, 0}, Y[2] = {0, 0};
	for(int j = 0; j < 2; j++) w->Qd.push_back(vc_idx("Q", j));
	for(int j = 0; j < n; j++) { int k = j < cut ? 0 : 1, m = j < cut ? cut : n - cut; X[k] += vc_again("x", j) / m; Y[k] += vc_again("y", j) / m; }
	w->CalculateWakeT();
	double a = energy(dz * (q < 0 ? -q : q));
	for(int i = 0; i <= nb; i++) {
		double sx = 0, sy = 0;
		for(int j = i; j < nb; j++) { double g = vc_again("Q", j) * vc_fun("trans", {(j + 0.5 - i) * dz}); sx += g * X[j]; sy += g * Y[j]; }
		vc_eq("wake", w->wake_x[i], a * sx); vc_eq("wake", w->wake_y[i], a * sy);
	}
	vc_reach("post");
}
VC_ENTRY(slices)           // every particle in the slice of its time, those outside removed
{
	const int N = 3;
	int nb = vc_int("bins", 1, 3); bool smooth = vc_bool("filter");
	double zmin = vc_real("zmin"), dz = vc_in("dz", 0.3, 2), zmax = zmin + nb * dz;
	vc_assume(dz > 0.01);
	ParticleBunch& b = *new ParticleBunch(1.0, 1.0);
	int out = 0;
	for(int j = 0; j < N; j++) { PSvector p(0); p.ct() = vc_idx("ct", j); p.id() = j; b.push_back(p); if(p.ct() < zmin || p.ct() >= zmax) out++; }
	vc_assume(out < N);
	std::vector<double> c, hd, hdp;
	for(int j = 0; j < 3; j++) c.push_back(vc_idx("c", j));
	std::vector<ParticleBunch::iterator> s;
	size_t lost = ParticleBinList(b, zmin, zmax, nb, s, hd, hdp, smooth ? &c : nullptr);
	vc_assert("lost", ((int) lost == out) & ((int) b.size() == N - out));
	vc_assert("whole bunch", ((int) s.size() == nb + 1) & (s[0] == b.begin()) & (s[nb] == b.end()));
	int h[3] = {0, 0, 0};
	for(int k = 0; k < nb; k++)
		for(ParticleBunch::iterator p = s[k]; p != s[k + 1]; p++) {
			h[k]++;
			vc_assert("in its slice", (p->ct() >= zmin + k * dz) & (p->ct() < zmin + (k + 1) * dz));
			vc_eq("the particle", p->ct(), vc_again("ct", p->id()));
		}
	for(int k = 0; k < nb; k++) {
		vc_eq("density", hd[k] * (dz * (N - out)), h[k]);
		double d = 0;
		if(smooth) for(int m = k > 0 ? k - 1 : 0; m < nb && m <= k + 1; m++) d += h[m] * c[m - k + 1];
		vc_eq("filtered", hdp[k] * (dz * (N - out)), d);
	}
	vc_reach("post");
}
VC_ENTRY(filter)           // derivative of the polynomial fitted
{
	WakeFieldProcess* w = new WakeFieldProcess(1, 2, 3.0);
	int n = 14, m = 2, d = 1;
	if(vc_bool("another")) { n = vc_int("width", 2, 3); m = vc_int("order", 1, 3); d = vc_int("derivative", 0, 1); w->SetFilter(n, m, d); }
	vc_assert("width", (int) w->filter->size() == 2 * n + 1);
	for(int k = 0; k <= m; k++) {
		double s = 0;
		for(int j = -n; j <= n; j++) { double t = (*w->filter)[j + n]; for(int l = 0; l < k; l++) t *= j; s += t; }
		vc_eq("of a power", s, k == d ? 1 : 0);
	}
	vc_reach("post");
}
struct Once: WakeFieldProcess
{
	int applied; double length, charge; long left;
	Once(double ns): WakeFieldProcess(1, 2, ns), applied(0) {}
	void ApplyWakefield(double ds) { applied++; length = ds; charge = currentBunch->GetTotalCharge(); left = currentBunch->size(); }
};
VC_ENTRY(where)            // once, at the exit or the centre, of components with a wake of this process, with the charge kept
{
	bool centre = vc_bool("centre"); int kind = vc_int("kind", 0, 3);
	double L = vc_in("L", 0.5, 2), q = vc_real("q"), cut = vc_in("cut", 0.1, 0.9);
	vc_assume((L > 0.1) & (cut > 0.01) & (cut < 0.99));
	ParticleBunch& b = *new ParticleBunch(1.0, q);
	for(int j = 0; j < 3; j++) { PSvector p(0); p.ct() = 1 - j; b.push_back(p); }
	Once* w = new Once(kind == 1 ? 1.0 : 3.0);
	if(centre) w->ApplyImpulseAt(WakeFieldProcess::atCentre);
	w->InitialiseProcess(b);
	Drift* d = new Drift("d", L);
	Potential* potential = new Potential;
	if(kind != 0) d->SetWakePotentials(potential);
	if(kind == 2) potential->SetExpectedProcess(new WakeFieldProcess(1));
	if(kind == 3) potential->SetExpectedProcess(new Once(1.0));
	w->SetCurrentComponent(*d);
	bool acts = kind == 1 || kind == 3;
	vc_assert("active", w->IsActive() == acts);
	if(acts) {
		double at = centre ? L / 2 : L;
		vc_eq("step", w->GetMaxAllowedStepSize(), at);
		w->DoProcess(cut * at);
		vc_assert("not before", (w->applied == 0) & w->IsActive());
		vc_eq("step", w->GetMaxAllowedStepSize(), at - cut * at);
		w->DoProcess(at - cut * at);
		vc_assert("once", (w->applied == 1) & !w->IsActive());
		vc_eq("length", w->length, L);
		vc_eq("charge kept", w->charge, 3 * q);
		vc_assert("tails", w->left == (kind == 1 ? 1 : 3));
	}
	vc_reach("post");
}
