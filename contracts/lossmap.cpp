// VC: units = LossMapCollimationOutput.cpp DetailedCollimationOutput.cpp CollimationOutput.cpp StringPattern.cpp AcceleratorComponent.cpp Collimator.cpp Drift.cpp PSvector.cpp RectangularGeometry.cpp AcceleratorGeometry.cpp Transform3D.cpp Rot3Drep.cpp IdentityRotation.cpp AxisRotations.cpp GeneralRotation.cpp MerlinIO.cpp EMField.cpp NumericalConstants.cpp
// Contracts of the records of lost particles: every one is counted exactly once, where it was lost.
#include "vc.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "Collimator.h"
#include "Drift.h"
using namespace ParticleTracking;

struct Line           // a drift, then a collimator
{
	Drift d; Collimator c; double s[2], len[2];
	Line() : d("d", len[0] = vc_in("L0", 0.5, 3)), c("c", len[1] = vc_in("L1", 0.5, 1))
	{
		s[0] = vc_nonneg("s0"); s[1] = s[0] + len[0] + vc_nonneg("gap");
		d.SetComponentLatticePosition(s[0]); c.SetComponentLatticePosition(s[1]);
	}
	AcceleratorComponent& at(int k) { return k ? static_cast<AcceleratorComponent&>(c) : d; }
};
static PSvector particle(int i)
{
	PSvector p(0);
	for(int k = 0; k < 6; k++) p[k] = vc_idx("p", 6 * i + k);
	p.id() = 100 + i;
	return p;
}
VC_ENTRY(record)          // what is recorded of one loss
{
	Line l;
	LossMapCollimationOutput m;
	vc_assert("ten centimetres by default", m.otype == tencm);
	int e = vc_int("element", 0, 1), bin = vc_int("bin", 0, 3), warm = vc_int("warm regions", 0, 2);
	double pos = vc_in("pos", 0, 0.4), w0[2], w1[2];
	vc_assume((pos >= 0.1 * bin) & (pos < 0.1 * bin + 0.1));
	bool in = false;
	for(int k = 0; k < warm; k++) {
		w0[k] = vc_idx("from", k, 0, 5); w1[k] = vc_idx("to", k, 0, 5);
		m.SetWarmRegion(std::make_pair(w0[k], w1[k]));
		in = in | ((w0[k] <= l.s[e]) & (l.s[e] <= w1[k]));
	}
	vc_assert("warm regions", (int) m.GetWarmRegions().size() == warm);
	PSvector p = particle(0);
	CollimationOutput& o = m;
	o.Dispose(l.at(e), pos, p, 3);
	vc_assert("one record", m.DeadParticles.size() == 1);
	const LossData& r = m.DeadParticles[0];
	vc_assert("element", r.ElementName == (e ? "Collimator.c" : "Drift.d"));
	vc_eq("start of the element", r.s, l.s[e]);
	vc_eq("length of the element", r.length, l.len[e]);
	vc_eq("place in the lattice", r.position, l.s[e] + pos);
	vc_assert("start of the ten centimetres", (r.interval <= pos) & (pos < r.interval + 0.1));
	vc_eq("start of the ten centimetres", r.interval, 0.1 * bin);
	vc_eq("one particle", r.lost, 1);
	vc_assert("kind of element", r.temperature == (e ? LossData::Collimator : in ? LossData::Warm : LossData::Cold));
	for(int k = 0; k < 6; k++) vc_eq("coordinates", r.p[k], p[k]);
	vc_assert("identity", r.p.id() == 100);
	m.ClearWarmRegions();
	vc_assert("no warm regions", m.GetWarmRegions().size() == 0);
	vc_reach("post");
}
static const int N = 3;
static void losses(OutputType type)       // bounded: three losses in two elements
{
	Line l;
	LossMapCollimationOutput m(type);
	int e[N], bin[N]; double pos[N];
	for(int i = 0; i < N; i++) {
		e[i] = vc_int_(i == 0 ? "e0" : i == 1 ? "e1" : "e2", 0, 1);
		bin[i] = type == tencm ? vc_int_(i == 0 ? "b0" : i == 1 ? "b1" : "b2", 0, 1) : 0;
		pos[i] = vc_idx("pos", i, 0, 0.2);
		if(vc_boolidx("same place as before", i) && i > 0) { bin[i] = bin[i - 1]; pos[i] = pos[i - 1]; }
		vc_assume((pos[i] >= 0.1 * bin[i]) & (pos[i] < 0.1 * bin[i] + 0.1));
	}
	PSvector p(0);
	CollimationOutput& o = m;
	for(int i = 0; i < N; i++) o.Dispose(l.at(e[i]), pos[i], p, 1);
	o.Finalise();
	int n = (int) m.OutputLosses.size();
	double sum = 0;
	for(int k = 0; k < n; k++) sum += m.OutputLosses[k].lost;
	vc_eq("every loss counted once", sum, N);
	for(int k = 0; k < n; k++) {
		const LossData& r = m.OutputLosses[k];
		int want = 0;
		for(int i = 0; i < N; i++) {
			bool same = (e[i] == 1) == (r.ElementName == "Collimator.c");
			if(type == tencm) same = same & (0.1 * bin[i] == r.interval);
			if(type == precise) same = same & (l.s[e[i]] + pos[i] == r.position);
			want += same;
		}
		vc_eq("losses of the entry", r.lost, want);
		if(k) vc_assert("along the lattice", m.OutputLosses[k - 1].s + m.OutputLosses[k - 1].interval <= r.s + r.interval);
		if(k && type == nearestelement) vc_assert("one entry per element", m.OutputLosses[k - 1].ElementName != r.ElementName);
		if(k && type == tencm) vc_assert("one entry per ten centimetres", (m.OutputLosses[k - 1].ElementName != r.ElementName) | (m.OutputLosses[k - 1].interval < r.interval));
		if(k && type == precise) vc_assert("one entry per place", m.OutputLosses[k - 1].position < r.position);
	}
	vc_reach("post");
}
VC_ENTRY(per_element) { losses(nearestelement); }
VC_ENTRY(per_place) { losses(precise); }
VC_ENTRY(per_ten_centimetres) { losses(tencm); }
VC_ENTRY(detailed)        // only the elements asked for, with all of the particle
{
	Line l;
	DetailedCollimationOutput m;
	int which = vc_int("which", 0, 5);
	const char* pat[6] = {"d", "c", "x", "d|c", "*", "c*"};
	m.AddIdentifier(pat[which]);
	if(vc_bool("another")) m.AddIdentifier("y");
	int e = vc_int("element", 0, 1);
	bool want = which == 0 ? e == 0 : which == 1 ? e == 1 : which == 2 ? false : which == 5 ? e == 1 : true;
	double pos = vc_nonneg("pos");
	PSvector p = particle(0);
	CollimationOutput& o = m;
	o.Dispose(l.at(e), pos, p, 9);
	vc_assert("recorded if asked for", m.DeadParticles.size() == (want ? 1 : 0));
	if(want) {
		const LossData& r = m.DeadParticles[0];
		vc_assert("element", r.ElementName == (e ? "c" : "d"));
		vc_eq("start of the element", r.s, l.s[e]); vc_eq("place in the element", r.position, pos); vc_eq("length of the element", r.length, l.len[e]);
		vc_assert("turn", r.turn == 9);
		for(int k = 0; k < 6; k++) vc_eq("coordinates", r.p[k], p[k]);
		vc_assert("identity", r.p.id() == 100);
	}
	vc_reach("post");
}
