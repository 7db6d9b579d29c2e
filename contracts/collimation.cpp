// VC: units = CollimateParticleProcess.cpp CollimateProtonProcess.cpp ComponentTracker.cpp AcceleratorComponent.cpp Collimator.cpp Drift.cpp Marker.cpp CollimatorAperture.cpp Aperture.cpp InterpolatedApertures.cpp DataTable.cpp ParticleBunch.cpp PSvector.cpp RectangularGeometry.cpp AcceleratorGeometry.cpp Transform3D.cpp Rot3Drep.cpp IdentityRotation.cpp AxisRotations.cpp GeneralRotation.cpp PhysicalUnits.cpp PhysicalConstants.cpp NumericalConstants.cpp MerlinIO.cpp EMField.cpp CollimationOutput.cpp
// Contracts of the collimation of particles: who is lost, where, and what is recorded of it.
#include "vc.h"
#include "CollimateParticleProcess.h"
#include "CollimateProtonProcess.h"
#include "ScatteringModel.h"
#include "ParticleComponentTracker.h"
#include "CollimatorAperture.h"
#include "Collimator.h"
#include "Drift.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "utils.h"
using namespace ParticleTracking;

// scattering in the material enters by arbitrary changes of the particle (ScatteringModel.cpp is not linked)
static double pathlen[8]; static int npath, nscat, nloss;
static bool stopped;
namespace Collimation {
ScatteringModel::ScatteringModel() {}
ScatteringModel::~ScatteringModel() {}
double ScatteringModel::PathLength(MaterialProperties*, double) { return pathlen[npath++]; }
void ScatteringModel::EnergyLoss(PSvector& p, double, MaterialProperties*, double) { p.dp() = vc_idx("dp after", nloss++, -1.2, 0.1); }
void ScatteringModel::Straggle(PSvector& p, double, MaterialProperties*, double, double) {}
bool ScatteringModel::ParticleScatter(PSvector& p, MaterialProperties*, double)
{
	p.xp() = vc_idx("xp after", nscat, -0.1, 0.1); p.yp() = vc_idx("yp after", nscat++, -0.1, 0.1);
	vc_assume(p.xp() * p.xp() + p.yp() * p.yp() < 1);
	return !(stopped = vc_boolidx("stops", nscat));
}
void ScatteringModel::ScatterPlot(Particle&, double, int, std::string) {}
}
struct Jaws: public Collimation::ScatteringModel { virtual void Configure(MaterialProperties*, double) {} };

#ifdef VC_NATIVE
static double grid(double x) { return std::floor(x * 1024 + 0.5) / 1024; }
#else
static double grid(double x) { return x; }
#endif
static bool inside(double x, double y, double z) { return vc_fun("aperture", {x, y, z}) > 0; }
static int nchk; static double chkz[32];
struct Ap: public Aperture
{
	Ap() : Aperture("ANY", 0, 1) {}
	virtual bool CheckWithinApertureBoundaries(double x, double y, double z) const { if(nchk < 32) chkz[nchk++] = z; return inside(x, y, z); }
	virtual std::string GetType() { return "ANY"; }
};
struct Jaw: public CollimatorAperture
{
	Jaw() : CollimatorAperture(1, 1, 0, 1) {}
	mutable bool last = false;                // the last answer
	virtual bool CheckWithinApertureBoundaries(double x, double y, double z) const { return last = inside(x, y, z); }
};
struct Out: public CollimationOutput
{
	int n, turn[8]; double pos[8]; PSvector p[8]; AcceleratorComponent* c[8];
	Out() : n(0) {}
	virtual void Dispose(AcceleratorComponent& comp, double at, Particle& v, int t) { if(n == 8) return; c[n] = &comp; pos[n] = at; p[n] = v; turn[n] = t; ++n; }
};
struct Proc: public CollimateParticleProcess
{
	Out out;
	Proc(int mode) : CollimateParticleProcess(0, mode) { SetCollimationOutput(&out); nchk = 0; }
};
struct Bunch3: public ParticleBunch
{
	int n; PSvector p[3];
	Bunch3(int N, double q) : ParticleBunch(vc_pos("P0"), q), n(N)
	{
		static const char* nm[3] = {"a", "b", "c"};
		for(int i = 0; i < N; i++) {
			p[i] = PSvector(0);
			for(int k = 0; k < 6; k++) p[i][k] = vc_idx(nm[i], k, -1, 1);
			p[i].id() = 10 + i;
			AddParticle(p[i]);
		}
	}
	void same(const char* id, int k, const PSvector& w)   // place k holds w
	{
		const PSvector& r = pArray[k];
		for(int j = 0; j < 6; j++) vc_eq(id, r[j], w[j]);
		vc_assert("identity of a survivor", r.id() == w.id());
	}
};

VC_ENTRY(planes)          // the aperture is applied at the chosen planes, once each
{
	double L = grid(vc_pos("L"));
	vc_assume(L > 1e-9);
	int mode = vc_int("mode", 0, 7);
	Drift d("d", L);
	Ap ap; d.SetAperture(&ap);
	Bunch3 b(1, 1.0);
	Proc p(mode);
	vc_assert("not active without a bunch", !p.IsActive());
	p.InitialiseProcess(b);
	p.SetCurrentComponent(d);
	double s = 0;
	int k = 0;
	vc_assume(inside(b.p[0].x(), b.p[0].y(), 0) & inside(b.p[0].x(), b.p[0].y(), L / 2) & inside(b.p[0].x(), b.p[0].y(), L));
	vc_assert("active while planes remain", p.IsActive() == (mode != 0));
	for(int j = 0; j < 3; j++) if(mode & (1 << j)) {
		double z = j == 0 ? 0 : j == 1 ? L / 2 : L;
		vc_assert("active while planes remain", p.IsActive());
		double ds = p.GetMaxAllowedStepSize();
		vc_eq("step to the next plane", ds, z - s);
		if(j && vc_boolidx("shorter step by another process", j)) {
			double f = grid(vc_idx("part", j, 0.001, 0.999) * ds);
			vc_assume((f > 1e-9) & (ds - f > 1e-9));
			p.DoProcess(f);
			vc_assert("not applied in between", nchk == k);
			ds = ds - f;
			vc_eq("rest of the step", p.GetMaxAllowedStepSize(), ds);
		}
		p.DoProcess(ds);
		s = z;
		vc_assert("applied", nchk == k + 1);
		vc_eq("at the plane", chkz[k++], z);
	}
	vc_assert("done", !p.IsActive());
	vc_assert("nothing lost", (b.size() == 1) & (p.nlost == 0) & (p.out.n == 0));
	b.same("untouched", 0, b.p[0]);
	Drift free("f", 1.0);
	p.SetCurrentComponent(free);
	vc_assert("no aperture, no collimation", !p.IsActive());
	vc_reach("post");
}
VC_ENTRY(turns)
{
	Bunch3 b(1, 1.0);
	Ap ap;
	Drift d("d", 1.0), e("e", 1.0), f("d", 1.0);
	d.SetComponentLatticePosition(0); e.SetComponentLatticePosition(1); f.SetComponentLatticePosition(2);
	d.SetAperture(&ap); e.SetAperture(&ap); f.SetAperture(&ap);
	Proc p(COLL_AT_EXIT);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(d);
	vc_assert("first turn", p.ColParProTurn == 1);
	p.SetCurrentComponent(e); p.SetCurrentComponent(f);
	vc_assert("still the first", p.ColParProTurn == 1);
	p.SetCurrentComponent(d);
	vc_assert("second turn", p.ColParProTurn == 2);
	p.SetCurrentComponent(e); p.SetCurrentComponent(f);
	vc_assert("still the second", p.ColParProTurn == 2);
	vc_reach("post");
}
// who survives: an element without length (bounded: three particles)
static const int N = 3;
static void survivors(bool threshold)
{
	int mode = COLL_AT_EXIT;
	double q = vc_real("charge");
	bool index = vc_bool("index");
	Drift d("d", 0);
	Ap ap; d.SetAperture(&ap);
	Bunch3 b(N, q);
	Proc p(mode);
	if(index) p.IndexParticles(true);
	p.InitialiseProcess(b);
	int before = vc_int("lost before", 0, 2);
	p.nlost = before; p.nstart = N + before;
	double th = threshold ? vc_in("threshold", 1, 100) : 1000.0;
	p.SetLossThreshold(th);
	bool in[N];
	int lost = 0;
	for(int i = 0; i < N; i++) { in[i] = inside(b.p[i].x(), b.p[i].y(), 0); if(!in[i]) ++lost; }
	p.SetCurrentComponent(d);
	int turn = p.ColParProTurn;
	bool thrown = false;
	try { p.DoProcess(p.GetMaxAllowedStepSize()); } catch(ExcessiveParticleLoss&) { thrown = true; }
	vc_assert("losses counted", (int) p.nlost == before + lost);
	vc_assert("exception at the threshold", thrown == ((lost > 0) & ((before + lost) * 100.0 >= th * (N + before))));
	vc_assert("the others survive", (int) b.size() == N - lost);
	int k = 0, j = 0;
	for(int i = 0; i < N; i++) {
		if(in[i]) b.same("survivors in order and unchanged", k++, b.p[i]);
		else {
			vc_assert("loss recorded", (p.out.n > j) & (p.out.c[j] == &d) & (p.out.turn[j] == turn));
			vc_eq("at the element", p.out.pos[j], 0);
			vc_assert("of the particle", p.out.p[j].id() == b.p[i].id());
			for(int c = 0; c < 4; c++) vc_eq("its coordinates", p.out.p[j][c], b.p[i][c]);
			vc_eq("its coordinates", p.out.p[j][5], b.p[i][5]);
			++j;
		}
	}
	vc_assert("each loss recorded once", p.out.n == lost);
	vc_eq("charge of the rest", b.GetTotalCharge(), q * (N - lost));
	if(index) {
		int i = 0;
		vc_assert("indices of the survivors", p.GetIndexes().size() == b.size());
		for(size_t x : p.GetIndexes()) { while(i < N && !in[i]) ++i; vc_assert("indices of the survivors", (int) x == i); ++i; }
	}
	vc_reach("post");
}
VC_ENTRY(survival) { survivors(false); }
VC_ENTRY(loss_threshold) { survivors(true); }
// where the lost ones are lost: they are tracked again in steps of the bin size (bounded: one particle and three bins, or two particles and one bin)
struct Step: public ParticleComponentTracker::Integrator<Drift>
{
	virtual void TrackStep(double ds)
	{
		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end(); p++)
			{ p->x() += ds * p->xp(); p->y() += ds * p->yp(); }
	}
};
struct Set: public ParticleComponentTracker::ISetBase { virtual void Init(ParticleComponentTracker& t) const { t.Register(new Step); } };
template<> ParticleComponentTracker::ISetBase* TBunchCMPTracker<ParticleBunch>::defIS = nullptr;
static const double far = 1e-9;
static void where(int np, int bins)
{
	double bin = grid(vc_in("bin", 0.05, 0.2)), L = grid(vc_in("L", 0.02, 0.6));
	int n = vc_int("whole bins", 0, bins);      // and a rest
	vc_assume((L - n * bin > far) & ((L - (n + 1) * bin < -far) | (L == (n + 1) * bin)));
	ParticleComponentTracker::SetDefaultIntegratorSet(new Set);
	Collimator d("d", L);                    // no scattering: hard edge
	Ap ap; d.SetAperture(&ap);
	Bunch3 b(np, 1.0);
	Proc p(COLL_AT_EXIT);
	p.SetLossThreshold(1000);
	p.SetOutputBinSize(bin);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(d);
	double z[5];
	for(int k = 0; k <= n; k++) z[k] = k * bin;
	z[n + 1] = L;
	bool in[2] = {true, true}; int at[2];
	for(int i = 0; i < np; i++) {
		PSvector v = b.p[i];
		at[i] = n + 1;                       // at the exit unless outside before
		for(int k = n; k >= 0; k--) if(!inside(v.x() + z[k] * v.xp(), v.y() + z[k] * v.yp(), z[k])) at[i] = k;
		PSvector& w = b.pArray[i];           // the bunch itself is tracked through the element
		w.x() += L * w.xp(); w.y() += L * w.yp();
		in[i] = inside(w.x(), w.y(), L);
	}
	PSvector e0 = b.pArray[0], e1 = b.pArray[np - 1];
	p.DoProcess(L);
	int lost = !in[0] + !in[1];
	vc_assert("survivors", (int) b.size() == np - lost);
	if(in[0]) b.same("survivor", 0, e0);
	if(np == 2 && in[1]) b.same("survivor", in[0] ? 1 : 0, e1);
	vc_assert("losses counted", (int) p.nlost == lost);
	vc_assert("each loss recorded once", p.out.n == lost);
	for(int i = 0; i < np; i++) if(!in[i]) {
		int j = (p.out.p[0].id() == b.p[i].id()) ? 0 : 1;
		vc_assert("of the particle in the element", (p.out.p[j].id() == b.p[i].id()) & (p.out.c[j] == &d) & (p.out.turn[j] == 1));
		vc_eq("first bin where it is outside", p.out.pos[j], z[at[i]]);
		vc_eq("its place", p.out.p[j].x(), b.p[i].x() + z[at[i]] * b.p[i].xp());
		vc_eq("its place", p.out.p[j].y(), b.p[i].y() + z[at[i]] * b.p[i].yp());
		vc_eq("its angle", p.out.p[j].xp(), b.p[i].xp());
		vc_eq("its momentum", p.out.p[j].dp(), b.p[i].dp());
	}
	vc_reach("post");
}
VC_ENTRY(where_lost) { where(1, 2); }
VC_ENTRY(where_two_lost) { where(2, 0); }
VC_ENTRY(two_planes)      // losses at the entrance and, of the rest, at the exit (bounded: three particles, one bin)
{
	double L = vc_in("L", 0.02, 0.05);
	ParticleComponentTracker::SetDefaultIntegratorSet(new Set);
	Drift d("d", L);
	Ap ap; d.SetAperture(&ap);
	Bunch3 b(3, 1.0);
	Proc p(COLL_AT_ENTRANCE | COLL_AT_EXIT);
	p.SetLossThreshold(1000);
	p.SetOutputBinSize(0.1);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(d);
	bool in0[3], in1[3]; int lost = 0, left = 0;
	for(int i = 0; i < 3; i++) {
		in0[i] = inside(b.p[i].x(), b.p[i].y(), 0);
		vc_assume(i != 1 || in0[1]);
		in1[i] = in0[i] && inside(b.p[i].x() + L * b.p[i].xp(), b.p[i].y() + L * b.p[i].yp(), L);
	}
	p.DoProcess(0);
	for(ParticleBunch::iterator q = b.begin(); q != b.end(); q++) { q->x() += L * q->xp(); q->y() += L * q->yp(); }
	p.DoProcess(L);
	for(int plane = 0; plane < 2; plane++)
		for(int i = 0; i < 3; i++) if(plane ? in0[i] && !in1[i] : !in0[i]) {
			double z = plane ? L : 0;
			vc_assert("recorded", p.out.n > lost);
			vc_assert("of the particle", p.out.p[lost].id() == b.p[i].id());
			vc_eq("where it is lost", p.out.pos[lost], z);
			vc_eq("its place", p.out.p[lost].x(), b.p[i].x() + z * b.p[i].xp());
			vc_eq("its place", p.out.p[lost].y(), b.p[i].y() + z * b.p[i].yp());
			vc_eq("its angle", p.out.p[lost].xp(), b.p[i].xp());
			++lost;
		}
	vc_assert("each loss recorded once", (p.out.n == lost) & ((int) p.nlost == lost));
	for(int i = 0; i < 3; i++) if(in1[i]) vc_assert("the others survive", b.pArray[left++].id() == b.p[i].id());
	vc_assert("only they", (int) b.size() == left);
	vc_reach("post");
}
VC_ENTRY(all_lost)       // the charge that steers the lost particles when they are tracked again is theirs
{
	struct Q: public ParticleComponentTracker::Integrator<Drift> { double* q; Q(double* d) : q(d) {} virtual void TrackStep(double) { *q = currentBunch->GetChargeSign(); } };
	struct QS: public ParticleComponentTracker::ISetBase { double* q; QS(double* d) : q(d) {} virtual void Init(ParticleComponentTracker& t) const { t.Register(new Q(q)); } };
	double seen = 7, q = vc_real("charge");
	bool pos = vc_bool("positive");
	vc_assume(pos ? q > 0.001 : q < -0.001);
	ParticleComponentTracker::SetDefaultIntegratorSet(new QS(&seen));
	Drift d("d", 0.05);
	Ap ap; d.SetAperture(&ap);
	Bunch3 b(2, q);
	Proc p(COLL_AT_EXIT);
	p.SetLossThreshold(1000);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(d);
	int lost = 0;
	for(int i = 0; i < 2; i++) { vc_assume(inside(b.p[i].x(), b.p[i].y(), 0)); if(!inside(b.p[i].x(), b.p[i].y(), 0.05)) ++lost; }
	p.DoProcess(0.05);
	if(lost) vc_eq("sign of the charge", seen, pos ? 1 : -1);
	else vc_eq("nothing tracked again", seen, 7);
	vc_assert("survivors", (int) b.size() == 2 - lost);
	vc_reach("post");
}
// collimators with scattering: bin by bin (bounded: one particle and three bins, or two particles and one bin)
struct SProc: public CollimateParticleProcess
{
	int nc; PSvector before[16]; double from[16], to[16]; bool absorbed[16];
	SProc() : CollimateParticleProcess(0, COLL_AT_EXIT), nc(0) { ScatterAtCollimator(true); SetLossThreshold(1000); }
	virtual ScatterOutcome DoScatter(Particle& p)
	{
		if(nc == 16) return ScatterOutcome::survived;
		before[nc] = p; from[nc] = int_s; to[nc] = s;
		bool a = absorbed[nc] = vc_boolidx("absorbed", nc);
		p.x() = vc_idx("x after", nc); p.xp() = vc_idx("xp after", nc);
		++nc;
		return a ? ScatterOutcome::absorbed : ScatterOutcome::survived;
	}
};
VC_ENTRY(jaw_bins)
{
	double bin = grid(vc_in("bin", 0.05, 0.2)), L = grid(vc_in("L", 0.02, 0.6));
	int n = vc_int("whole bins", 0, 2), k = vc_int("bin number", 0, 2);
	vc_assume((k <= n) & (L - n * bin > far) & ((L - (n + 1) * bin < -far) | (L == (n + 1) * bin)));
	Collimator d("d", L);
	Jaw ap; d.SetAperture(&ap);
	Bunch3 b(2, 1.0);
	SProc p;
	p.SetOutputBinSize(bin);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(d);
	double s = 0;
	b.clear();
	for(int j = 0; j <= k; j++) {           // empty but for the bin under study
		vc_assert("active in the collimator", p.IsActive());
		double ds = p.GetMaxAllowedStepSize();
		if(L - s < ds) ds = L - s;
		vc_eq("one bin, or what remains", ds, j < n ? bin : L - s);
		if(j == k) {
			bool in[2];
			for(int i = 0; i < 2; i++) {
				b.AddParticle(b.p[i]);
				double x = b.p[i].x() - ds * b.p[i].xp(), y = b.p[i].y() - ds * b.p[i].yp();
				in[i] = inside(x, y, s + ds);
			}
			if(vc_bool("shorter step by another process")) {
				double f = grid(vc_in("part", 0.001, 0.999) * ds);
				vc_assume((f > far) & (ds - f > far));
				p.DoProcess(f);
				vc_assert("nothing in between", p.nc == 0);
				vc_assert("the rest of the bin", p.GetMaxAllowedStepSize() >= ds - f);
				p.DoProcess(ds - f);
			}
			else p.DoProcess(ds);
			int hit = !in[0] + !in[1], c = 0, q = 0;
			vc_assert("those outside interact", p.nc == hit);
			for(int i = 0; i < 2; i++) {
				if(in[i]) { b.same("inside: untouched", q++, b.p[i]); continue; }
				vc_eq("interacts from the start of the bin", p.before[c].x(), b.p[i].x() - ds * b.p[i].xp());
				vc_eq("interacts from the start of the bin", p.before[c].y(), b.p[i].y() - ds * b.p[i].yp());
				vc_eq("its angle", p.before[c].xp(), b.p[i].xp());
				vc_eq("its momentum", p.before[c].dp(), b.p[i].dp());
				vc_assert("the particle", p.before[c].id() == b.p[i].id());
				vc_eq("start of the bin", p.from[c], s);
				vc_eq("end of the bin", p.to[c], s + ds);
				if(!p.absorbed[c]) {
					PSvector w = b.p[i];
					w.y() -= ds * w.yp();
					w.x() = vc_again("x after", c); w.xp() = vc_again("xp after", c);
					b.same("as scattered", q++, w);
				}
				++c;
			}
			vc_assert("the absorbed are lost", (int) b.size() == q);
			vc_assert("and counted", (int) p.nlost == 2 - q);
		}
		else p.DoProcess(ds);
		s += ds;
	}
	vc_reach("post");
}
// the walk of a proton through one bin of a jaw (bounded: at most two interactions)
struct Proton: public CollimateProtonProcess
{
	Out out; Jaws model;
	Proton() : CollimateProtonProcess(0, COLL_AT_EXIT) { SetScatteringModel(&model); SetCollimationOutput(&out); }
	ScatterOutcome go(Particle& p, double from, double to) { int_s = from; s = to; ColParProTurn = 5; return CollimateParticleProcess_DoScatter(p); }
	ScatterOutcome CollimateParticleProcess_DoScatter(Particle& p) { CollimateParticleProcess* q = this; return q->DoScatter(p); }
};
static void proton(bool escaping)
{
	double L = vc_in("L", 0.1, 1), s0 = vc_in("from", 0, 1), s1 = vc_in("to", 0, 1);
	vc_assume((s0 < s1) & (s1 <= L));
	double P0 = vc_in("P0", 1, 7000);
	ParticleBunch b(P0, 1.0);
	Collimator d("d", L);
	Jaw ap; d.SetAperture(&ap);
	Proton p;
	p.currentBunch = &b; p.currentComponent = &d;
	PSvector v(0);
	for(int k = 0; k < 6; k++) v[k] = vc_idx("p", k, -0.1, 0.1);
	v.id() = 17;
	vc_assume((v.xp() * v.xp() + v.yp() * v.yp() < 1) & (v.dp() > -1));
	pathlen[0] = vc_in("path 0", 0.01, 1); pathlen[1] = vc_in("path 1", 0.01, 1); pathlen[2] = 10;
	vc_assume((pathlen[0] > 0) & (pathlen[1] > 0) & (pathlen[0] != s1 - s0) & (pathlen[0] + pathlen[1] != s1 - s0));
	npath = nscat = nloss = 0; stopped = false;
	PSvector w = v;
	CollimateParticleProcess::ScatterOutcome r = p.go(w, s0, s1);
	int ni = nscat;                        // interactions
	vc_assert("identity", w.id() == v.id());
	if(r == CollimateParticleProcess::ScatterOutcome::absorbed) {
		vc_assert("an absorbed particle is recorded once", p.out.n == 1);
		vc_assert("with the turn and the collimator", (p.out.turn[0] == 5) & (p.out.c[0] == &d) & (p.out.p[0].id() == 17));
		vc_assert("with its place in the collimator instead of its time", (s0 <= p.out.p[0].ct()) & (p.out.p[0].ct() <= p.out.pos[0]));
		vc_assert("within the bin", (s0 <= p.out.pos[0]) & (p.out.pos[0] <= s1));
	}
	else {
		vc_assert("a survivor is not recorded", p.out.n == 0);
		vc_assert("a stopped particle does not survive", !stopped);
		vc_assert("nor one without energy", w.dp() >= -0.99);
		if(ap.last != escaping) return;
		// straight on between the interactions, to the end of the bin
		double a = pathlen[0], c = pathlen[1], all = s1 - s0, x = v.x(), y = v.y();
		if(ni == 0) { x += all * v.xp(); y += all * v.yp(); }
		else {
			double xp1 = vc_again("xp after0"), yp1 = vc_again("yp after0");
			x += a * v.xp(); y += a * v.yp();
			if(ni == 1) { x += (all - a) * xp1; y += (all - a) * yp1; }
			else { x += c * xp1 + (all - a - c) * vc_again("xp after1"); y += c * yp1 + (all - a - c) * vc_again("yp after1"); }
		}
		vc_eq("at the end of the bin", w.x(), x);
		vc_eq("at the end of the bin", w.y(), y);
	}
	vc_reach("post");
}
VC_ENTRY(proton) { proton(false); }
VC_ENTRY(kf_proton_escape) { proton(true); }   // known finding: one that leaves the jaw is put one step beyond the bin
