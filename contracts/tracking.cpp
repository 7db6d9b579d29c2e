// VC: units = ProcessStepManager.cpp ComponentTracker.cpp TrackingSimulation.cpp AcceleratorComponent.cpp ComponentFrame.cpp LatticeFrame.cpp Transformable.cpp Transform3D.cpp Rot3Drep.cpp IdentityRotation.cpp AxisRotations.cpp GeneralRotation.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp Drift.cpp Marker.cpp Monitor.cpp StandardMultipoles.cpp RectMultipole.cpp MultipoleField.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp MerlinIO.cpp ParticleBunch.cpp PSvector.cpp BPM.cpp RMSProfileMonitor.cpp AcceleratorModel.cpp EMField.cpp
// Contracts of the bookkeeping of tracking: steps, processes, frames.
#include "vc.h"
#include "ComponentTracker.h"
#include "ParticleComponentTracker.h"
#include "ProcessStepManager.h"
#include "BunchProcess.h"
#include "TrackingSimulation.h"
#include "Drift.h"
#include "Marker.h"
#include "BPM.h"
#include "StandardMultipoles.h"
#include "PatchFrame.h"
#include "utils.h"

// what was called, in order
enum { Entrance = 1, Step, Exit, Init, Current, Do, Transform, Recorded };
static int nlog;
static int lkind[64], lwho[64];
static double lval[64];
static void note(int kind, int who, double v) { if(nlog == 64) return; lkind[nlog] = kind; lwho[nlog] = who; lval[nlog] = v; ++nlog; }

struct CI: public ComponentIntegrator
{
	int index;
	CI(int i) : index(i) {}
	virtual void TrackStep(double ds) { note(Step, index, ds); }
	virtual void TrackEntrance() { note(Entrance, index, 0); }
	virtual void TrackExit() { note(Exit, index, 0); }
	virtual int GetComponentIndex() const { return index; }
};
static const double far = 1e-12;
#ifdef VC_NATIVE      // natively lengths are multiples of 1/1024, so that their sums are exact
static double grid(double x) { return std::floor(x * 1024 + 0.5) / 1024; }
#else
static double grid(double x) { return x; }
#endif
static double glen(const char* n) { return grid(vc_nonneg(n)); }
static double gpos(const char* n) { double x = grid(vc_pos(n)); vc_assume(x > 0); return x; }

VC_ENTRY(one_step)   // any step within any component, wherever the integrator stands
{
	double L = glen("L"), s = glen("s"), ds = glen("ds");
	vc_assume((s + ds <= L) & ((L == 0) | (L > far)));
	// either on the planes or clearly away from them
	bool in = vc_bool("at entrance"), out = vc_bool("to the exit");
	if(in) s = 0; else vc_assume(s > far);
	if(out) ds = L - s; else vc_assume(L - s - ds > far);
	vc_assume((ds == 0) | (ds > far));
	Drift d("d", L);
	CI ci(7);
	ci.SetCurrentComponent(d);
	vc_eq("starts at the entrance", ci.GetIntegratedLength(), 0);
	vc_eq("the whole length remains", ci.GetRemainingLength(), L);
	ci.cur_S = s;
	vc_assert("a step within the component is valid", ci.IsValidStep(ds));
	double over = vc_pos("over");
	vc_assume(over > far);
	vc_assert("a step beyond the component is not valid", !ci.IsValidStep(L - s + over) & !ci.IsValidStep(-over));
	nlog = 0;
	double r = ci.Track(ds);
	int k = 0;
	if(in) { vc_assert("entrance field first", lkind[k] == Entrance); ++k; }
	vc_assert("one step", (lkind[k] == Step));
	vc_eq("of the given length", lval[k], ds); ++k;
	if(out) { vc_assert("exit field last", lkind[k] == Exit); ++k; }
	vc_assert("nothing else", nlog == k);
	vc_eq("remaining length", r, L - s - ds);
	vc_eq("integrated length", ci.GetIntegratedLength(), s + ds);
	vc_eq("remaining length by query", ci.GetRemainingLength(), L - s - ds);
	vc_reach("post");
}
VC_ENTRY(whole)
{
	double L = glen("L");
	Drift d("d", L);
	CI ci(7);
	ci.SetCurrentComponent(d);
	nlog = 0;
	ci.TrackAll();
	vc_assert("entrance, step, exit", (nlog == 3) & (lkind[0] == Entrance) & (lkind[1] == Step) & (lkind[2] == Exit));
	vc_eq("whole length", lval[1], L);
	vc_eq("nothing remains", ci.GetRemainingLength(), 0);
	vc_reach("post");
}
struct Tracker: public ComponentTracker
{
	Tracker() {}
	bool reg(ComponentIntegrator* c) { return Register(c); }
};
VC_ENTRY(tracker)        // states of the tracker and choice of the integrator
{
	double L = gpos("L"), ds = gpos("ds");
	vc_assume(ds <= L);
	bool out = vc_bool("to the exit");
	if(out) ds = L; else vc_assume(L - ds > far);
	vc_assume(ds > far);
	Tracker t;
	vc_assert("undefined at first", t.GetState() == ComponentTracker::undefined);
	vc_assert("first of its kind", !t.reg(new CI(Drift::ID)));
	CI* ci = new CI(Drift::ID);
	vc_assert("replaces the other", t.reg(ci));
	vc_assert("a different kind replaces nothing", !t.reg(new CI(Quadrupole::ID)));
	Drift d("d", L);
	d.PrepareTracker(t);
	vc_assert("initialised", t.GetState() == ComponentTracker::initialised);
	vc_assert("latest integrator of the kind", t.integrator == ci);
	vc_eq("integrated", t.GetIntegratedLength(), 0);
	vc_eq("remaining", t.GetRemainingLength(), L);
	nlog = 0;
	double r = t.TrackStep(ds);
	vc_eq("remaining distance returned", r, L - ds);
	vc_eq("remaining distance", t.GetRemainingLength(), L - ds);
	vc_eq("integrated distance", t.GetIntegratedLength(), ds);
	vc_assert("state", t.GetState() == (out ? ComponentTracker::finished : ComponentTracker::tracking));
	vc_assert("entrance and step", (lkind[0] == Entrance) & (lkind[1] == Step) & (nlog == (out ? 3 : 2)));
	if(!out) {
		r = t.TrackStep(L - ds);
		vc_eq("rest", r, 0);
		vc_assert("entrance, two steps, exit", (nlog == 4) & (lkind[2] == Step) & (lkind[3] == Exit));
		vc_assert("finished", t.GetState() == ComponentTracker::finished);
	}
	nlog = 0;
	t(&d);                  // from the start again
	vc_assert("whole component in one step", (nlog == 3) & (lkind[1] == Step) & (lwho[1] == Drift::ID));
	vc_eq("of its length", lval[1], L);
	vc_assert("finished again", t.GetState() == ComponentTracker::finished);
	t.Reset();
	vc_assert("reset", t.GetState() == ComponentTracker::undefined);
	vc_reach("post");
}
VC_ENTRY(fallback)       // a component without integrator of its own uses that of its kind
{
	double L = gpos("L");
	Tracker t;
	nlog = 0;
	CI* mon = new CI(Monitor::ID);
	CI* rec = new CI(RectMultipole::ID);
	t.reg(mon); t.reg(rec);
	BPM b("b", L);
	b.PrepareTracker(t);
	vc_assert("monitor", t.integrator == mon);
	t.Track();
	Quadrupole q("q", L, 0.5);
	q.PrepareTracker(t);
	vc_assert("multipole", t.integrator == rec);
	t.Track();
	CI* own = new CI(BPM::ID);
	t.reg(own);
	b.PrepareTracker(t);
	vc_assert("own", t.integrator == own);
	vc_reach("post");
}
struct BI: public ParticleTracking::ParticleComponentTracker::B_Integrator
{
	virtual void TrackStep(double ds) { note(Step, 0, ds); }
	virtual int GetComponentIndex() const { return Drift::ID; }
};
VC_ENTRY(reference_time)
{
	double L = gpos("L"), ds = gpos("ds"), t0 = vc_real("t0");
	vc_assume(ds <= L);
	ParticleTracking::ParticleBunch b(vc_pos("P0"), 1.0);
	b.SetReferenceTime(t0);
	Drift d("d", L);
	BI ci;
	ci.SetCurrentComponent(d);
	ci.SetBunch(b);
	nlog = 0;
	static_cast<ComponentIntegrator&>(ci).Track(ds);
	vc_eq("reference time follows the step", b.GetReferenceTime(), t0 + ds);
	vc_assert("one step", nlog == 1);
	vc_reach("post");
}

// ---- processes
struct Proc: public BunchProcess
{
	int id; double m[4];
	Proc(int i, int prio) : BunchProcess("p", prio), id(i) {}
	virtual void InitialiseProcess(Bunch&) { note(Init, id, 0); }
	virtual void SetCurrentComponent(AcceleratorComponent& c) { BunchProcess::SetCurrentComponent(c); note(Current, id, 0); }
	virtual void DoProcess(double ds) { note(Do, id, ds); m[0] = m[1]; m[1] = m[2]; m[2] = m[3]; }
	virtual double GetMaxAllowedStepSize() const { return m[0]; }
};
VC_ENTRY(priorities)     // ordered by priority, first come first served; negative ones at the end
{
	ProcessStepManager p;
	Proc* q[3];
	int prio[3];
	for(int i = 0; i < 3; i++) { prio[i] = vc_int(i == 0 ? "p0" : i == 1 ? "p1" : "p2", 0, 2); q[i] = new Proc(i, prio[i]); p.AddProcess(q[i]); }
	Proc* last = new Proc(3, -1);
	p.AddProcess(last);
	vc_assert("all of them", p.processTable.size() == 4);
	int seen[4], k = 0;
	for(auto* x : p.processTable) seen[k++] = static_cast<Proc*>(x)->id;
	for(int i = 0; i < 2; i++) {
		bool lt = prio[seen[i]] < prio[seen[i + 1]], eq = prio[seen[i]] == prio[seen[i + 1]];
		vc_assert("ascending, equal ones in order of arrival", lt | (eq & (seen[i] < seen[i + 1])));
	}
	vc_assert("negative priority last", seen[3] == 3);
	int r = vc_int("remove", 0, 3);
	Proc* gone = r == 3 ? last : q[r];
	vc_assert("known", p.RemoveProcess(gone));
	vc_assert("unknown", !p.RemoveProcess(gone));
	vc_assert("three left", p.processTable.size() == 3);
	int j = 0;
	for(auto* x : p.processTable) { if(seen[j] == r) ++j; vc_assert("others keep their order", static_cast<Proc*>(x)->id == seen[j]); ++j; }
	ParticleTracking::ParticleBunch b(1.0, 1.0);
	nlog = 0;
	p.Initialise(b);
	vc_assert("every process initialised", nlog == 3);
	p.ClearProcesses();
	vc_assert("no process left", p.processTable.size() == 0);
	vc_reach("post");
}
static void steps(int np)    // bounded: at most three steps through the component
{
	double L = gpos("L");
	vc_assume(L > 0.01);
	Drift d("d", L);
	ProcessStepManager p;
	Proc* q[2];
	bool act[2];
	double m[2][4];
	for(int i = 0; i < np; i++) {
		q[i] = new Proc(i, i);
		act[i] = vc_bool(i ? "active 1" : "active 0");
		q[i]->active = act[i];
		for(int k = 0; k < 4; k++) {
			q[i]->m[k] = m[i][k] = k < 2 ? grid(vc_idx(i ? "b" : "a", k, 0.1, 2)) : 10;
			if(k < 2) vc_assume(m[i][k] > 0.001); else vc_assume(L < 10);
		}
		p.AddProcess(q[i]);
	}
	double before = vc_real("travelled");
	p.total_s = before;
	double s = 0, dss[3];
	int n = 0;
	for(int k = 0; k < 3; k++) {
		double a = L - s;
		for(int i = 0; i < np; i++) if(act[i]) if(m[i][k] < a) a = m[i][k];
		vc_assume((L - s - a > far) | (L - s - a == 0));
		dss[n++] = a;
		s += a;
		if(s == L) break;
	}
	vc_assume(s == L);
	nlog = 0;
	p.Track(d);
	int k = 0;
	for(int i = 0; i < np; i++, k++) vc_assert("component announced", (lkind[k] == Current) & (lwho[k] == i) & (q[i]->currentComponent == &d));
	for(int j = 0; j < n; j++)
		for(int i = 0; i < np; i++) if(act[i]) {
			vc_assert("active processes in order", (lkind[k] == Do) & (lwho[k] == i));
			vc_eq("smallest allowed step", lval[k], dss[j]);
			++k;
		}
	vc_assert("nothing else", nlog == k);
	vc_eq("distance travelled", p.GetIntegratedLength(), before + L);
	vc_reach("post");
}
VC_ENTRY(no_process) { steps(0); }
VC_ENTRY(one_process) { steps(1); }
VC_ENTRY(two_processes) { steps(2); }

// ---- a line of frames
struct MockBunch: public Bunch
{
	MockBunch() : Bunch(1.0, 1.0) {}
	virtual double GetTotalCharge() const { return 0; }
	virtual PSmoments& GetMoments(PSmoments& s) const { return s; }
	virtual PSmoments2D& GetProjectedMoments(PScoord, PScoord, PSmoments2D& s) const { return s; }
	virtual PSvector& GetCentroid(PSvector& p) const { return p; }
	virtual Point2D GetProjectedCentroid(PScoord, PScoord) const { return Point2D(); }
	virtual double AdjustRefMomentumToMean() { return 0; }
	virtual double AdjustRefTimeToMean() { return 0; }
	virtual void Output(std::ostream&) const {}
	virtual Histogram& ProjectDistribution(PScoord, Histogram& h) const { return h; }
	virtual bool ApplyTransformation(const Transform3D& t) { note(Transform, 0, t.X().x); return true; }
};
struct Ctor: public BunchConstructor { virtual Bunch* ConstructBunch(int) const { return new MockBunch; } };
struct Super: public LatticeFrame      // a parent that is no boundary of its frames
{
	virtual bool IsBoundaryPlane(BoundaryPlane, const LatticeFrame*) const { return false; }
	virtual void Invalidate() const {}
	virtual ModelElement* Copy() const { return nullptr; }
	virtual const std::string& GetType() const { return GetName(); }
	virtual void ConsolidateConstruction() {}
	virtual void AppendBeamlineIndexes(std::vector<size_t>&) const {}
};
struct Frame: public ComponentFrame    // patches at both ends
{
	Transform3D in, out; bool hasIn, hasOut;
	Frame(AcceleratorComponent* c, bool i, bool o, double a, double b) : ComponentFrame(c, "frame"), in(Transform3D::translation(a, 0, 0)), out(Transform3D::translation(b, 0, 0)), hasIn(i), hasOut(o)
		{ if(c) SetGeometry(c->GetGeometry()); }
	virtual const Transform3D* GetEntranceGeometryPatch() const { return hasIn ? &in : nullptr; }
	virtual const Transform3D* GetExitGeometryPatch() const { return hasOut ? &out : nullptr; }
};
struct Output: public SimulationOutput
{
	virtual void Record(const ComponentFrame* f, const Bunch*) { note(Recorded, 1 + (int) f->GetBeamlineIndex(), 0); }
	virtual void RecordInitialBunch(const Bunch*) { note(Recorded, 100, 0); }
	virtual void RecordFinalBunch(const Bunch*) { note(Recorded, 101, 0); }
};
struct Line
{
	Super super; Drift d0, d1; Frame f0, f1; std::vector<ComponentFrame*> v; Output out; Proc* p;
	double mis[2], pin[2], pout[2];
	bool hin[2], hout[2], comp1;
	Line() : d0("a", 1.0), d1("b", 2.0), f0(&d0, hin[0] = vc_bool("entrance patch"), hout[0] = vc_bool("exit patch"), pin[0] = vc_real("in 0"), pout[0] = vc_real("out 0")),
		f1((comp1 = vc_bool("second is a component")) ? &d1 : nullptr, hin[1] = true, hout[1] = false, pin[1] = vc_real("in 1"), pout[1] = 0)
	{
		for(int k = 0; k < 2; k++) {
			Frame& f = k ? f1 : f0;
			mis[k] = vc_idx("misaligned", k);
			if(k == 0 || comp1) { f.SetSuperFrame(&super); f.TranslateX(mis[k]); }
			f.blI = k;
			v.push_back(&f);
		}
		out.output_all = vc_bool("record all"); out.output_initial = vc_bool("record initial"); out.output_final = vc_bool("record final");
		p = new Proc(0, 0);
		p->active = true;
		for(int k = 0; k < 4; k++) p->m[k] = 100;
	}
	int frame(int k, int f, bool incX, bool skipIn)   // expected calls of one frame from log entry k on
	{
		bool comp = f == 0 || comp1;
		if(incX && !skipIn) { vc_assert("entrance plane", lkind[k] == Transform); vc_eq("misalignment", lval[k], comp ? mis[f] : 0); ++k; }
		if(hin[f]) { vc_assert("entrance patch", lkind[k] == Transform); vc_eq("of the frame", lval[k], pin[f]); ++k; }
		if(comp) {
			vc_assert("component", (lkind[k] == Current) & (lkind[k + 1] == Do)); ++k;
			vc_eq("its length", lval[k], f ? 2 : 1); ++k;
		}
		if(hout[f]) { vc_assert("exit patch", lkind[k] == Transform); vc_eq("of the frame", lval[k], pout[f]); ++k; }
		if(incX) { vc_assert("exit plane", lkind[k] == Transform); vc_eq("back", lval[k], comp ? -mis[f] : 0); ++k; }
		if(comp && out.output_all) { vc_assert("output", (lkind[k] == Recorded) & (lwho[k] == 1 + f)); ++k; }
		return k;
	}
};
VC_ENTRY(run)            // bounded: a line of two frames
{
	Line l;
	bool flat = vc_bool("flat"), axis = vc_bool("inject on axis");
	TrackingSimulation t(AcceleratorModel::Beamline(l.v.begin(), l.v.end() - 1, 0, 1));
	t.AddProcess(l.p);
	t.SetInitialBunchCtor(new Ctor);
	t.SetOutput(&l.out);
	t.AssumeFlatLattice(flat);
	t.InjectBeamOnAxis(axis);
	nlog = 0;
	Bunch& b = t.Run();
	int k = 0;
	if(l.out.output_initial) { vc_assert("initial", lwho[k] == 100); ++k; }
	vc_assert("process initialised", lkind[k] == Init); ++k;
	k = l.frame(k, 0, !flat, axis);
	k = l.frame(k, 1, !flat, false);
	if(l.out.output_final) { vc_assert("final", lwho[k] == 101); ++k; }
	vc_assert("nothing else", nlog == k);
	vc_assert("the tracked bunch is returned", &b == t.bunch);
	vc_reach("post");
}
VC_ENTRY(stepping)       // bounded: a line of two frames; the same as a run
{
	Line l;
	bool flat = vc_bool("flat");
	TrackingSimulation t(AcceleratorModel::Beamline(l.v.begin(), l.v.end() - 1, 0, 1));
	t.AddProcess(l.p);
	t.SetInitialBunchCtor(new Ctor);
	t.SetOutput(&l.out);
	t.AssumeFlatLattice(flat);
	nlog = 0;
	t.InitStepper(true);
	vc_assert("process initialised", (nlog == 1) & (lkind[0] == Init));
	vc_assert("first frame", &t.GetCurrentFrame() == &l.f0);
	bool more = t.StepComponent();
	int k = l.frame(1, 0, !flat, false);
	vc_assert("one frame per step", nlog == k);
	vc_assert("more to come", more);
	vc_assert("second frame", &t.GetCurrentFrame() == &l.f1);
	more = t.StepComponent();
	k = l.frame(k, 1, !flat, false);
	vc_assert("one frame per step", nlog == k);
	vc_assert("end of the line", !more);
	vc_reach("post");
}
VC_ENTRY(ring)           // bounded: a ring of two frames is tracked once round from where it starts
{
	Line l;
	int from = vc_int("from", 0, 1);
	bool flat = vc_bool("flat");
	typedef AcceleratorModel::FlatLattice FL;
	FL fl(l.v.begin(), l.v.end());
	TrackingSimulation t(AcceleratorModel::RingIterator(fl, fl.begin() + from));
	t.AddProcess(l.p);
	t.SetInitialBunchCtor(new Ctor);
	t.AssumeFlatLattice(flat);
	l.out.output_all = false;
	nlog = 0;
	t.Run();
	int k = l.frame(1, from, !flat, false);
	k = l.frame(k, 1 - from, !flat, false);
	vc_assert("once round", nlog == k);
	Bunch* b = t.bunch;
	nlog = 0;
	t.Continue();
	k = l.frame(0, from, !flat, false);
	k = l.frame(k, 1 - from, !flat, false);
	vc_assert("once more without initialising", nlog == k);
	vc_assert("same bunch", t.bunch == b);
	vc_reach("post");
}
