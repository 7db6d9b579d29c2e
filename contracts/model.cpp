// VC: units = AcceleratorModelConstructor.cpp AcceleratorModel.cpp ElementRepository.cpp StringPattern.cpp SequenceFrame.cpp LatticeFrame.cpp ComponentFrame.cpp SupportStructure.cpp StandardMultipoles.cpp RectMultipole.cpp MultipoleField.cpp EMField.cpp Drift.cpp Marker.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp Transform3D.cpp Rot3Drep.cpp AxisRotations.cpp GeneralRotation.cpp IdentityRotation.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp ChannelServer.cpp Channels.cpp Transformable.cpp
// Contract of the construction of a model and of the selection of its parts.
#include "vc.h"
#include "AcceleratorModelConstructor.h"
#include "ChannelServer.h"
#include "StandardMultipoles.h"
#include "Drift.h"
#include "Marker.h"
#include "PatchFrame.h"
#include "GeometryPatch.h"
#include "SequenceFrame.h"
#include "ring_iterator.h"
ChannelServer* ConstructChannelServer() { return new ChannelServer(); }

static ComponentFrame* made[4]; static AcceleratorComponent* comp[4]; static double len[4]; static int kind[4];
static const char* const names[] = {"M0", "M1", "Q2", "M0"};
static ComponentFrame* make(int i, const char* choice, const char* l)
{
	kind[i] = vc_int(choice, 0, 2);
	if(kind[i] == 0) { len[i] = vc_pos(l); Quadrupole* q = new Quadrupole(names[i], len[i], 1.0); comp[i] = q; made[i] = new TComponentFrame<Quadrupole>(*q); }
	else if(kind[i] == 1) { len[i] = 0; Marker* m = new Marker(names[i]); comp[i] = m; made[i] = new TComponentFrame<Marker>(*m); }
	else { len[i] = 0; comp[i] = nullptr; made[i] = new PatchFrame(nullptr, names[i]); }
	return made[i];
}
static void listed(AcceleratorModel* m)
{
	vc_assert("every component once", m->lattice.size() == 4);
	double s = 0;
	size_t elements = 0;
	for(int i = 0; i < 4; i++) {
		vc_assert("in order", m->lattice[i] == made[i]);
		vc_assert("index of the frame", made[i]->GetBeamlineIndex() == (size_t) i);
		if(comp[i] != nullptr) vc_assert("index of the component", comp[i]->GetBeamlineIndex() == (size_t) i);
		vc_assert("frame in the repository", m->theElements->theElements.count(made[i]) == 1);
		if(comp[i] != nullptr) vc_assert("component in the repository", m->theElements->theElements.count(comp[i]) == 1);
		elements += comp[i] != nullptr ? 2 : 1;
		s += len[i];
	}
	vc_assert("nothing else in the repository", m->theElements->Size() == elements + (m->theElements->Size() > elements ? 1 : 0));
	vc_eq("length", m->GetGlobalFrame().GetGeometryLength(), s);
	AcceleratorModel::Beamline b = m->GetBeamline();
	int k = 0;
	for(AcceleratorModel::BeamlineIterator i = b.begin(); i != b.end(); i++, k++) vc_assert("beamline", *i == made[k]);
	vc_assert("beamline complete", (k == 4) & (b.first_index() == 0) & (b.last_index() == 3));
}
VC_ENTRY(line)          // components appended one by one, two of them inside a frame of their own
{
	AcceleratorModelConstructor c;
	int depth = vc_int("nested", 0, 2);
	SequenceFrame* f = new SequenceFrame("F", SequenceFrame::originAtCenter);
	c.AppendComponentFrame(make(0, "k0", "l0"));
	if(depth == 1) c.NewFrame(f);
	vc_assert("depth", c.GetCurrentFrameDepth() == (depth == 1 ? 1 : 0));
	if(depth < 2) {
		c.AppendComponentFrame(make(1, "k1", "l1"));
		c.AppendComponentFrame(make(2, "k2", "l2"));
	}
	else {          // a frame made beforehand
		f->AppendFrame(*make(1, "k1", "l1")); f->AppendFrame(*make(2, "k2", "l2"));
		c.AppendFrame(f);
	}
	if(depth == 1) c.EndFrame();
	vc_assert("depth", c.GetCurrentFrameDepth() == 0);
	c.AppendComponentFrame(make(3, "k3", "l3"));
	AcceleratorModel* m = c.GetModel();
	listed(m);
	if(depth > 0) {
		std::vector<size_t> ix;
		f->AppendBeamlineIndexes(ix);
		vc_assert("indexes of a frame", (ix.size() == 2) && (ix[0] == 1) && (ix[1] == 2));
		vc_assert("frame in the repository", m->theElements->theElements.count(f) == 1);
	}
	vc_reach("post");
}
VC_ENTRY(with_drifts)   // a distance before a component becomes a drift
{
	AcceleratorModelConstructor c;
	double d = vc_pos("d");
	vc_assume_far(d, 0, 1e-9);
	bool with = vc_bool("gap");
	Quadrupole* q = c.AppendComponent(new Quadrupole("Q", 1.0, 1.0), with ? d : 0.0);
	AcceleratorModel* m = c.GetModel();
	bool gap = m->lattice.size() == 2;
	vc_assert("drift before", gap == with);
	vc_assert("the component last", &m->lattice.back()->GetComponent() == q);
	if(gap) vc_eq("drift length", m->lattice[0]->GetComponent().GetLength(), d);
	vc_eq("length", m->GetGlobalFrame().GetGeometryLength(), gap ? 1.0 + d : 1.0);
	vc_reach("post");
}
static AcceleratorModel* mixture()        // quadrupole, marker, patch or marker, quadrupole
{
	AcceleratorModelConstructor c;
	for(int i = 0; i < 4; i++) {
		kind[i] = i == 2 ? (vc_bool("patch") ? 2 : 1) : i == 1 ? 1 : 0;
		if(kind[i] == 0) { len[i] = 1 + i; Quadrupole* q = new Quadrupole(names[i], len[i], 1.0); comp[i] = q; made[i] = new TComponentFrame<Quadrupole>(*q); }
		else if(kind[i] == 1) { len[i] = 0; Marker* m = new Marker(names[i]); comp[i] = m; made[i] = new TComponentFrame<Marker>(*m); }
		else { len[i] = 0; comp[i] = nullptr; made[i] = new PatchFrame(nullptr, names[i]); }
		c.AppendComponentFrame(made[i]);
	}
	return c.GetModel();
}
VC_ENTRY(ranges)
{
	AcceleratorModel* m = mixture();
	int a = vc_int("first", 0, 3), b = vc_int("last", 0, 4);
	bool bad = false;
	try {
		AcceleratorModel::Beamline l = m->GetBeamline(a, b);
		vc_assert("ends", (&l.First() == made[a]) & (&l.Last() == made[b]) & (l.first_index() == (size_t) a) & (l.last_index() == (size_t) b));
		vc_assert("length", l.end() - l.begin() == b - a + 1);
	}
	catch(AcceleratorModel::BadRange&) { bad = true; }
	vc_assert("range checked", bad == (b > 3));
	AcceleratorModel::RingIterator r = m->GetRing(a);
	for(int k = 0; k < 6; k++) { vc_assert("ring", *r == made[(a + k) % 4]); if(k % 2) ++r; else r++; }
	for(int k = 6; k > 0; k--) { vc_assert("ring backwards", *r == made[(a + k) % 4]); if(k % 2) --r; else r--; }
	vc_reach("post");
}
VC_ENTRY(named_ranges)          // between the n-th components of given names
{
	AcceleratorModel* m = mixture();
	bool patch = kind[2] == 2;
	int n = vc_int("n", 1, 3);
	bool bad = false;
	try {
		AcceleratorModel::Beamline l = m->GetBeamline("Quadrupole.M0", "Quadrupole.*", 1, n);
		vc_assert("ends", (&l.First() == made[0]) & (&l.Last() == made[3]) & (l.first_index() == 0) & (l.last_index() == 3));
	}
	catch(AcceleratorModel::BadRange&) { bad = true; }
	vc_assert("found", bad == (n != 1));
	bad = false;
	try {
		AcceleratorModel::Beamline l = m->GetBeamline("Marker.*", "*.M0", 1, n);
		vc_assert("ends", (&l.First() == made[1]) & (&l.Last() == made[n == 1 ? 0 : 3]));
	}
	catch(AcceleratorModel::BadRange&) { bad = true; }
	vc_assert("found", bad == (n == 3));
	(void) patch;
	vc_reach("post");
}
VC_ENTRY(extracted)
{
	AcceleratorModel* m = mixture();
	bool patch = kind[2] == 2;
	std::vector<ComponentFrame*> f;
	vc_assert("all", (m->ExtractComponents("*", f) == 4) && (f[0] == made[0]) && (f[1] == made[1]) && (f[2] == made[2]) && (f[3] == made[3]));
	vc_assert("by name", (m->ExtractComponents("*M0", f) == 2) && (f.size() == 2) && (f[0] == made[0]) && (f[1] == made[3]));
	vc_assert("by type", (m->ExtractComponents("Marker.*", f) == (patch ? 1 : 2)) && (f[0] == made[1]) && (patch || f[1] == made[2]));
	vc_assert("none", (m->ExtractComponents("Drift.*", f) == 0) && f.empty());
	std::vector<TComponentFrame<Marker>*> t;
	vc_assert("typed frames", (m->ExtractTypedComponents(t) == (patch ? 1 : 2)) && (t[0] == made[1]) && (patch || t[1] == made[2]));
	std::vector<Quadrupole*> q;
	vc_assert("typed elements", (m->ExtractTypedElements(q) == 2) && ((q[0] == comp[0] && q[1] == comp[3]) || (q[0] == comp[3] && q[1] == comp[0])));
	std::vector<Quadrupole*> q1;
	vc_assert("typed elements by name", (m->ExtractTypedElements(q1, "*0") == 2) && (q1.size() == 2));
	std::vector<AcceleratorModel::Index> ix;
	vc_assert("indexes", (m->GetIndexes("Quadrupole.*", ix) == 2) && (ix[0] == 0) && (ix[1] == 3));
	vc_assert("indexes in a range", (m->GetIndexes(m->GetBeamline(1, 3), "*.*", ix) == (patch ? 2 : 3)) && (ix[0] == 1) && (ix[ix.size() - 1] == 3));
	std::vector<ModelElement*> e;
	vc_assert("elements by name", (m->ExtractModelElements("Quadrupole.*", e) == 2) && ((e[0] == comp[0] && e[1] == comp[3]) || (e[0] == comp[3] && e[1] == comp[0])));
	vc_assert("counted", m->theElements->Count("Marker.*") == (size_t) (patch ? 1 : 2));
	vc_reach("post");
}
VC_ENTRY(installed)     // an element without length put into a drift splits the drift
{
	AcceleratorModelConstructor c;
	double a = vc_pos("a"), b = vc_pos("b"), at = vc_real("at");
	vc_assume(at > a); vc_assume(at < a + b);
	Quadrupole* q = c.AppendComponent(new Quadrupole("Q", a, 1.0));
	bool patch = vc_bool("patch");
	if(patch) c.AppendComponentFrame(new PatchFrame(nullptr, "P"));
	size_t n = patch ? 2 : 1;
	c.AppendComponent(new Drift("D", b));
	Quadrupole* r = c.AppendComponent(new Quadrupole("R", 1.0, 1.0));
	AcceleratorModel* m = c.GetModel();
	Marker* k = new Marker("K");
	m->InstallModelElement(k, at);
	vc_assert("two more", m->lattice.size() == n + 4);
	vc_assert("neighbours stay", (&m->lattice[0]->GetComponent() == q) & (&m->lattice[n + 3]->GetComponent() == r));
	vc_assert("between the drifts", &m->lattice[n + 1]->GetComponent() == k);
	vc_eq("drift before", m->lattice[n]->GetComponent().GetLength(), at - a);
	vc_eq("drift behind", m->lattice[n + 2]->GetComponent().GetLength(), a + b - at);
	for(size_t i = 0; i < n + 4; i++) vc_assert("index", m->lattice[i]->GetBeamlineIndex() == i);
	vc_assert("element in the repository", m->theElements->theElements.count(k) == 1);
	vc_eq("place", k->GetComponentLatticePosition(), at);
	vc_reach("post");
}
