// VC: units = LatticeFrame.cpp ComponentFrame.cpp SupportStructure.cpp MagnetMover.cpp AcceleratorSupport.cpp Transformable.cpp Transform3D.cpp Rot3Drep.cpp IdentityRotation.cpp AxisRotations.cpp GeneralRotation.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp Drift.cpp SectorBend.cpp MultipoleField.cpp EMField.cpp AcceleratorComponent.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp MerlinIO.cpp MatrixPrinter.cpp
// VC: nodiv = 1
// Contracts of the geometry of elements and the frames they sit in.
#include "vc.h"
#include "LatticeFrame.h"
#include "SequenceFrame.cpp"
#include "ComponentFrame.h"
#include "TComponentFrame.h"
#include "PatchFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "RectangularGeometry.h"
#include "ArcGeometry.h"
#include "Drift.h"
#include "SectorBend.h"

static const double tiny = 1e-12;
static Point3D pt() { return Point3D(vc_real("x"), vc_real("y"), vc_real("z")); }
// both transformations act alike on any point (and hence on directions)
static void same(const char* id, const Transform3D& a, const Transform3D& b, const Point3D& p)
{
	Point3D u = a(p), v = b(p);
	vc_eq(id, u.x, v.x); vc_eq(id, u.y, v.y); vc_eq(id, u.z, v.z);
}
static bool beyond(const AcceleratorGeometry& g, double a, double b)
{
	try { g.GetGeometryTransform(a, b); }
	catch(AcceleratorGeometry::BeyondExtent&) { return true; }
	return false;
}
template<class G> static void element(G& g, double L, double h)
{
	double s[3];
	for(int k = 0; k < 3; k++) { s[k] = vc_idx("s", k, -0.2, 0.2); vc_assume((-L / 2 <= s[k]) & (s[k] <= L / 2)); }
	if(h != 0)               // angles are larger than the tolerance of the code
		for(int i = 0; i < 3; i++) {
			vc_assume(vc_far(h * s[i], 0, tiny));
			for(int j = 0; j < i; j++) vc_assume(vc_far(h * s[i], h * s[j], tiny));
		}
	Point3D p = pt();
	Transform3D a = g.GetGeometryTransform(s[0], s[1]), b = g.GetGeometryTransform(s[1], s[2]);
	same("two steps are one", b * a, g.GetGeometryTransform(s[0], s[2]), p);
	same("way back", g.GetGeometryTransform(s[1], s[0]) * a, Transform3D(), p);
	same("nowhere", g.GetGeometryTransform(s[0], s[0]), Transform3D(), p);
	same("from the origin", static_cast<AcceleratorGeometry&>(g).GetGeometryTransform(s[1]), g.GetGeometryTransform(0, s[1]), p);
	same("entrance plane", g.GetGeometryTransform(AcceleratorGeometry::entrance), g.GetGeometryTransform(0, -L / 2), p);
	same("exit plane", g.GetGeometryTransform(AcceleratorGeometry::exit), g.GetGeometryTransform(0, L / 2), p);
	same("from plane to plane", g.GetTotalGeometryTransform(), g.GetGeometryTransform(-L / 2, L / 2), p);
	vc_eq("length", g.GetGeometryLength(), L);
	AcceleratorGeometry::Extent e = g.GetGeometryExtent();
	vc_eq("extent", e.first, -L / 2); vc_eq("extent", e.second, L / 2);
	double o = vc_pos("outside");
	vc_assert("nothing beyond the planes", beyond(g, s[0], L / 2 + o) & beyond(g, -L / 2 - o, s[1]));
	// the reference orbit runs along the local z axis and curves towards negative x with curvature h
	double d[3];
	vc_derivative([&](double u, double* r) { Point3D q = g.GetGeometryTransform(s[0], u).inv()(Point3D(0, 0, 0)); r[0] = q.x; r[1] = q.y; r[2] = q.z; }, s[1], 3, d);
	Vector3D z = a.inv()(Vector3D(0, 0, 1)), x = a.inv()(Vector3D(1, 0, 0));
	vc_eq("tangent", d[0], z.x); vc_eq("tangent", d[1], z.y); vc_eq("tangent", d[2], z.z);
	vc_derivative([&](double u, double* r) { Vector3D q = g.GetGeometryTransform(s[0], u).inv()(Vector3D(0, 0, 1)); r[0] = q.x; r[1] = q.y; r[2] = q.z; }, s[1], 3, d);
	vc_eq("curvature", d[0], -h * x.x); vc_eq("curvature", d[1], -h * x.y); vc_eq("curvature", d[2], -h * x.z);
	vc_derivative([&](double u, double* r) { Vector3D q = g.GetGeometryTransform(s[0], u).inv()(Vector3D(0, 1, 0)); r[0] = q.x; r[1] = q.y; r[2] = q.z; }, s[1], 3, d);
	vc_eq("no torsion", d[0], 0); vc_eq("no torsion", d[1], 0); vc_eq("no torsion", d[2], 0);
	vc_reach("post");
}
VC_ENTRY(straight) { double L = vc_real_("L", 0.5, 2); vc_assume(L > 0); RectangularGeometry g(L); element(g, L, 0); }
VC_ENTRY(arc)
{
	double L = vc_real_("L", 0.5, 2), h = vc_real("h");
	vc_assume(L > 0); vc_assume_far(h, 0, tiny); vc_assume_far(L * h, 0, 3 * tiny);
	ArcGeometry g(L, h);
	vc_eq("angle", g.GetAngle(), L * h);
	element(g, L, h);
}
VC_ENTRY(flat_arc) { double L = vc_real_("L", 0.5, 2); vc_assume(L > 0); ArcGeometry g(L, 0); element(g, L, 0); }

VC_ENTRY(movements)      // translations and rotations act in the current frame of the object, one after the other
{
	double a[6];
	for(int k = 0; k < 6; k++) a[k] = vc_idx("a", k);
	Point3D p = pt();
	Drift d("d", 1.0);
	ComponentFrame f(d);
	vc_assert("untouched", !f.IsTransformed());
	same("untouched", f.GetLocalFrameTransform(), Transform3D(), p);
	f.TranslateX(a[0]); f.RotateY(a[1]); f.Translate(a[2], a[3], a[4]); f.RotateX(a[5]);
	Transform3D t = Transform3D::rotationX(a[5]) * (Transform3D::translation(a[2], a[3], a[4]) * (Transform3D::rotationY(a[1]) * Transform3D::translation(a[0], 0, 0)));
	same("in the order they were made", f.GetLocalFrameTransform(), t, p);
	ComponentFrame g(f);
	same("copied", g.GetLocalFrameTransform(), t, p);
	vc_eq("copied length", g.GetGeometryLength(), 1);
	f.RotateZ(a[0]); f.TranslateY(a[1]); f.TranslateZ(a[2]);
	Transform3D t2 = Transform3D::translation(0, a[1], a[2]) * (Transform3D::rotationZ(a[0]) * t);
	same("more", f.GetLocalFrameTransform(), t2, p);
	same("copy unaffected", g.GetLocalFrameTransform(), t, p);
	Transform3D o = Transform3D::translation(a[3], a[4], a[5]);
	f.ApplyLocalFrameTransform(o);
	same("applied", f.GetLocalFrameTransform(), o * t2, p);
	f.SetLocalFrameTransform(t);
	same("set", f.GetLocalFrameTransform(), t, p);
	f.ClearLocalFrameTransform();
	same("cleared", f.GetLocalFrameTransform(), Transform3D(), p);
	f.SetLocalFrameTransform(o);
	same("set anew", f.GetLocalFrameTransform(), o, p);
	vc_reach("post");
}
// a frame with a bend inside a frame inside the model
struct Nest
{
	SequenceFrame top, girder; SectorBend b; Drift d0, d1; ComponentFrame f0, f, f1;
	double L, h, l0, l1; Transform3D tf, tg;
	// before, after: whether there are neighbours in the girder
	Nest(bool before, bool after, bool moved) : top("TOP", SequenceFrame::originAtEntrance), girder("G", SequenceFrame::originAtEntrance),
		b("b", L = vc_real_("L", 0.5, 2), h = vc_real("h"), 1.0), d0("d0", l0 = vc_real_("l0", 0.5, 2)), d1("d1", l1 = vc_real_("l1", 0.5, 2)), f0(d0), f(b), f1(d1)
	{
		vc_assume((L > 0.1) & (l0 > 0.1) & (l1 > 0.1)); vc_assume_far(h, 0, 1e-9);
		if(before) girder.AppendFrame(f0);
		girder.AppendFrame(f);
		if(after) girder.AppendFrame(f1);
		top.AppendFrame(girder);
		top.ConsolidateConstruction();
		tf = Transform3D(Point3D(vc_real("fx"), vc_real("fy"), vc_real("fz")), Rotation3D::rotationX(vc_real("fa")));
		vc_assume_far(tf.X().x, 0, tiny);        // more than the tolerance below which a frame counts as untouched
		f.SetLocalFrameTransform(tf);
		if(moved) {
			tg = Transform3D(Point3D(vc_real("gx"), vc_real("gy"), vc_real("gz")), Rotation3D::rotationZ(vc_real("ga")));
			vc_assume_far(tg.X().x, 0, tiny);
			girder.SetLocalFrameTransform(tg);
		}
	}
};
static Transform3D line(double s) { return Transform3D::translation(0, 0, s); }
VC_ENTRY(planes)         // the misaligned frame at the planes of the element
{
	bool before = vc_bool("neighbour before"), after = vc_bool("neighbour after"), moved = vc_bool("girder moved");
	Nest n(before, after, moved);
	Point3D p = pt();
	Transform3D in = n.b.GetGeometry().GetGeometryTransform(0, -n.L / 2), out = n.b.GetGeometry().GetGeometryTransform(0, n.L / 2);
	Transform3D a = in * n.tf * in.inv(), b = out * n.tf * out.inv();     // local, as seen at the planes
	double lg = n.L + (before ? n.l0 : 0) + (after ? n.l1 : 0);
	if(moved && !before) a = a * n.tg;               // the origin of the girder is its entrance
	if(moved && !after) {
		Transform3D go = n.b.GetGeometry().GetTotalGeometryTransform();
		if(before) go = go * line(n.l0);
		b = b * (go * n.tg * go.inv());
	}
	vc_eq("length of the girder", n.girder.GetGeometryLength(), lg);
	same("into the misaligned frame", n.f.GetEntrancePlaneTransform(), a, p);
	same("out of the misaligned frame", n.f.GetExitPlaneTransform(), b.inv(), p);
	same("both planes of the boundary query", n.f.GetBoundaryPlaneTransform(AcceleratorGeometry::exit), b, p);
	if(!moved) same("through the element", n.f.GetExitPlaneTransform() * n.b.GetGeometry().GetTotalGeometryTransform() * n.f.GetEntrancePlaneTransform(), n.b.GetGeometry().GetTotalGeometryTransform(), p);
	vc_reach("post");
}
VC_ENTRY(placement)      // where a frame is, and where it would be without misalignment
{
	Nest n(true, vc_bool("neighbour after"), true);
	Point3D p = pt();
	Transform3D in = n.b.GetGeometry().GetGeometryTransform(-n.L / 2, 0);
	Transform3D nom = in * line(n.l0);               // nominal, from the entrance of the girder
	Transform3D phys = n.tf * nom * n.tg;
	vc_eq("position in the girder", n.f.GetLocalPosition(), n.l0 + n.L / 2);
	vc_eq("position in the model", n.f.GetPosition(), n.l0 + n.L / 2);
	vc_eq("position in the model", n.f.GetPosition(&n.top), n.l0 + n.L / 2);
	vc_eq("position in the girder", n.f.GetPosition(&n.girder), n.l0 + n.L / 2);
	vc_eq("position in itself", n.f.GetPosition(&n.f), 0);
	AcceleratorGeometry::Extent e = n.f.GetGeometryExtent();
	vc_eq("extent", e.first, n.l0); vc_eq("extent", e.second, n.l0 + n.L);
	same("own frame", n.f.GetPhysicalTransform(&n.f), Transform3D(), p);
	same("from the girder", n.f.GetPhysicalTransform(&n.girder), n.tf * nom, p);
	same("from the girder", n.f.GetLocalPhysicalTransform(), n.tf * nom, p);
	same("from the model", n.f.GetPhysicalTransform(), phys, p);
	same("from the model", n.f.GetPhysicalTransform(&n.top), phys, p);
	same("misalignment in itself", n.f.GetFrameTransform(&n.f), Transform3D(), p);
	same("misalignment in the girder", n.f.GetFrameTransform(&n.girder), n.tf, p);
	same("misalignment in the model", n.f.GetFrameTransform(), phys * nom.inv(), p);
	same("misalignment in the model", n.f.GetFrameTransform(&n.top), phys * nom.inv(), p);
	vc_assert("global frame", (n.f.GetGlobalFrame() == &n.top) & n.top.IsGlobalFrame() & !n.f.IsGlobalFrame());
	vc_reach("post");
}
// a sequence of a straight, a bend and a straight with its origin at either end or in the middle;
// places are a boundary between frames (0, 2, 4, 6) or the distance t into a frame (1, 3, 5)
struct Lengths
{
	SequenceFrame::Origin o; double l0, L, h, l1, c; int where; double e;
	Lengths(bool consolidated) : o((SequenceFrame::Origin) vc_int("origin", 0, 2)), l0(vc_real_("l0", 0.5, 2)), L(vc_real_("L", 0.5, 2)), h(vc_real("h")), where(0), e(0)
	{
		vc_assume((L > 0.1) & (l0 > 0.1)); vc_assume_far(h, 0, 1e-9); vc_assume_far(h * L, 0, tiny);
		if(o == SequenceFrame::originAtCenter && consolidated) {      // the middle lies anywhere: this settles the second straight
			where = vc_int("middle", 1, 5);
			if(where % 2) place("e", where, e);
			c = arc(where, e);
			l1 = 2 * c - l0 - L;
		}
		else l1 = vc_real_("l1", 0.5, 2);
		vc_assume(l1 > 0.1);
		if(o == SequenceFrame::originAtEntrance) { c = 0; where = 0; }
		if(o == SequenceFrame::originAtExit) { c = l0 + L + l1; where = 6; }
		if(o == SequenceFrame::originAtCenter) c = (l0 + L + l1) / 2;
	}
	void place(const char* n, int w, double& t)      // clearly inside of a frame
	{
		t = vc_real_(n, 0, 2);
		vc_assume(t > 1e-6);
		if(w == 1) vc_assume(l0 - t > 1e-6);
		if(w == 3) { vc_assume(L - t > 1e-6); bend(t); bend(L - t); bend(t - L / 2); }
	}
	void bend(double t) { vc_assume(vc_far(h * t, 0, tiny)); }
	double arc(int w, double t) { return w == 0 ? 0 : w == 1 ? t : w == 2 ? l0 : w == 3 ? l0 + t : w == 4 ? l0 + L : w == 5 ? l0 + L + t : l0 + L + l1; }
};
struct Seq: public Lengths
{
	SequenceFrame s; double len; Drift d0, d1; SectorBend b; ComponentFrame f0, f, f1;
	Seq(bool consolidated) : Lengths(consolidated), s("S", o), len(l0 + L + l1), d0("d0", l0), d1("d1", l1), b("b", L, h, 1.0), f0(d0), f(b), f1(d1)
	{
		s.AppendFrame(f0); s.AppendFrame(f); s.AppendFrame(f1);
		if(consolidated) s.ConsolidateConstruction();
	}
	// the reference frame at a place as seen from the entrance
	Transform3D at(int w, double t)
	{
		ArcGeometry& g = b.GetGeometry();
		if(w < 2) return line(t);
		if(w == 2) return line(l0);
		if(w == 3) return g.GetGeometryTransform(-L / 2, t - L / 2) * line(l0);
		return line(w == 4 ? 0 : w == 5 ? t : l1) * g.GetTotalGeometryTransform() * line(l0);
	}
};
VC_ENTRY(sequence)
{
	Seq q(true);
	Point3D p = pt();
	vc_eq("length", q.s.GetGeometryLength(), q.len);
	AcceleratorGeometry::Extent e = q.s.GetLocalGeometryExtent();
	vc_eq("extent", e.first, -q.c); vc_eq("extent", e.second, q.len - q.c);
	vc_eq("first", q.f0.GetLocalPosition(), q.l0 / 2 - q.c);
	vc_eq("second", q.f.GetLocalPosition(), q.l0 + q.L / 2 - q.c);
	vc_eq("third", q.f1.GetLocalPosition(), q.l0 + q.L + q.l1 / 2 - q.c);
	Transform3D in = q.at(q.where, q.e).inv(), out = q.at(6, 0) * in;
	same("entrance plane", q.s.GetGeometryTransform(AcceleratorGeometry::entrance), in, p);
	same("exit plane", q.s.GetGeometryTransform(AcceleratorGeometry::exit), out, p);
	same("from plane to plane", q.s.GetTotalGeometryTransform(), q.at(6, 0), p);
	q.s.ConsolidateConstruction();       // again
	same("entrance plane again", q.s.GetGeometryTransform(AcceleratorGeometry::entrance), in, p);
	same("exit plane again", q.s.GetGeometryTransform(AcceleratorGeometry::exit), out, p);
	vc_eq("second again", q.f.GetLocalPosition(), q.l0 + q.L / 2 - q.c);
	double x = vc_pos("outside"), v = vc_real("v");
	vc_assume((v >= -q.c) & (v <= q.len - q.c) & vc_far(x, 0, tiny));
	vc_assert("nothing beyond the planes", beyond(*q.s.GetGeometry(), v, q.len - q.c + x) & beyond(*q.s.GetGeometry(), -q.c - x, v));
	vc_reach("post");
}
VC_ENTRY(within)         // between any two places of a sequence
{
	Seq q(false);
	Point3D p = pt();
	int wu = vc_int("from", 0, 6), wv = vc_int("to", 0, 6);
	vc_assume(wu <= wv);
	double u = 0, v = 0;
	if(wu % 2) q.place("u", wu, u);
	if(wv % 2) q.place("v", wv, v);
	if(wu == wv && wu % 2) { vc_assume(v - u > 1e-6); if(wu == 3) q.bend(v - u); }
	if(wu == 5) vc_assume(q.l1 - u > 1e-6);
	if(wv == 5) vc_assume(q.l1 - v > 1e-6);
	double su = q.arc(wu, u) - q.c, sv = q.arc(wv, v) - q.c;
	Transform3D t = q.at(wv, v) * q.at(wu, u).inv();
	same("forwards", q.s.GetGeometryTransform(su, sv), t, p);
	same("backwards", q.s.GetGeometryTransform(sv, su), t.inv(), p);
	vc_reach("post");
}
VC_ENTRY(copied_sequence)
{
	Seq q(true);
	Point3D p = pt();
	Transform3D m = Transform3D::translation(vc_real("mx"), 0, 0);
	q.s.SetLocalFrameTransform(m);
	q.f.SetLocalFrameTransform(m);
	SequenceFrame* c = static_cast<SequenceFrame*>(q.s.Copy());
	vc_assert("three frames of its own", c->subFrames.size() == 3);
	LatticeFrame* k[3]; int n = 0;
	for(LatticeFrame* f : c->subFrames) k[n++] = f;
	vc_assert("not those of the original", (k[0] != &q.f0) & (k[1] != &q.f) & (k[2] != &q.f1));
	vc_assert("in the copy", (k[0]->superFrame == c) & (k[1]->superFrame == c) & (k[2]->superFrame == c));
	vc_assert("original undisturbed", (q.f.superFrame == &q.s) & (q.s.subFrames.size() == 3));
	vc_eq("length", c->GetGeometryLength(), q.len);
	AcceleratorGeometry::Extent e = c->GetLocalGeometryExtent();
	vc_eq("extent", e.first, -q.c); vc_eq("extent", e.second, q.len - q.c);
	vc_eq("position", k[1]->GetLocalPosition(), q.l0 + q.L / 2 - q.c);
	vc_eq("length of a frame", k[1]->GetGeometryLength(), q.L);
	same("misalignment", c->GetLocalFrameTransform(), m, p);
	same("misalignment of a frame", k[1]->GetLocalFrameTransform(), m, p);
	same("from plane to plane", c->GetTotalGeometryTransform(), q.at(6, 0), p);
	Transform3D in = q.at(q.where, q.e).inv();
	same("entrance plane", c->GetGeometryTransform(AcceleratorGeometry::entrance), in, p);
	q.s.ClearLocalFrameTransform(); q.f.ClearLocalFrameTransform();
	same("independent of the original", k[1]->GetLocalFrameTransform(), m, p);
	vc_reach("post");
}
VC_ENTRY(patch)
{
	Point3D p = pt();
	Transform3D t = Transform3D(Point3D(vc_real("px"), vc_real("py"), vc_real("pz")), Rotation3D::rotationY(vc_real("pa")));
	GeometryPatch* g = new GeometryPatch;
	g->local_T = new Transform3D(t);
	PatchFrame f(g, "patch");
	vc_assert("no component", !f.IsComponent());
	same("patch at the entrance", *f.GetEntranceGeometryPatch(), t, p);
	vc_assert("no patch at the exit", f.GetExitGeometryPatch() == nullptr);
	vc_eq("no length", f.GetGeometryLength(), 0);
	same("geometry", f.GetTotalGeometryTransform(), t, p);
	PatchFrame c(f);
	f.SetGeometryPatch(nullptr);
	same("copy keeps its own", *c.GetEntranceGeometryPatch(), t, p);
	same("geometry of the copy", c.GetTotalGeometryTransform(), t, p);
	vc_assert("removed", f.GetEntranceGeometryPatch() == nullptr);
	vc_reach("post");
}
VC_ENTRY(mover)          // moved in the transverse plane and rolled, on top of its misalignment
{
	Point3D p = pt();
	double x = vc_real("mx"), y = vc_real("my"), a = vc_in("roll", -3, 3);
	Drift d("d", 1.0);
	ComponentFrame f(d);
	MagnetMover m("m");
	m.AppendFrame(f);
	Transform3D t = Transform3D(Point3D(vc_real("px"), vc_real("py"), vc_real("pz")), Rotation3D::rotationY(vc_real("pa")));
	m.SetLocalFrameTransform(t);
	same("at rest", m.GetLocalFrameTransform(), t, p);
	m.SetX(x); m.SetY(y); m.SetRoll(a);
	vc_eq("x", m.GetX(), x); vc_eq("y", m.GetY(), y);
	same("moved", m.GetLocalFrameTransform(), Transform3D::rotationZ(a) * Transform3D::translation(x, y, 0) * t, p);
	m.Reset();
	same("reset", m.GetLocalFrameTransform(), t, p);
	vc_reach("post");
}
#define VEC(n) Vector3D(vc_real(n "x"), vc_real(n "y"), vc_real(n "z"))
struct Supported
{
	SequenceFrame top; Drift d0; SectorBend b0; Drift d; ComponentFrame f0, f1, f; double l0, L, h, l;
	Supported() : top("TOP", SequenceFrame::originAtEntrance), d0("d0", l0 = vc_real_("l0", 0.5, 2)), b0("b0", L = vc_real_("L", 0.5, 2), h = vc_real("h"), 1.0), d("d", l = vc_real_("l", 0.5, 2)), f0(d0), f1(b0), f(d)
	{ vc_assume((l0 > 0.1) & (L > 0.1) & (l > 0.1)); vc_assume_far(h, 0, 1e-9); }
	void place(SupportStructure& m) { m.AppendFrame(f); top.AppendFrame(f0); top.AppendFrame(f1); top.AppendFrame(m); top.ConsolidateConstruction(); }
	Transform3D before() { return b0.GetGeometry().GetTotalGeometryTransform() * line(l0); }
};
VC_ENTRY(simple_mount)
{
	Supported n;
	Point3D p = pt();
	SimpleMount m("m");
	n.place(m);
	AcceleratorSupportList sup;
	vc_assert("one support", (m.ExportSupports(sup) == 1) & (sup.size() == 1));
	Transform3D g = line(n.l / 2) * n.before();
	vc_eq("arc position", sup[0]->GetArcPosition(), n.l0 + n.L + n.l / 2);
	vc_eq("place", sup[0]->GetLocation().x, g.X().x); vc_eq("place", sup[0]->GetLocation().y, g.X().z);
	same("not moved", m.GetLocalFrameTransform(), Transform3D(), p);
	Vector3D o = VEC("o"), o2 = VEC("q");
	sup[0]->SetOffset(o);
	Vector3D X = g.R()(o);
	Transform3D t = Transform3D::translation(X.x, X.y, X.z);
	same("follows the ground", m.GetLocalFrameTransform(), t, p);
	sup[0]->IncrementOffset(o2);
	X = g.R()(o + o2);
	same("follows again", m.GetLocalFrameTransform(), Transform3D::translation(X.x, X.y, X.z), p);
	Transform3D mis = Transform3D(Point3D(vc_real("px"), vc_real("py"), vc_real("pz")), Rotation3D::rotationY(vc_real("pa")));
	m.SetLocalFrameTransform(mis);
	same("misaligned on its support", m.GetLocalFrameTransform(), mis * Transform3D::translation(X.x, X.y, X.z), p);
	sup[0]->Reset();
	same("back", m.GetLocalFrameTransform(), mis, p);
	vc_reach("post");
}
VC_ENTRY(girder_mount)
{
	Supported n;
	Point3D p = pt();
	GirderMount m("m");
	n.place(m);
	AcceleratorSupportList sup;
	vc_assert("two supports", (m.ExportSupports(sup) == 2) & (sup.size() == 2));
	Transform3D g1 = n.before(), g2 = line(n.l) * g1;
	vc_eq("arc position", sup[0]->GetArcPosition(), n.l0 + n.L); vc_eq("arc position", sup[1]->GetArcPosition(), n.l0 + n.L + n.l);
	vc_eq("place", sup[0]->GetLocation().x, g1.X().x); vc_eq("place", sup[0]->GetLocation().y, g1.X().z);
	vc_eq("place", sup[1]->GetLocation().x, g2.X().x); vc_eq("place", sup[1]->GetLocation().y, g2.X().z);
	vc_eq("distance", sup[0]->DistanceTo(*sup[1]) * sup[0]->DistanceTo(*sup[1]), n.l * n.l);
	vc_eq("distance", sup[1]->DistanceTo(*sup[0]), sup[0]->DistanceTo(*sup[1]));
	vc_assert("distance", sup[0]->DistanceTo(*sup[1]) >= 0);
	Vector3D o = VEC("o"), q = VEC("q");
	int which = vc_int("moved", 0, 2);         // both, the first, the second support
	if(which != 2) sup[0]->SetOffset(o); else o = Vector3D(0, 0, 0);
	if(which != 1) sup[1]->SetOffset(q); else q = Vector3D(0, 0, 0);
	Vector3D X1 = g1.R()(o), X2 = g1.R()(q), dX = X2 - X1;
	vc_assume_far(dX.x, 0, 1e-9); vc_assume_far(dX.y, 0, 1e-9);
	// displaced at the entrance and turned towards the displaced exit
	double D = sup[0]->DistanceTo(*sup[1]), ax = -dX.y / D, ay = dX.x / D;
	Transform3D T1(Point3D(X1.x, X1.y, X1.z), Rotation3D::rotationX(ax) * Rotation3D::rotationY(ay)), in = line(-n.l / 2);
	same("follows the ground", m.GetLocalFrameTransform(), in.inv() * T1 * in, p);
	same("unchanged ground", m.GetLocalFrameTransform(), in.inv() * T1 * in, p);
	sup[0]->SetOffset(o); sup[1]->SetOffset(o);
	same("moved as a whole", m.GetLocalFrameTransform(), Transform3D::translation(X1.x, X1.y, X1.z), p);
	GirderMount* c = static_cast<GirderMount*>(m.Copy());
	AcceleratorSupportList sc;
	vc_assert("copy with two supports of its own", (c->ExportSupports(sc) == 2) & (sc[0] != sup[0]) & (sc[1] != sup[1]));
	SimpleMount s("s");
	SimpleMount* cs = static_cast<SimpleMount*>(s.Copy());
	vc_assert("simple copy with one", cs->ExportSupports(sc) == 1);
	vc_reach("post");
}
