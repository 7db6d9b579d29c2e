// VC: units = Rot3Drep.cpp AxisRotations.cpp GeneralRotation.cpp IdentityRotation.cpp Transform3D.cpp NumericalConstants.cpp MatrixPrinter.cpp
// Contract: frame transformations are rigid motions and form a group under composition and inversion.
#include "vc.h"
#include "Transform3D.h"
#include "Transform2D.h"
#include "Rotation3D.h"

struct V { double x, y, z; };
static void eqp(const char* id, const Point3D& p, const V& q) { vc_eq(id, p.x, q.x); vc_eq(id, p.y, q.y); vc_eq(id, p.z, q.z); }
static void eqq(const char* id, const Point3D& p, const Point3D& q) { vc_eq(id, p.x, q.x); vc_eq(id, p.y, q.y); vc_eq(id, p.z, q.z); }
// reference rotation about one axis (0 = identity, 1 = x, 2 = y, 3 = z)
static V ref(int k, double a, const V& p)
{
	double c = std::cos(a), s = std::sin(a);
	V r = p;
	if(k == 1) { r.y = p.y * c + p.z * s; r.z = p.z * c - p.y * s; }
	if(k == 2) { r.x = p.x * c - p.z * s; r.z = p.z * c + p.x * s; }
	if(k == 3) { r.x = p.x * c + p.y * s; r.y = p.y * c - p.x * s; }
	return r;
}
static Rotation3D rot(int k, double a)
{
	if(k == 1) return Rotation3D::rotationX(a);
	if(k == 2) return Rotation3D::rotationY(a);
	if(k == 3) return Rotation3D::rotationZ(a);
	return Rotation3D::identity();
}
static V pt() { V p; p.x = vc_real("x"); p.y = vc_real("y"); p.z = vc_real("z"); return p; }
static Point3D P(const V& v) { return Point3D(v.x, v.y, v.z); }

VC_ENTRY(axis)
{
	int k = vc_int("k", 0, 3);
	double a = vc_real("a");
	V p = pt();
	vc_reach("pre");
	Rotation3D r = rot(k, a);
	eqp("axis rotation of a point", r(P(p)), ref(k, a, p));
	Vector3D v = r(Vector3D(p.x, p.y, p.z));
	V w = ref(k, a, p);
	vc_eq("axis rotation of a vector", v.x, w.x); vc_eq("axis rotation of a vector", v.y, w.y); vc_eq("axis rotation of a vector", v.z, w.z);
	eqp("inverse", r.inv()(P(p)), ref(k, -a, p));
	eqp("inverse undoes", (r.inv() * r)(P(p)), p);
	RealMatrix m(3, 3);
	r.getMatrix(m);
	vc_eq("matrix", m(0, 0) * p.x + m(0, 1) * p.y + m(0, 2) * p.z, w.x);
	vc_eq("matrix", m(1, 0) * p.x + m(1, 1) * p.y + m(1, 2) * p.z, w.y);
	vc_eq("matrix", m(2, 0) * p.x + m(2, 1) * p.y + m(2, 2) * p.z, w.z);
	vc_reach("post");
}
VC_ENTRY(compose2)      // every pair of rotation kinds
{
	int k1 = vc_int("k1", 0, 3), k2 = vc_int("k2", 0, 3);
	double a = vc_real("a"), b = vc_real("b");
	V p = pt();
	Rotation3D r = rot(k2, b) * rot(k1, a);
	V w = ref(k2, b, ref(k1, a, p));
	eqp("composition", r(P(p)), w);
	Vector3D v = r(Vector3D(p.x, p.y, p.z));
	vc_eq("composition of vectors", v.x, w.x); vc_eq("composition of vectors", v.y, w.y); vc_eq("composition of vectors", v.z, w.z);
	eqp("inverse of a composition", r.inv()(P(p)), ref(k1, -a, ref(k2, -b, p)));
	vc_reach("post");
}
VC_ENTRY(compose3)      // general with axis, axis with general, general with general
{
	int k1 = vc_int("k1", 1, 3), k2 = vc_int("k2", 1, 3), k3 = vc_int("k3", 0, 3);
	double a = vc_real("a"), b = vc_real("b"), c = vc_real("c");
	vc_assume(k1 != k2 && a != 0 && b != 0 && c != 0);     // the other cases collapse to compose2
	V p = pt();
	Rotation3D g = rot(k2, b) * rot(k1, a), h = rot(k3, c);
	eqp("axis after general", (h * g)(P(p)), ref(k3, c, ref(k2, b, ref(k1, a, p))));
	eqp("general after axis", (g * h)(P(p)), ref(k2, b, ref(k1, a, ref(k3, c, p))));
	eqp("general after general", (g * g)(P(p)), ref(k2, b, ref(k1, a, ref(k2, b, ref(k1, a, p)))));
	vc_reach("post");
}
static V flip(int ax, const V& p) { V r = {-p.x, -p.y, -p.z}; if(ax == 1) r.x = p.x; if(ax == 2) r.y = p.y; if(ax == 3) r.z = p.z; return r; }
VC_ENTRY(halfturn)      // conjugation by a half turn about each axis
{
	int k1 = vc_int("k1", 0, 3), k2 = vc_int("k2", 0, 3), ax = vc_int("axis", 1, 3);
	double a = vc_real("a"), b = vc_real("b");
	V p = pt();
	Rotation3D r = rot(k2, b) * rot(k1, a);
	Rotation3D q = ax == 1 ? r.rotXbyPI() : ax == 2 ? r.rotYbyPI() : r.rotZbyPI();
	eqp("rotation conjugated by a half turn", q(P(p)), flip(ax, ref(k2, b, ref(k1, a, flip(ax, p)))));
	Transform3D t(Point3D(vc_real("tx"), vc_real("ty"), vc_real("tz")), r);
	Point3D want = t(P(flip(ax, p)));
	if(ax == 1) t.rotXbyPI(); else if(ax == 2) t.rotYbyPI(); else t.rotZbyPI();
	V w; w.x = want.x; w.y = want.y; w.z = want.z;
	eqp("transform conjugated by a half turn", t(P(p)), flip(ax, w));
	vc_reach("post");
}
VC_ENTRY(predicates)
{
	int k1 = vc_int("k1", 0, 3), k2 = vc_int("k2", 0, 3);
	double a = vc_real("a"), b = vc_real("b");
	V p = pt();
	Rotation3D r = rot(k2, b) * rot(k1, a);
	if(r.isIdentity()) eqp("identity predicate", r(P(p)), p);
	if(r.isXrot()) vc_eq("x rotation predicate", r(P(p)).x, p.x);
	if(r.isYrot()) vc_eq("y rotation predicate", r(P(p)).y, p.y);
	if(r.isZrot()) vc_eq("z rotation predicate", r(P(p)).z, p.z);
	vc_reach("post");
}
static Transform3D trt(int k) { double x = vc_real("tx"), y = vc_real("ty"), z = vc_real("tz"); return Transform3D(Point3D(x, y, z), rot(k, vc_real("ta"))); }
static Transform3D tru(int k) { double x = vc_real("ux"), y = vc_real("uy"), z = vc_real("uz"); return Transform3D(Point3D(x, y, z), rot(k, vc_real("ua"))); }
VC_ENTRY(group3d)
{
	int k1 = vc_int("k1", 0, 3), k2 = vc_int("k2", 0, 3);
	V v = pt();
	Point3D p = P(v);
	Transform3D t = trt(k1), u = tru(k2);
	Transform3D ut = u * t;
	eqq("composition applies the right factor first", ut(p), u(t(p)));
	eqq("call and product agree", ut * p, ut(p));
	eqq("inverse undoes", ut.inv()(ut(p)), p);
	eqq("inverse undoes on the right", ut(ut.inv()(p)), p);
	Transform3D w(ut);
	w.invert();
	eqq("in-place inverse", w(p), ut.inv()(p));
	Transform3D x(t);
	x *= u;
	eqq("in-place composition", x(p), ut(p));
	Vector3D d = ut(Vector3D(v.x, v.y, v.z)), e = u(t(Vector3D(v.x, v.y, v.z)));
	vc_eq("vectors are rotated only", d.x, e.x); vc_eq("vectors are rotated only", d.y, e.y); vc_eq("vectors are rotated only", d.z, e.z);
	Point3D o = t(p), o2 = t(Point3D(0, 0, 0));
	vc_eq("distance preserved", (o.x - o2.x) * (o.x - o2.x) + (o.y - o2.y) * (o.y - o2.y) + (o.z - o2.z) * (o.z - o2.z), v.x * v.x + v.y * v.y + v.z * v.z);
	eqq("translation", Transform3D::translation(v.x, v.y, v.z)(Point3D(1, 2, 3)), Point3D(1 - v.x, 2 - v.y, 3 - v.z));
	eqq("rotation about x", Transform3D::rotationX(v.x)(p), P(ref(1, v.x, v)));
	eqq("rotation about y", Transform3D::rotationY(v.x)(p), P(ref(2, v.x, v)));
	eqq("rotation about z", Transform3D::rotationZ(v.x)(p), P(ref(3, v.x, v)));
	vc_reach("post");
}
VC_ENTRY(group2d)
{
	double a = vc_real("a"), b = vc_real("b"), x = vc_real("x"), y = vc_real("y");
	Point2D p(x, y);
	Transform2D t(vc_real("tx"), vc_real("ty"), a), u(vc_real("ux"), vc_real("uy"), b);
	Transform2D ut = u * t;
	Point2D q = ut(p), r = u(t(p));
	vc_eq("plane composition", q.x, r.x); vc_eq("plane composition", q.y, r.y);
	Point2D i = ut.inv()(q);
	vc_eq("plane inverse", i.x, x); vc_eq("plane inverse", i.y, y);
	Transform2D w(t); w *= u;
	vc_eq("plane in-place composition", w(p).x, r.x); vc_eq("plane in-place composition", w(p).y, r.y);
	Transform2D z(t); z.invert();
	Point2D zz = z(t(p));
	vc_eq("plane in-place inverse", zz.x, x); vc_eq("plane in-place inverse", zz.y, y);
	Vector2D d = t(Vector2D(x, y));
	vc_eq("plane rotation keeps length", d.x * d.x + d.y * d.y, x * x + y * y);
	vc_eq("plane rotation angle", d.x, x * std::cos(a) - y * std::sin(a));
	vc_eq("plane rotation angle", d.y, y * std::cos(a) + x * std::sin(a));
	vc_reach("post");
}
