// VC: units = ParticleBunch.cpp PSvector.cpp PSvectorTransform3D.cpp Transform3D.cpp Rot3Drep.cpp IdentityRotation.cpp AxisRotations.cpp GeneralRotation.cpp NumericalConstants.cpp
// VC: nodiv = 1
// Contracts of a bunch seen from another frame.
#include "vc.h"
#include "ParticleBunch.h"
#include "Transform3D.h"
using namespace ParticleTracking;

struct Beam
{
	long n, i; ParticleBunch b; PSvector p; double P0;
	Beam(long least = 1) : b(1.0, 1.0)
	{
		n = vc_len("n", least); i = vc_symint("i", 0, 1000000);
		vc_assume(i < n);
		P0 = vc_pos("p0");
		b.SetReferenceMomentum(P0);
		b.SetReferenceTime(vc_real("ct0"));
		vc_vector("p", b.pArray, n, 6); vc_intfield(b.pArray, 48);
		p = b.pArray[i];
	}
	double mean(int k) { double s = 0; for(long j = 0; j < n; j++) s += b.pArray[j][k]; return s / n; }
	double cov(int k, int l) { double s = 0, a = mean(k), c = mean(l); for(long j = 0; j < n; j++) s += (b.pArray[j][k] - a) * (b.pArray[j][l] - c); return s / n; }
	void others(const char* id, int but)
	{
		PSvector q = b.pArray[i];
		for(int k = 0; k < 6; k++) if(k != but) vc_eq(id, q[k], p[k]);
		vc_assert("identity kept", (q.id() == p.id()) & ((long) b.size() == n));
	}
};
VC_ENTRY(frame)      // the trajectory of each particle is the same straight line seen from another frame
{
	Beam a;
	Transform3D T;
	double x = vc_real("x"), y = vc_real("y"), z = vc_real("z");
	int kind = vc_int("kind", 0, 2);
	if(kind == 0) { vc_assume_far(x, 0, 1e-12); T = Transform3D::translation(x, y, z); }
	if(kind == 1) {
		double a = vc_real("a");
		vc_assume(cos(a) < 1);
		T = Transform3D(Point3D(x, y, z), Rotation3D::rotationY(a) * Rotation3D::rotationX(vc_real("b")));
	}
	if(kind == 2) { double a = vc_real("a"); vc_assume_far(a, 0, 1e-12); T = Transform3D(Point3D(x, y, z), Rotation3D::rotationZ(a)); }
	Point3D X = T(Point3D(a.p.x(), a.p.y(), 0));
	Vector3D V = T(Vector3D(a.p.xp(), a.p.yp(), 1));
	vc_assume_far(V.z, 0, 0.01);
	vc_assert("done", a.b.ApplyTransformation(T));
	PSvector q = a.b.pArray[a.i];
	vc_eq("slope", q.xp() * V.z, V.x); vc_eq("slope", q.yp() * V.z, V.y);
	vc_eq("on the line", (q.x() - X.x) * V.z + X.z * V.x, 0); vc_eq("on the line", (q.y() - X.y) * V.z + X.z * V.y, 0);
	vc_eq("time", q.ct(), a.p.ct()); vc_eq("momentum", q.dp(), a.p.dp());
	vc_assert("identity kept", (q.id() == a.p.id()) & ((long) a.b.size() == a.n));
	vc_reach("post");
}
VC_ENTRY(same_frame)
{
	Beam a;
	vc_assert("done", a.b.ApplyTransformation(Transform3D()));
	a.others("nothing moves", -1);
	vc_reach("post");
}
