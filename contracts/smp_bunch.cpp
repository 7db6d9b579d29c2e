// VC: units = SMPBunch.cpp SliceMacroParticle.cpp SMPTransform3D.cpp PSvector.cpp NumericalConstants.cpp Transform3D.cpp Rot3Drep.cpp AxisRotations.cpp GeneralRotation.cpp IdentityRotation.cpp
// Contracts of a bunch of slice macro-particles: statistics, reference, frame, bookkeeping.
#include "vc.h"
#include "SMPBunch.h"
#include "SMPTransform3D.h"
using namespace SMPTracking;

struct Slices
{
	long n, i; SMPBunch& b; SliceMacroParticle p; double P0, t0;
	Slices(long least = 1) : b(*new SMPBunch(1.0, 1.0))
	{
		n = vc_len("n", least); i = vc_symint("i", 0, 1000000);
		vc_assume(i < n);
		P0 = vc_pos("p0"); t0 = vc_real("ct0");
		b.SetReferenceMomentum(P0);
		b.SetReferenceTime(t0);
		vc_vector("p", b.slices, n, 19, 1); vc_intfield(b.slices, 136);
		b.Qt = charge();
		vc_assume(b.Qt != 0);
		p = b.slices[i];
	}
	double charge() { double s = 0; for(long j = 0; j < n; j++) s += b.slices[j].q; return s; }
	double mean(int k) { double s = 0; for(long j = 0; j < n; j++) s += b.slices[j].q * b.slices[j][k]; return s / charge(); }
	// covariance of the charge: that of the centres and that within the slices
	double cov(int k, int l)
	{
		double s = 0, a = mean(k), c = mean(l);
		for(long j = 0; j < n; j++) {
			const SliceMacroParticle& m = b.slices[j];
			s += m.q * ((m[k] - a) * (m[l] - c) + ((k < 4) & (l < 4) ? m.sig(k, l) : 0.0));
		}
		return s / charge();
	}
	void same(const char* id, int but)
	{
		const SliceMacroParticle& m = b.slices[i];
		for(int k = 0; k < 6; k++) if(k != but) vc_eq(id, m[k], p[k]);
		for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) vc_eq(id, m.sig(k, l), p.sig(k, l));
		vc_eq("charge kept", m.Q(), p.Q());
		vc_assert("no slice lost", (long) b.Size() == n);
		vc_eq("total charge kept", b.GetTotalCharge(), charge());
	}
};
VC_ENTRY(centroid)
{
	Slices a;
	vc_eq("total charge", a.b.GetTotalCharge(), a.charge());
	PSvector c(0);
	for(int k = 0; k < 6; k++) c[k] = vc_idx("old", k);
	a.b.GetCentroid(c);
	for(int k = 0; k < 6; k++) vc_eq("mean", c[k], a.mean(k));
	int u = vc_int("u", 0, 5), v = vc_int("v", 0, 5);
	Point2D d = a.b.GetProjectedCentroid(u, v);
	vc_eq("projected mean", d.x, a.mean(u)); vc_eq("projected mean", d.y, a.mean(v));
	vc_reach("post");
}
VC_ENTRY(moments)
{
	Slices a;
	PSmoments S;
	for(int k = 0; k < 6; k++) for(int l = 0; l <= k; l++) S.sig(k, l) = vc_idx("old", 6 * k + l);      // used before
	a.b.GetMoments(S);
	for(int k = 0; k < 6; k++) vc_eq("mean", S[k], a.mean(k));
	for(int k = 0; k < 6; k++) for(int l = 0; l <= k; l++) vc_eq("covariance", S(k, l), a.cov(k, l));
	vc_reach("post");
}
VC_ENTRY(projection)
{
	Slices a;
	int u = vc_int("u", 0, 5), v = vc_int("v", 0, 5);
	PSmoments2D s;
	s[0] = vc_real("old x"); s[1] = vc_real("old y");
	s.sig(0, 0) = vc_real("old xx"); s.sig(0, 1) = vc_real("old xy"); s.sig(1, 1) = vc_real("old yy");     // used before
	a.b.GetProjectedMoments(u, v, s);
	vc_eq("mean", s[0], a.mean(u)); vc_eq("mean", s[1], a.mean(v));
	vc_eq("covariance", s(0, 0), a.cov(u, u)); vc_eq("covariance", s(0, 1), a.cov(u, v)); vc_eq("covariance", s(1, 1), a.cov(v, v));
	vc_reach("post");
}
VC_ENTRY(mean_momentum)
{
	Slices a;
	double d = a.mean(ps_DP);
	vc_assume(1 + d > 0);
	double r = a.b.AdjustRefMomentumToMean();
	vc_eq("reference is the mean", r, a.P0 * (1 + d));
	vc_eq("reference is the mean", a.b.GetReferenceMomentum(), a.P0 * (1 + d));
	vc_eq("no mean deviation", a.mean(ps_DP), 0);
	vc_eq("momentum of a slice", a.b.GetReferenceMomentum() * (1 + a.b.slices[a.i].dp()), a.P0 * (1 + a.p.dp()));
	a.same("other coordinates", ps_DP);
	vc_reach("post");
}
VC_ENTRY(mean_time)
{
	Slices a;
	double m = a.mean(ps_CT);
	double r = a.b.AdjustRefTimeToMean();
	vc_eq("returned", r, a.b.GetReferenceTime());
	vc_eq("reference moved by the mean", a.t0 - r, m);
	vc_eq("no mean delay", a.mean(ps_CT), 0);
	vc_eq("time of a slice", a.b.GetReferenceTime() - a.b.slices[a.i].ct(), a.t0 - a.p.ct());
	a.same("other coordinates", ps_CT);
	vc_reach("post");
}
VC_ENTRY(moved)
{
	Slices a;
	PSvector s(0);
	for(int k = 0; k < 6; k++) s[k] = vc_idx("s", k);
	a.b.AdjustCentroid(s);
	const SliceMacroParticle& m = a.b.slices[a.i];
	for(int k = 0; k < 6; k++) vc_eq("moved", m[k], a.p[k] + s[k]);
	for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) vc_eq("shape kept", m.sig(k, l), a.p.sig(k, l));
	vc_eq("charge kept", m.Q(), a.p.Q());
	vc_assert("no slice lost", (long) a.b.Size() == a.n);
	vc_reach("post");
}
VC_ENTRY(added)
{
	SMPBunch& b = *new SMPBunch(vc_pos("p0"), 1.0);
	vc_eq("no charge", b.GetTotalCharge(), 0);
	double q[3], t[3];
	bool sorted = vc_bool("sorted");
	for(int i = 0; i < 3; i++) {
		q[i] = vc_idx("q", i); t[i] = vc_idx("ct", i);
		SliceMacroParticle m(q[i]);
		for(int k = 0; k < 6; k++) m[k] = vc_idx("m", 6 * i + k);
		for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) m.sig(k, l) = vc_idx("s", 16 * i + 4 * k + l);
		m.ct() = t[i];
		b.AddParticle(m, sorted);
		vc_assert("one more", (int) b.Size() == i + 1);
	}
	if(!sorted) b.SortByCT();
	vc_eq("total charge", b.GetTotalCharge(), q[0] + q[1] + q[2]);
	vc_assert("in order of time", (b.Get(0).ct() <= b.Get(1).ct()) & (b.Get(1).ct() <= b.Get(2).ct()));
	vc_assume((t[0] != t[1]) & (t[1] != t[2]) & (t[0] != t[2]));
	for(int i = 0; i < 3; i++) {
		int r = 0;
		for(int j = 0; j < 3; j++) r += t[j] < t[i] ? 1 : 0;
		const SliceMacroParticle& m = b.Get(r);
		vc_eq("charge goes with its slice", m.Q(), q[i]);
		for(int k = 0; k < 6; k++) if(k != ps_CT) vc_eq("coordinates go with their slice", m[k], vc_again("m", 6 * i + k));
		for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) vc_eq("shape goes with its slice", m.sig(k, l), vc_again("s", 16 * i + 4 * k + l));
	}
	vc_reach("post");
}
VC_ENTRY(made)
{
	PSmoments S;
	for(int k = 0; k < 6; k++) { S[k] = vc_idx("x", k); for(int l = 0; l <= k; l++) S.sig(k, l) = vc_idx("s", 6 * k + l); }
	double ct = vc_real("ct"), dp = vc_real("dp"), q = vc_real("q");
	SliceMacroParticle m(S, ct, dp, q);
	for(int k = 0; k < 4; k++) { vc_eq("centre", m[k], S[k]); for(int l = 0; l <= k; l++) vc_eq("shape", m.sig(k, l), S.sig(k, l)); }
	vc_eq("time", m.ct(), ct); vc_eq("momentum", m.dp(), dp); vc_eq("charge", m.Q(), q);
	PSvector c = m.GetChargeWeightedCentroid();
	for(int k = 0; k < 6; k++) { vc_eq("weighted", c[k], q * m[k]); vc_eq("weighted", m.GetChargeWeightedCentroid(k), q * m[k]); vc_eq("centre", m.GetCentroid()[k], m[k]); }
	SliceMacroParticle e(q);
	for(int k = 0; k < 6; k++) vc_eq("nothing", e[k], 0);
	for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) vc_eq("point", e.sig(k, l), 0);
	vc_eq("charge", e.Q(), q);
	vc_reach("post");
}
VC_ENTRY(shifted)       // parallel frame
{
	Slices a;
	double dx = vc_real("dx"), dy = vc_real("dy");
	vc_assume_far(dx, 0, 1e-9); vc_assume_far(dy, 0, 1e-9);
	bool r = a.b.ApplyTransformation(Transform3D(Point3D(dx, dy, 0), Rotation3D::identity()));
	const SliceMacroParticle& m = a.b.slices[a.i];
	vc_eq("x", m.x(), a.p.x() - dx); vc_eq("y", m.y(), a.p.y() - dy);
	vc_eq("xp", m.xp(), a.p.xp()); vc_eq("yp", m.yp(), a.p.yp()); vc_eq("ct", m.ct(), a.p.ct()); vc_eq("dp", m.dp(), a.p.dp());
	for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) vc_eq("shape", m.sig(k, l), a.p.sig(k, l));
	vc_eq("charge kept", m.Q(), a.p.Q());
	(void) r;
	vc_reach("post");
}
static void turned(const SliceMacroParticle& m, const SliceMacroParticle& p, double c, double s, double dx, double dy)
{
	double R[4][4] = {{c, 0, s, 0}, {0, c, 0, s}, {-s, 0, c, 0}, {0, -s, 0, c}}, x[4] = {p.x() - dx, p.xp(), p.y() - dy, p.yp()};
	for(int k = 0; k < 4; k++) {
		double w = 0; for(int l = 0; l < 4; l++) w += R[k][l] * x[l];
		vc_eq("centre", m[k], w);
		for(int l = 0; l <= k; l++) {
			double v = 0; for(int g = 0; g < 4; g++) for(int h = 0; h < 4; h++) v += R[k][g] * p.sig(g, h) * R[l][h];
			vc_eq("shape", m.sig(k, l), v);
		}
	}
	vc_eq("ct", m.ct(), p.ct()); vc_eq("dp", m.dp(), p.dp()); vc_eq("charge kept", m.Q(), p.Q());
}
VC_ENTRY(rolled)        // frame turned about the beam axis, any angle
{
	Slices a;
	double phi = vc_real("phi"), dx = vc_real("dx"), dy = vc_real("dy");
	vc_assume_far(std::sin(phi), 0, 1e-6);       // the tolerance of the code
	a.b.ApplyTransformation(Transform3D(Point3D(dx, dy, 0), Rotation3D::rotationZ(phi)));
	turned(a.b.slices[a.i], a.p, std::cos(phi), std::sin(phi), dx, dy);
	vc_reach("post");
}
VC_ENTRY(small_angles)  // frame turned by a small angle about x or y: to first order the slope changes
{
	Slices a;
	double phi = vc_real("phi");
	vc_assume_far(std::sin(phi), 0, 1e-9);
	bool x = vc_bool("about x");
	Transform3D t = Transform3D(Point3D(0, 0, 0), x ? Rotation3D::rotationX(phi) : Rotation3D::rotationY(phi));
	vc_reach("pre");
	SMPTransform3D f(t);
	SliceMacroParticle m(a.p);
	f.Apply(m);
	// exact for a slice on the axis
	Vector3D v = t.R()(Vector3D(0, 0, 1));
	double y = x ? a.p.yp() : a.p.xp(), d = x ? m.yp() - y - v.y : m.xp() - y - v.x, e = (1 - std::cos(phi)) * std::fabs(y) + 1e-12;
	vc_assert("slope", (d <= e) & (-d <= e));
	vc_eq("other plane", x ? m.xp() : m.yp(), x ? a.p.xp() : a.p.yp());
	vc_eq("ct", m.ct(), a.p.ct()); vc_eq("dp", m.dp(), a.p.dp()); vc_eq("charge kept", m.Q(), a.p.Q());
	vc_reach("post");
}
