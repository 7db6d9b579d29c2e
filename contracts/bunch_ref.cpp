// VC: units = ParticleBunch.cpp PSvector.cpp NumericalConstants.cpp
// Contracts of the reference, the frame and the bookkeeping of a bunch.
#include "vc.h"
#include "ParticleBunch.h"
using namespace ParticleTracking;

struct Beam
{
	long n, i; ParticleBunch b; PSvector p; double P0;
	Beam(long least = 1) : b(1.0, 1.0)
	{
		n = vc_len("n", least); i = vc_symint("i", 0, 1000000);
		vc_assume(i < n);
		P0 = vc_pos("p0");
		b.SetReferenceMomentum(P0);
		b.SetReferenceTime(vc_real("ct0"));
		vc_vector("p", b.pArray, n, 6); vc_intfield(b.pArray, 48);
		p = b.pArray[i];
	}
	double mean(int k) { double s = 0; for(long j = 0; j < n; j++) s += b.pArray[j][k]; return s / n; }
	double cov(int k, int l) { double s = 0, a = mean(k), c = mean(l); for(long j = 0; j < n; j++) s += (b.pArray[j][k] - a) * (b.pArray[j][l] - c); return s / n; }
	void others(const char* id, int but)
	{
		PSvector q = b.pArray[i];
		for(int k = 0; k < 6; k++) if(k != but) vc_eq(id, q[k], p[k]);
		vc_assert("identity kept", (q.id() == p.id()) & ((long) b.size() == n));
	}
};
VC_ENTRY(momentum)
{
	Beam a;
	double d = vc_in("d", -0.9, 2);
	double r = a.b.AdjustRefMomentum(d);
	vc_eq("new reference", a.b.GetReferenceMomentum(), a.P0 * (1 + d));
	vc_eq("returned", r, a.P0 * (1 + d));
	vc_eq("momentum of a particle", a.b.GetReferenceMomentum() * (1 + a.b.pArray[a.i].dp()), a.P0 * (1 + a.p.dp()));
	a.others("other coordinates", ps_DP);
	vc_reach("post");
}
VC_ENTRY(mean_momentum)
{
	Beam a;
	double d = a.mean(ps_DP);
	vc_assume(1 + d > 0);
	double r = a.b.AdjustRefMomentumToMean();
	vc_eq("reference is the mean", r, a.P0 * (1 + d));
	vc_eq("reference is the mean", a.b.GetReferenceMomentum(), a.P0 * (1 + d));
	vc_eq("no mean deviation", a.mean(ps_DP), 0);
	vc_eq("momentum of a particle", a.b.GetReferenceMomentum() * (1 + a.b.pArray[a.i].dp()), a.P0 * (1 + a.p.dp()));
	a.others("other coordinates", ps_DP);
	vc_reach("post");
}
VC_ENTRY(mean_time)
{
	Beam a;
	double t = a.b.GetReferenceTime(), m = a.mean(ps_CT);
	double r = a.b.AdjustRefTimeToMean();
	vc_eq("returned", r, a.b.GetReferenceTime());
	vc_eq("reference moved by the mean", t - r, m);
	vc_eq("no mean delay", a.mean(ps_CT), 0);
	vc_eq("time of a particle", a.b.GetReferenceTime() - a.b.pArray[a.i].ct(), t - a.p.ct());
	a.others("other coordinates", ps_CT);
	vc_reach("post");
}
VC_ENTRY(reference)
{
	ParticleBunch b(vc_pos("p0"), 1.0);
	double p = b.GetReferenceMomentum(), d = vc_pos("d"), t = vc_real("t"), dt = vc_real("dt");
	vc_eq("starts at time zero", b.GetReferenceTime(), 0);
	vc_eq("increment", b.IncrReferenceMomentum(d), p + d);
	vc_eq("increment", b.GetReferenceMomentum(), p + d);
	b.SetReferenceTime(t);
	vc_eq("time", b.GetReferenceTime(), t);
	vc_eq("time increment", b.IncrReferenceTime(dt), t + dt);
	vc_eq("time increment", b.GetReferenceTime(), t + dt);
	vc_reach("post");
}
VC_ENTRY(centre)     // the bunch is moved onto its first particle
{
	Beam a(2);
	vc_assume(a.i > 0);
	long j = vc_symint("j", 1, 1000000);
	vc_assume(j < a.n);
	PSvector f = a.b.pArray[0], p2 = a.b.pArray[j];
	bool given = vc_bool("given");
	if(given) {
		PSvector c(0);
		for(int k = 0; k < 6; k++) c[k] = vc_idx("c", k);
		c.id() = 0;
		a.b.SetCentroid(c);
		f = c;
	}
	else a.b.SetCentroid();
	for(int k = 0; k < 6; k++) vc_eq("mean", a.mean(k), f[k]);
	for(int k = 0; k < 6; k++) vc_eq("first particle", a.b.FirstParticle()[k], f[k]);
	for(int k = 0; k < 6; k++) vc_eq("moved as a whole", a.b.pArray[a.i][k] - a.b.pArray[j][k], a.p[k] - p2[k]);
	vc_assert("identity kept", (a.b.pArray[a.i].id() == a.p.id()) & ((long) a.b.size() == a.n));
	vc_reach("post");
}
VC_ENTRY(single_moments)
{
	Beam a;
	int k = vc_int("coordinate", 0, 5);
	vc_assume(a.cov(k, k) >= 0);      // a sum of squares
	std::pair<double, double> m = a.b.GetMoments(k);
	vc_eq("mean", m.first, a.mean(k));
	vc_eq("spread", m.second * m.second, a.cov(k, k));
	vc_reach("post");
}
VC_ENTRY(projection)
{
	Beam a;
	int u = vc_int("u", 0, 5), v = vc_int("v", 0, 5);
	Point2D c = a.b.GetProjectedCentroid(u, v);
	vc_eq("mean", c.x, a.mean(u)); vc_eq("mean", c.y, a.mean(v));
	PSmoments2D s;
	s.sig(0, 0) = vc_real("old xx"); s.sig(0, 1) = vc_real("old xy"); s.sig(1, 1) = vc_real("old yy");     // used before
	a.b.GetProjectedMoments(u, v, s);
	vc_eq("projected mean", s[0], a.mean(u)); vc_eq("projected mean", s[1], a.mean(v));
	vc_eq("covariance", s(0, 0), a.cov(u, u)); vc_eq("covariance", s(0, 1), a.cov(u, v)); vc_eq("covariance", s(1, 1), a.cov(v, v));
	vc_reach("post");
}
VC_ENTRY(charge)
{
	double P0 = vc_pos("p0"), Q = vc_real("Q");
	int sign = vc_int("sign", -1, 1);
	if(sign == 1) vc_assume(Q > 1e-9);
	if(sign == 0) Q = 0;
	if(sign == -1) vc_assume(Q < -1e-9);
	long n = vc_len("n", 1);
	PSvectorArray v;
	vc_vector("p", v, n, 6); vc_intfield(v, 48);
	long i = vc_symint("i", 0, 1000000);
	vc_assume(i < n);
	PSvector p = v[i];
	ParticleBunch b(P0, Q, v);
	vc_assert("takes the particles", ((long) b.size() == n) & v.empty());
	for(int k = 0; k < 6; k++) vc_eq("takes the particles", b.GetParticles()[i][k], p[k]);
	vc_assert("takes the particles", b.GetParticles()[i].id() == p.id());
	vc_eq("total charge", b.GetTotalCharge(), Q);
	vc_eq("sign of the charge", b.GetChargeSign(), sign);
	vc_eq("momentum", b.GetReferenceMomentum(), P0);
	double q = vc_pos("q");
	b.SetMacroParticleCharge(-q);
	vc_eq("total charge of macro particles", b.GetTotalCharge(), -q * n);
	vc_eq("sign of the new charge", b.GetChargeSign(), -1);
	vc_reach("post");
}
VC_ENTRY(container)
{
	ParticleBunch b(vc_pos("p0"), vc_pos("q"));
	double q = b.GetTotalCharge();
	vc_eq("empty", q, 0);
	PSvector p[4];
	for(int j = 0; j < 4; j++) for(int k = 0; k < 6; k++) p[j][k] = vc_idx("v", 6 * j + k);
	for(int j = 0; j < 4; j++) p[j].id() = 10 + j;
	vc_assert("one", b.AddParticle(p[0]) == 1);
	b.push_back(p[1]);
	b.reserve(10);
	b.push_back(p[2]);
	vc_assert("three", b.size() == 3);
	int out = vc_int("out", 0, 2);
	ParticleBunch::iterator it = b.erase(b.begin() + out);
	vc_assert("next", it == b.begin() + out);
	b.push_back(p[3]);
	int left[3] = {out > 0 ? 0 : 1, out > 1 ? 1 : 2, 3};
	vc_assert("three left", b.size() == 3);
	int j = 0;
	for(const PSvector& r : b) { for(int k = 0; k < 6; k++) vc_eq("in order", r[k], p[left[j]][k]); vc_assert("identity", r.id() == p[left[j]].id()); j++; }
	vc_assert("first", b.FirstParticle().id() == p[left[0]].id());
	ParticleBunch c(1.0, 1.0);
	c.swap(b);
	vc_assert("exchanged", (c.size() == 3) & (b.size() == 0));
	b.push_back(p[out]);
	c.swap(b);
	vc_assert("exchanged back", (c.size() == 1) & (b.size() == 3));
	vc_assert("the particle", c.FirstParticle().id() == p[out].id());
	b.clear();
	vc_assert("cleared", (b.size() == 0) & (b.begin() == b.end()));
	vc_reach("post");
}
VC_ENTRY(sorted)
{
	ParticleBunch b(1.0, 1.0);
	PSvector p[3];
	for(int j = 0; j < 3; j++) { for(int k = 0; k < 6; k++) p[j][k] = vc_idx("v", 6 * j + k); p[j].id() = j; b.push_back(p[j]); }
	b.SortByCT();
	const PSvectorArray& r = b.GetParticles();
	vc_assert("ascending", (r[0].ct() <= r[1].ct()) & (r[1].ct() <= r[2].ct()));
	bool seen[3] = {false, false, false};
	for(int j = 0; j < 3; j++) {
		int o = r[j].id();
		seen[o] = true;
		for(int k = 0; k < 6; k++) vc_eq("whole particles", r[j][k], p[o][k]);
	}
	vc_assert("all of them", (b.size() == 3) & seen[0] & seen[1] & seen[2]);
	vc_reach("post");
}
