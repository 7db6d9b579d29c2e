// VC: units = ParticleBunch.cpp PSvector.cpp NumericalConstants.cpp
// Contract: centroid and second moments of a bunch of any size are the mean and the covariance.
#include "vc.h"
#include "ParticleBunch.h"
using namespace ParticleTracking;

static double mean(const PSvectorArray& a, long n, int i)
{
	double s = 0;
	for(long k = 0; k < n; k++) s += a[k][i];
	return s / n;
}
static double cov(const PSvectorArray& a, long n, int i, int j)
{
	double s = 0, mi = mean(a, n, i), mj = mean(a, n, j);
	for(long k = 0; k < n; k++) s += (a[k][i] - mi) * (a[k][j] - mj);
	return s / n;
}
VC_ENTRY(centroid)
{
	long n = vc_len("n", 1);
	ParticleBunch b(vc_pos("p0"), 1.0);
	vc_vector("p", b.pArray, n, 6);
	vc_reach("pre");
	PSvector c;
	b.GetCentroid(c);
	for(int i = 0; i < 6; i++) vc_eq("centroid", c[i], mean(b.pArray, n, i));
	vc_reach("post");
}
VC_ENTRY(moments)
{
	long n = vc_len("n", 1);
	ParticleBunch b(vc_pos("p0"), 1.0);
	vc_vector("p", b.pArray, n, 6);
	PSmoments S;
	b.GetMoments(S);
	for(int i = 0; i < 6; i++) vc_eq("mean", S[i], mean(b.pArray, n, i));
	for(int i = 0; i < 6; i++) for(int j = 0; j <= i; j++) vc_eq("cov", S(i, j), cov(b.pArray, n, i, j));
	vc_reach("post");
}
VC_ENTRY(projected)          // two coordinates
{
	long n = vc_len("n", 1);
	int u = vc_int("u", 0, 5), v = vc_int("v", 0, 5);
	ParticleBunch b(vc_pos("p0"), 1.0);
	vc_vector("p", b.pArray, n, 6);
	PSmoments2D S;
	b.GetProjectedMoments(u, v, S);
	vc_eq("mean", S[0], mean(b.pArray, n, u)); vc_eq("mean", S[1], mean(b.pArray, n, v));
	vc_eq("cov", S(0, 0), cov(b.pArray, n, u, u)); vc_eq("cov", S(0, 1), cov(b.pArray, n, u, v)); vc_eq("cov", S(1, 1), cov(b.pArray, n, v, v));
	Point2D c = b.GetProjectedCentroid(u, v);
	vc_eq("centroid", c.x, S[0]); vc_eq("centroid", c.y, S[1]);
	vc_reach("post");
}
VC_ENTRY(single)
{
	long n = vc_len("n", 1);
	int u = vc_int("u", 0, 5);
	ParticleBunch b(vc_pos("p0"), 1.0);
	vc_vector("p", b.pArray, n, 6);
	double c = cov(b.pArray, n, u, u);
	vc_assume(c >= 0);           // a sum of squares
	std::pair<double, double> m = b.GetMoments(u);
	vc_eq("mean", m.first, mean(b.pArray, n, u));
	vc_eq("spread", m.second * m.second, c);
	vc_reach("post");
}
