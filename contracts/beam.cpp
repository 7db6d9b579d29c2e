// VC: units = ParticleBunch.cpp NormalTransform.cpp BunchFilter.cpp ParticleDistributionGenerator.cpp HaloParticleDistributionGenerator.cpp HollowElensParticleDistributionGenerator.cpp PSvector.cpp RMap.cpp MatrixMaps.cpp LinearAlgebra.cpp NumericalConstants.cpp MerlinIO.cpp MatrixPrinter.cpp
// Contracts of the description of a beam and of the bunches generated from it.
#include "vc.h"
#include "ParticleBunch.h"
#include "NormalTransform.h"
#include "BeamData.h"
#include "BunchFilter.h"
#include "HaloParticleDistributionGenerator.h"
#include "HollowElensParticleDistributionGenerator.h"
#include "NumericalConstants.h"
using namespace ParticleTracking;

// the source of random numbers enters by its range (RandomNG.cpp is not linked)
static int ncalls; static double arg0[16], arg1[16], arg2[16], val[16]; static char kind[16];
static double draw(char k, double a, double b, double c) { kind[ncalls] = k; arg0[ncalls] = a; arg1[ncalls] = b; arg2[ncalls] = c; return val[ncalls++] = vc_idx("draw", ncalls); }
double RandomNG::uniform(double lo, double hi) { double u = draw('u', lo, hi, 0); vc_assume((lo <= u) & (u <= hi)); return u; }
double RandomNG::normal(double m, double v) { return draw('n', m, v, 0); }
double RandomNG::normal(double m, double v, double c) { double x = draw('c', m, v, c); vc_assume((x - m) * (x - m) <= c * c * v); return x; }

#include "beamdata.h"
VC_ENTRY(normal_form)     // canonical for every beam
{
	BeamData t = beam(true);
	t.Dx = t.Dxp = t.Dy = t.Dyp = 0;
	RealMatrix R = NormalTransform(t);
	double J[36], sg[3] = {1, 1, 1};
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) J[i * 6 + j] = R(i, j);
	vc_symplectic("symplectic", J, 6, sg);
	for(int i = 0; i < 6; i++) for(int j = 4; j < 6; j++) { vc_eq("longitudinal", R(i, j), i == j); vc_eq("longitudinal", R(j, i), i == j); }
	BeamData u = t;
	u.c_xy = u.c_xyp = u.c_xpy = u.c_xpyp = 0;
	u.Dx = vc_again("Dx"); u.Dxp = vc_again("Dxp"); u.Dy = vc_again("Dy"); u.Dyp = vc_again("Dyp");
	RealMatrix N = NormalTransform(u);
	for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) if(i / 2 != j / 2) vc_eq("planes apart without coupling", N(i, j), 0);
	vc_eq("dispersion", N(0, 5), u.Dx); vc_eq("dispersion", N(1, 5), u.Dxp); vc_eq("dispersion", N(2, 5), u.Dy); vc_eq("dispersion", N(3, 5), u.Dyp);
	double s = sqrt(u.beta_x);
	vc_eq("courant snyder", N(0, 0), s); vc_eq("courant snyder", N(0, 1), 0); vc_eq("courant snyder", N(1, 0), -u.alpha_x / s); vc_eq("courant snyder", N(1, 1), 1 / s);
	s = sqrt(u.beta_y);
	vc_eq("courant snyder", N(2, 2), s); vc_eq("courant snyder", N(2, 3), 0); vc_eq("courant snyder", N(3, 2), -u.alpha_y / s); vc_eq("courant snyder", N(3, 3), 1 / s);
	vc_reach("post");
}
static void sigma(const BeamData& t, const PSmoments& S)
{
	double v = t.sig_dp * t.sig_dp, D[4] = {t.Dx, t.Dxp, t.Dy, t.Dyp};
	double m[6] = {t.x0, t.xp0, t.y0, t.yp0, t.ct0, 0};
	for(int i = 0; i < 6; i++) vc_eq("centre", S[i], m[i]);
	double b[4][4] = {{t.emit_x * t.beta_x, -t.emit_x * t.alpha_x, 0, 0}, {-t.emit_x * t.alpha_x, t.emit_x * t.gamma_x(), 0, 0}, {0, 0, t.emit_y * t.beta_y, -t.emit_y * t.alpha_y}, {0, 0, -t.emit_y * t.alpha_y, t.emit_y * t.gamma_y()}};
	for(int i = 0; i < 4; i++) {
		for(int j = 0; j <= i; j++) vc_eq("betatron and dispersion", S(i, j), b[i][j] + D[i] * D[j] * v);
		vc_eq("dispersion", S(i, 5), D[i] * v);
		vc_eq("no correlation with time", S(i, 4), 0);
	}
	vc_eq("length", S(4, 4), t.sig_z * t.sig_z); vc_eq("momentum spread", S(5, 5), v); vc_eq("no correlation with time", S(4, 5), 0);
}
VC_ENTRY(moments)
{
	BeamData t = beam(false);
	PSmoments S;
	for(int i = 0; i < 6; i++) { S[i] = vc_idx("old", i); for(int j = 0; j <= i; j++) S(i, j) = vc_idx("old", 6 * i + j + 6); }
	BeamDataToSigmaMtrx(t, S);
	sigma(t, S);
	vc_eq("rms size", t.sigma_x() * t.sigma_x(), t.emit_x * t.beta_x); vc_eq("rms size", t.sigma_y() * t.sigma_y(), t.emit_y * t.beta_y);
	vc_eq("rms divergence", t.sigma_xp() * t.sigma_xp() * t.beta_x, t.emit_x * (1 + t.alpha_x * t.alpha_x)); vc_eq("rms divergence", t.sigma_yp() * t.sigma_yp() * t.beta_y, t.emit_y * (1 + t.alpha_y * t.alpha_y));
	vc_reach("post");
}
struct Given: public ParticleDistributionGenerator
{
	mutable int n = 0; PSvector v[4];
	Given() { for(int j = 0; j < 4; j++) { for(int k = 0; k < 6; k++) v[j][k] = vc_idx("v", 6 * j + k); v[j].id() = 0; } }
	PSvector GenerateFromDistribution() const { return v[n++]; }
};
struct Some: public ParticleBunchFilter
{
	mutable int n = 0; int out;
	bool Apply(const PSvector&) const { return n++ != out; }
};
VC_ENTRY(generated)       // matched to the beam
{
	BeamData t = beam(false);
	vc_assume(t.charge > 1e-9);
	Given g;
	int with = vc_int("filtered", 0, 3);       // 0: no filter, else the candidate that is refused
	Some f; f.out = with - 1;
	ParticleBunch b(4, g, t, with ? &f : nullptr);
	vc_assert("number of particles", b.size() == 4);
	const PSvectorArray& r = b.GetParticles();
	double c[6] = {t.x0, t.xp0, t.y0, t.yp0, t.ct0, 0}, D[4] = {t.Dx, t.Dxp, t.Dy, t.Dyp};
	for(int k = 0; k < 6; k++) vc_eq("first is the centroid", r[0][k], c[k]);
	vc_assert("first is the centroid", r[0].id() == 0);
	int s = 0;
	for(int j = 1; j < 4; j++, s++) {
		if(s == f.out) s++;
		const PSvector& v = g.v[s];
		double d = t.sig_dp * v.dp(), bx = sqrt(t.beta_x), by = sqrt(t.beta_y), ex = sqrt(t.emit_x), ey = sqrt(t.emit_y);
		vc_eq("matched", r[j].x(), c[0] + D[0] * d + ex * bx * v.x());
		vc_eq("matched", r[j].xp(), c[1] + D[1] * d + ex * (v.xp() - t.alpha_x * v.x()) / bx);
		vc_eq("matched", r[j].y(), c[2] + D[2] * d + ey * by * v.y());
		vc_eq("matched", r[j].yp(), c[3] + D[3] * d + ey * (v.yp() - t.alpha_y * v.y()) / by);
		vc_eq("momentum", r[j].dp(), d); vc_eq("time", r[j].ct(), c[4] + t.sig_z * v.ct());
		vc_assert("numbered", r[j].id() == j);
	}
	vc_eq("charge", b.GetTotalCharge(), t.charge); vc_eq("reference momentum", b.GetReferenceMomentum(), t.p0); vc_eq("sign", b.GetChargeSign(), 1);
	vc_reach("post");
}
static void flat(const PSvector& p, int k) { vc_assert("longitudinal within one sigma", (p.dp() >= -1) & (p.dp() <= 1) & (p.ct() >= -1) & (p.ct() <= 1)); vc_assert("draws", ncalls == k); }
static void onring(const char* id, double a, double b, double r, int k)
{
	vc_eq(id, a * a + b * b, r * r);
	vc_assert("any phase", kind[k] == 'u'); vc_eq("any phase", arg0[k], -pi); vc_eq("any phase", arg1[k], pi);
}
static void gauss(const char* id, double x, int k, double cut)
{
	vc_eq(id, x, val[k]); vc_eq(id, arg0[k], 0); vc_eq(id, arg1[k], 1);
	if(kind[k] == 'n') vc_eq(id, cut, 0); else vc_eq(id, arg2[k], cut);
}
VC_ENTRY(distributions)
{
	ncalls = 0;
	int which = vc_int("which", 0, 8);
	double h = vc_pos("size"), in = vc_nonneg("inner");
	PSvector cut(0), p(0);
	if(which == 2 || which == 3 || which == 6) for(int k = 0; k < 6; k++) cut[k] = vc_boolidx("cut in", k) ? vc_idx("cut", k, 0.5, 2) : 0;
	for(int k = 0; k < 6; k++) if(cut[k] != 0) vc_assume(cut[k] > 0.1);
	if(which == 0) {
		p = RingParticleDistributionGenerator().GenerateFromDistribution();
		onring("on the unit ellipse", p.x(), p.xp(), 1, 0); onring("on the unit ellipse", p.y(), p.yp(), 1, 1);
		flat(p, 4);
	}
	if(which == 1) {
		p = UniformParticleDistributionGenerator().GenerateFromDistribution();
		for(int k = 0; k < 4; k++) vc_assert("within one sigma", (p[k] >= -1) & (p[k] <= 1));
		bool own = true;
		for(int k = 0; k < 6; k++) for(int j = 0; j < k; j++) own = own & (kind[k] == 'u');
		vc_assert("independent", own);
		flat(p, 6);
	}
	if(which == 2) {
		p = NormalParticleDistributionGenerator(cut).GenerateFromDistribution();
		const int o[6] = {0, 1, 2, 3, 5, 4};
		for(int k = 0; k < 6; k++) gauss("unit gaussian with its cutoff", p[o[k]], k, cut[o[k]]);
		vc_assert("draws", ncalls == 6);
	}
	if(which == 3) {
		p = HorizonalHalo2ParticleDistributionGenerator(h, cut).GenerateFromDistribution();
		onring("halo", p.x(), p.xp(), h, 0); gauss("core", p.y(), 1, cut.y()); gauss("core", p.yp(), 2, cut.yp());
		flat(p, 5);
	}
	if(which == 6) {
		p = VerticalHalo2ParticleDistributionGenerator(h, cut).GenerateFromDistribution();
		onring("halo", p.y(), p.yp(), h, 0); gauss("core", p.x(), 1, cut.x()); gauss("core", p.xp(), 2, cut.xp());
		flat(p, 5);
	}
	if(which == 4) {
		p = HorizonalHalo1ParticleDistributionGenerator(h).GenerateFromDistribution();
		onring("halo", p.x(), p.xp(), h, 0); vc_eq("no core", p.y(), 0); vc_eq("no core", p.yp(), 0);
		flat(p, 3);
	}
	if(which == 5) {
		p = VerticalHalo1ParticleDistributionGenerator(h).GenerateFromDistribution();
		onring("halo", p.y(), p.yp(), h, 0); vc_eq("no core", p.x(), 0); vc_eq("no core", p.xp(), 0);
		flat(p, 3);
	}
	if(which == 7) {
		vc_assume(in < h);
		p = ThickHELHaloParticleDistributionGenerator(in, h).GenerateFromDistribution();
		vc_assert("between the radii", (p.x() * p.x() + p.y() * p.y() >= in * in) & (p.x() * p.x() + p.y() * p.y() <= h * h));
		vc_eq("no angle", p.xp(), 0); vc_eq("no angle", p.yp(), 0);
		flat(p, 4);
	}
	if(which == 8) {
		p = ThinHELHaloParticleDistributionGenerator(in, h).GenerateFromDistribution();
		onring("at the outer radius", p.x(), p.y(), h, 0);
		vc_eq("no angle", p.xp(), 0); vc_eq("no angle", p.yp(), 0);
		flat(p, 3);
	}
	vc_reach("post");
}
VC_ENTRY(filters)
{
	PSvector p(0);
	for(int k = 0; k < 6; k++) p[k] = vc_idx("p", k);
	double l = vc_pos("limit"), o = vc_real("orbit");
	vc_assume(((p.x() < 0) | (p.x() > 0)) & ((p.xp() < 0) | (p.xp() > 0)));
	HorizontalHaloParticleBunchFilter h; h.limit = l; h.orbit = o;
	double d = p.x() - o;
	vc_assert("outside of the horizontal limit about the orbit", h.Apply(p) == (d * d > l * l));
	VerticalHaloParticleBunchFilter v; v.limit = l;
	vc_assert("outside of the vertical limit", v.Apply(p) == (p.y() * p.y() > l * l));
	vc_reach("post");
}
