// VC: units = StdIntegrators.cpp TransportMatrix.cpp SectorBend.cpp PSvector.cpp MultipoleField.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp
// Contracts of the element maps of the symplectic integrators: each map is the exact flow of the Hamiltonian of its
// element (equation of motion along the element, identity at zero length) and its Jacobian is symplectic.
#include "vc.h"
#include "SymplecticIntegrators.cpp"
using namespace ParticleTracking::SYMPLECTIC;

static const double SG[3] = {1, 1, 1};
static PSvector vec(const double* a) { PSvector v(0); for(int i = 0; i < 6; i++) v[i] = a[i]; return v; }
static void coords(double* a)
{
	a[0] = vc_real_("x", -.4, .4); a[1] = vc_real_("px", -.3, .3); a[2] = vc_real_("y", -.4, .4); a[3] = vc_real_("py", -.3, .3);
	a[4] = vc_real_("ct", -1, 1); a[5] = vc_real_("dp", -.2, .2);
	vc_assume(1 + a[5] > 0);
	vc_assume((1 + a[5]) * (1 + a[5]) - a[1] * a[1] - a[3] * a[3] > 0);   // the particle moves forwards
}
template<class F> void canonical(F f, double* in)
{
	double J[36];
	vc_reach("pre");
	vc_jacobian([&](const double* a, double* o) { PSvector v = vec(a); f(v); for(int i = 0; i < 6; i++) o[i] = v[i]; }, in, 6, J);
	vc_symplectic("symplectic", J, 6, SG);
}
template<class F> void canonical(F f) { double in[6]; coords(in); canonical(f, in); }
// mk(ds) makes the map of length ds; rhs(v, d) is the vector field of the element
template<class M, class R> void flow(M mk, R rhs)
{
	double in[7], J[49], d[6];
	coords(in);
	in[6] = vc_real_("ds", 0.1, 1);
	vc_assume(in[6] > 0);
	vc_reach("pre");
	vc_jacobian([&](const double* a, double* o) { PSvector v = vec(a); mk(a[6])(v); for(int i = 0; i < 6; i++) o[i] = v[i]; o[6] = a[6]; }, in, 7, J);
	PSvector v = vec(in);
	mk(in[6])(v);
	rhs(v, d);
	static const char* nm[6] = {"x'", "px'", "y'", "py'", "ct'", "dp'"};
	for(int i = 0; i < 6; i++) vc_eq(nm[i], J[i * 7 + 6], d[i]);
	vc_eq("dp unchanged", v.dp(), in[5]);
	PSvector w = vec(in);
	mk(0.0)(w);
	for(int i = 0; i < 6; i++) vc_eq("identity at zero length", w[i], in[i]);
}
template<class M> void both(M mk) { canonical(mk(vc_pos("ds"))); }

VC_ENTRY(drift_flow)
{
	flow([](double s) { return DriftMap(s); }, [](PSvector& v, double* d) {
		double pz = std::sqrt((1 + v.dp()) * (1 + v.dp()) - v.xp() * v.xp() - v.yp() * v.yp());
		d[0] = v.xp() / pz; d[1] = 0; d[2] = v.yp() / pz; d[3] = 0; d[4] = 1 - (1 + v.dp()) / pz; d[5] = 0; });
}
VC_ENTRY(drift_canonical) { both([](double s) { return DriftMap(s); }); }

// H = (px^2 + py^2)/2(1+d) + (h^2 + k) x^2/2 - k y^2/2 - h x d ;  ct' = dH/dd
static void bend(PSvector& v, double* d, double h, double k)
{
	double D = 1 + v.dp();
	d[0] = v.xp() / D; d[1] = -(h * h + k) * v.x() + h * v.dp();
	d[2] = v.yp() / D; d[3] = k * v.y();
	d[4] = -(v.xp() * v.xp() + v.yp() * v.yp()) / (2 * D * D) - h * v.x(); d[5] = 0;
}
VC_ENTRY(bend_flow)
{
	double h = vc_real("h"); vc_assume(h != 0);
	flow([=](double s) { return SectorBendMap(h, s); }, [=](PSvector& v, double* d) { bend(v, d, h, 0); });
}
VC_ENTRY(bend_canonical)
{
	double h = vc_real("h"); vc_assume(h != 0);
	both([=](double s) { return SectorBendMap(h, s); });
}
VC_ENTRY(quad_flow)
{
	double k = vc_real("k"); vc_assume(k != 0);
	flow([=](double s) { return QuadrupoleMap(k, s); }, [=](PSvector& v, double* d) { bend(v, d, 0, k); });
}
VC_ENTRY(quad_canonical)
{
	double k = vc_real("k"); vc_assume(k != 0);
	both([=](double s) { return QuadrupoleMap(k, s); });
}
VC_ENTRY(combined_flow)
{
	double h = vc_real("h"), k = vc_real("k"); vc_assume(h != 0); vc_assume(k != 0); vc_assume_far(k, -h * h, 1e-3);
	flow([=](double s) { return CombinedFunctionSectorBendMap(h, k, s); }, [=](PSvector& v, double* d) { bend(v, d, h, k); });
}
VC_ENTRY(combined_canonical)
{
	double h = vc_real("h"), k = vc_real("k"); vc_assume(h != 0); vc_assume(k != 0); vc_assume_far(k, -h * h, 1e-3);
	both([=](double s) { return CombinedFunctionSectorBendMap(h, k, s); });
}
// the exact bend (sign of h fixed by symmetry of the plane), for particles that move forwards at the exit too
struct ExactBend
{
	double h, s;
	ExactBend(double h_, double s_) : h(h_), s(s_) {}
	void operator()(PSvector& v) const
	{
		double A = (1 + v.dp()) * (1 + v.dp()) - v.yp() * v.yp();
		double w = std::sqrt(A - v.xp() * v.xp()) - h * (1 / h + v.x());
		double px = v.xp() * std::cos(s * h) + w * std::sin(s * h);
		vc_assume(A - px * px > 0);
		SectorBendMapEF(h, s)(v);
	}
};
VC_ENTRY(bend_exact_flow)
{
	double h = vc_real("h"); vc_assume(h != 0);
	flow([=](double s) { return ExactBend(h, s); }, [=](PSvector& v, double* d) {
		double pz = std::sqrt((1 + v.dp()) * (1 + v.dp()) - v.xp() * v.xp() - v.yp() * v.yp());
		double g = 1 + h * v.x();
		d[0] = g * v.xp() / pz; d[1] = h * pz - h * g; d[2] = g * v.yp() / pz; d[3] = 0; d[4] = 1 - g * (1 + v.dp()) / pz; d[5] = 0; });
}
VC_ENTRY(poleface)
{
	double h = vc_real("h"), th = vc_in("theta", -1.2, 1.2), fint = vc_in("fint", 0, 1), gap = vc_in("hgap", 0, 0.05);
	vc_assume(std::cos(th) > 0);
	vc_assume(std::cos(th - 2 * fint * gap * h * (1 + std::sin(th) * std::sin(th)) / std::cos(th)) != 0);
	SectorBend::PoleFace pf(th, fint, gap);
	PoleFaceRotation m(h, pf);
	double in[6]; coords(in);
	canonical(m, in);
	PSvector v = vec(in); m(v);
	vc_eq("horizontal kick", v.xp(), in[1] + h * std::tan(th) * in[0]);
	vc_eq("vertical kick", v.yp(), in[3] - h * std::tan(th - 2 * fint * gap * h * (1 + std::sin(th) * std::sin(th)) / std::cos(th)) * in[2]);
}
VC_ENTRY(rf_canonical)
{
	double V = vc_real("V"), k = vc_real("k"), ph = vc_real("phi"), dph = vc_real("dphi"), e = vc_real("Verr");
	RMtrx R(2); TransportMatrix::Drift(0, R.R);
	RFStructureMap m(V, e, k, ph, dph, R, false);
	double in[6]; coords(in);
	canonical(m, in);
	PSvector v = vec(in); m(v);
	vc_eq("energy gain", v.dp(), in[5] + V * (1 + e) * std::cos(ph + dph - k * in[4]));
	for(int i = 0; i < 5; i++) vc_eq("other coordinates unchanged", v[i], in[i]);
}
// Rosenzweig-Serafini structure: the trace space determinant is the energy ratio, the reference particle stays the reference
VC_ENTRY(rf_structure)
{
	double V = vc_in("V", -.4, .4), k = vc_in("k", 1, 60), ph = vc_in("phi", -1, 1), dph = vc_in("dphi", -.1, .1), e = vc_in("Verr", -.1, .1), l = vc_pos("l");
	vc_assume(V != 0); vc_assume(std::cos(ph) > .1);
	double d0 = 1 + V * std::cos(ph);
	RSRFStructureMap m(V, e, k, ph, dph, l);
	vc_reach("pre");
	vc_eq("adiabatic damping", (m.m11 * m.m22 - m.m12 * m.m21) * d0, 1);
	double in[6]; coords(in);
	PSvector v = vec(in);
	double k0 = std::sqrt((1.0 + v.dp()) * (1.0 + v.dp()) - v.xp() * v.xp() - v.yp() * v.yp());
	double d = (in[5] + V * (1 + e) * std::cos(ph + dph - k * in[4]) - V * std::cos(ph)) / d0;
	double xs = m.m21 * in[0] + m.m22 * (in[1] / k0), ys = m.m21 * in[2] + m.m22 * (in[3] / k0);
	double q = (1 + d) * (1 + d) - xs * xs - ys * ys;
	vc_assume(q > 0);
	m(v);
	vc_eq("x", v.x(), m.m11 * in[0] + m.m12 * in[1] / k0); vc_eq("y", v.y(), m.m11 * in[2] + m.m12 * in[3] / k0);
	vc_eq("dp", v.dp(), d); vc_eq("ct", v.ct(), in[4]);
	vc_eq("px", v.xp(), xs * std::sqrt(q)); vc_eq("py", v.yp(), ys * std::sqrt(q));
	PSvector r(0);
	RSRFStructureMap(V, 0, k, ph, 0, l)(r);
	for(int i = 0; i < 6; i++) vc_eq("reference particle", r[i], 0);
}
VC_ENTRY(rf_simple)
{
	double V = vc_in("V", -.4, .4), k = vc_in("k", 1, 60), ph = vc_in("phi", -1, 1), l = vc_pos("l");
	vc_assume(V != 0); vc_assume(std::cos(ph) > .1);
	double d0 = 1 + V * std::cos(ph);
	double in[6]; coords(in);
	vc_reach("pre");
	PSvector v = vec(in);
	SimpleRFStructureMap m(V, 0, k, ph, 0, l);
	double k0 = std::sqrt((1.0 + v.dp()) * (1.0 + v.dp()) - v.xp() * v.xp() - v.yp() * v.yp());
	double d = (in[5] + V * (std::cos(ph - k * in[4]) - std::cos(ph))) / d0, xs = in[1] / k0 / d0, ys = in[3] / k0 / d0;
	double q = (1 + d) * (1 + d) - xs * xs - ys * ys;
	vc_assume(q > 0);
	m(v);
	vc_eq("x", v.x(), in[0] + l * in[1] / k0); vc_eq("y", v.y(), in[2] + l * in[3] / k0); vc_eq("ct", v.ct(), in[4]);
	vc_eq("px", v.xp(), xs * std::sqrt(q)); vc_eq("py", v.yp(), ys * std::sqrt(q));
	vc_eq("energy gain relative to the reference", (1 + v.dp()) * d0, 1 + in[5] + V * std::cos(ph - k * in[4]));
	PSvector r(0);
	SimpleRFStructureMap(V, 0, k, ph, 0, l)(r);
	for(int i = 0; i < 6; i++) vc_eq("reference particle", r[i], 0);
}
