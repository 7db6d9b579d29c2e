// VC: units = HollowELensProcess.cpp HollowElectronLens.cpp ParticleBunch.cpp PSvector.cpp Drift.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp EMField.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp MerlinIO.cpp Transform3D.cpp Rot3Drep.cpp AxisRotations.cpp GeneralRotation.cpp IdentityRotation.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
// VC: polar = 1
// Contract of the hollow electron lens: every particle is kicked along the line to the axis of the lens, by the current inside
// its radius, once per passage and as often as the mode of operation says.
#include "vc.h"
#include "HollowELensProcess.h"
#include "HollowElectronLens.h"
#include "ParticleBunch.h"
#include "RandomNG.h"
#include "NumericalConstants.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "Drift.h"
using namespace ParticleTracking;

static double random_value; static int random_calls;
double RandomNG::uniform(double low, double high)
{
	vc_assert("range of the random number", (low == -1) & (high == 1));
	random_calls++;
	return random_value;
}
struct Kicks: public HollowELensProcess         // the two profiles by their contract: a function of the position, zero inside
{
	Kicks() : HollowELensProcess(1) {}
	double CalcKickSimple(Particle& p) { return vc_fun("simple", {p.x(), p.y()}); }
	double CalcKickRadial(Particle& p) { return vc_fun("radial", {p.x(), p.y()}); }
};
static HollowElectronLens& lens(int mode)
{
	HollowElectronLens& e = *new HollowElectronLens("lens", 3.0, mode, vc_real("current"), vc_pos("beta_e"), vc_pos("rigidity"), vc_pos("length"));
	double rmin = vc_pos("rmin"), d = vc_pos("thickness");
	vc_assume((rmin > 0.001) & (d > 0.001) & (e.ElectronBeta > 0.001) & (e.Rigidity > 0.001));
	e.SetRadii(rmin, rmin + d);
	e.XOffset = vc_real("xoffset"); e.YOffset = vc_real("yoffset");
	return e;
}
struct Passage
{
	HollowElectronLens& e; ParticleBunch& b; HollowELensProcess& p; PSvector q;
	long n, i;
	Passage(int mode, bool profiles = true) : e(lens(mode)), b(*new ParticleBunch(1.0, 1.0)), p(*new Kicks())
	{
		if(profiles) { if(vc_bool("measured")) e.SetRadialProfile(); }
		n = vc_len("n", 0); i = vc_symint("i", 0, 1000000);
		vc_assume(i < n);
		vc_vector("p", b.GetParticles(), n, sizeof(Particle) / 8);
		q = b.GetParticles()[i];
		random_calls = 0;
		p.InitialiseProcess(b);
		p.SetCurrentComponent(e);
		vc_assert("active in the lens", p.IsActive());
		vc_eq("whole lens in a step", p.GetMaxAllowedStepSize(), 3.0);
	}
	void kicked(double factor)
	{
		double u = q.x() - e.XOffset, v = q.y() - e.YOffset, R = std::sqrt(u * u + v * v);
		double s = e.SimpleProfile ? vc_fun("simple", {q.x(), q.y()}) : vc_fun("radial", {q.x(), q.y()}), t = factor * s;
		const PSvector& r = b.GetParticles()[i];
		vc_assert("no particle lost", (long) b.size() == n);
		vc_assert("others kept", (r.x() == q.x()) & (r.y() == q.y()) & (r.ct() == q.ct()) & (r.dp() == q.dp()));
		if(s == 0) { vc_assert("no kick", (r.xp() == q.xp()) & (r.yp() == q.yp())); return; }
		vc_eq("kick in x", (r.xp() - q.xp()) * R, R == 0 ? 0.0 : t * u);
		vc_eq("kick in y", (r.yp() - q.yp()) * R, R == 0 ? 0.0 : t * v);
		vc_assert("once per passage", !p.IsActive());
		vc_reach("post");
	}
};
VC_ENTRY(always_on)
{
	Passage l(0);
	l.p.DoProcess(l.e.GetLength());
	l.kicked(1);
	vc_assert("no random number", random_calls == 0);
}
VC_ENTRY(diffusive)         // on or off at random
{
	random_value = vc_real_("random", -1, 1);
	Passage l(2);
	l.p.DoProcess(l.e.GetLength());
	vc_assert("one random number", random_calls == 1);
	l.kicked(random_value >= 0 ? 1 : 0);
}
VC_ENTRY(turn_skip)         // every so many turns, two if not set
{
	Passage l(3);
	int skip = vc_int("skip", 0, 4), turn = vc_int("turn", 0, 8);
	if(skip) l.e.SetTurnskip(skip);
	l.e.Turn = turn;
	l.p.DoProcess(l.e.GetLength());
	vc_assert("turns counted", l.e.Turn == turn + 1);
	l.kicked((turn + 1) % (skip ? skip : 2) == 0 ? 1 : 0);
}
VC_ENTRY(resonant)          // follows the tune, swept in steps
{
	Passage l(1, false);
	int sweep = vc_int("sweep", 0, 1), turn = vc_int("turn", 0, 10);
	double tune = vc_real("tune"), dq = sweep > 0 ? 1.0 / 512 : 0.0, step = 1.0 / 1024, multi = vc_real("multiplier");
	l.e.SetAC(tune, dq, step, 2, multi);
	l.e.Turn = turn;
	l.p.DoProcess(l.e.GetLength());
	int t = turn + 1, levels = 5;
	vc_assert("turns counted", l.e.Turn == t);
	double q = sweep ? tune - dq + (t / 2) % levels * step : tune;
	l.kicked(0.5 * (1 + std::cos(multi * (t * q * 2 * pi))));
}
VC_ENTRY(elsewhere)         // in no other component, and not before its parameters are known
{
	ParticleBunch& b = *new ParticleBunch(1.0, 1.0);
	Drift d("d", 1.0);
	HollowELensProcess& p = *new Kicks();
	p.InitialiseProcess(b);
	p.SetCurrentComponent(d);
	vc_assert("not active", !p.IsActive());
	vc_reach("post");
}
VC_ENTRY(resonant_unset)    // resonant mode without its parameters kicks nothing
{
	Passage l(1);
	l.p.DoProcess(l.e.GetLength());
	l.kicked(0);
}
struct Profile
{
	HollowElectronLens& e; HollowELensProcess& p; double beta, dir;
	Profile() : e(lens(0)), p(*new HollowELensProcess(1))
	{
		e.SetElectronDirection(vc_bool("opposite"));
		p.currentComponentHEL = &e;
		beta = p.ProtonBeta = vc_pos("beta");
		vc_assume(beta > 0.001);
		dir = e.ElectronDirection ? 1 : -1;
	}
	double full(double R)       // deflection away from the axis by the whole current
	{
		return -dir * 2 * e.EffectiveLength * e.Current * (1 + dir * e.ElectronBeta * beta) / (R * 1e7 * e.Rigidity * e.ElectronBeta * beta);
	}
};
VC_ENTRY(simple_profile)    // uniform density between the radii
{
	Profile f;
	double R = vc_nonneg("R"), a = f.e.GetRmin(), c = f.e.GetRmax(), k = f.p.CalcKickSimple(R);
	if(R <= a) vc_eq("nothing inside", k, 0);
	else if(R < c) vc_eq("within", k * (c * c - a * a), (R * R - a * a) * f.full(R));
	else vc_eq("outside", k, f.full(R));
	vc_reach("post");
}
static double charge(double a, double b, double m, double fa, double fm, double fb) { return (b - a) * (a * fa + 4 * m * fm + b * fb) / 6; }      // integral of a parabola
VC_ENTRY(radial_profile)    // measured density
{
	Profile f;
	bool lhc = vc_bool("lhc");
	if(lhc) f.e.SetLHCRadialProfile();
	double R = vc_nonneg("R"), a = f.e.GetRmin(), k = f.p.CalcKickRadial(R);
	double r[5] = {a, (lhc ? 265 : 252.5) / 222.5 * a, (lhc ? 315 : 287) / 222.5 * a, (lhc ? 435 : 364.5) / 222.5 * a, (lhc ? 505 : 426.5) / 222.5 * a}, y[5] = {0, 917, 397, 228, 0};
	double all = 0, in = 0;
	for(int i = 0; i < 4; i++) {
		double q = charge(r[i], r[i + 1], (r[i] + r[i + 1]) / 2, y[i], (y[i] + y[i + 1]) / 2, y[i + 1]);
		all += q;
		if(R >= r[i + 1]) in += q;
		else if(R > r[i]) { double d = y[i] + (y[i + 1] - y[i]) * (R - r[i]) / (r[i + 1] - r[i]); in += charge(r[i], R, (r[i] + R) / 2, y[i], (y[i] + d) / 2, d); }
	}
	if(R <= a) vc_eq("nothing inside", k, 0);
	else vc_eq("current inside", k * all, in * f.full(R));
	vc_reach("post");
}
VC_ENTRY(radius)            // from the axis of the lens
{
	Profile f;
	PSvector p(0);
	p.x() = vc_real("x"); p.y() = vc_real("y");
	double u = p.x() - f.e.XOffset, v = p.y() - f.e.YOffset, R = std::sqrt(u * u + v * v);
	vc_assume(R > 0);
	if(vc_bool("measured")) vc_eq("measured", f.p.CalcKickRadial(p), f.p.CalcKickRadial(R));
	else vc_eq("simple", f.p.CalcKickSimple(p), f.p.CalcKickSimple(R));
	vc_reach("post");
}
VC_ENTRY(kf_velocity)       // relativistic velocity of the beam
{
	double P = vc_real_("momentum", 1, 7000), m = 0.9382720813;
	vc_assume(P > 0.1);
	ParticleBunch& b = *new ParticleBunch(P, 1.0);
	b.AddParticle(PSvector(0));
	HollowELensProcess& p = *new HollowELensProcess(1);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(lens(0));
	p.DoProcess(3.0);
	vc_eq("velocity of the protons", p.ProtonBeta * p.ProtonBeta * (P * P + m * m), P * P);
	vc_reach("post");
}
