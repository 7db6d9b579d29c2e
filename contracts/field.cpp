// VC: units = MultipoleField.cpp EMField.cpp BzField.cpp TWRFfield.cpp SWRFfield.cpp TransRFfield.cpp StandardMultipoles.cpp RectMultipole.cpp SectorBend.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp CorrectorDipoles.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
// Contracts of the electromagnetic fields.
#include "vc.h"
#include "MultipoleField.h"
#include "BzField.h"
#include "TWRFfield.h"
#include "SWRFfield.h"
#include "TransRFfield.h"
#include "StandardMultipoles.h"
#include "CorrectorDipoles.h"
#include "SectorBend.h"

static Complex coef(int i)
{
	char a[3] = {'b', char('0' + i), 0}, b[3] = {'a', char('0' + i), 0};
	return Complex(vc_real(a), vc_real(b));
}
static Complex power(Complex z, int n) { Complex r(1, 0); while(n-- > 0) r *= z; return r; }
static void eq(const char* id, Complex a, Complex b) { vc_eq(id, a.real(), b.real()); vc_eq(id, a.imag(), b.imag()); }
static MultipoleField make(int t, Complex* c)
{
	double B0 = vc_real("B0");
	vc_assume_far(B0, 0, 1e-9);
	MultipoleField f(B0, t);
	for(int i = 0; i < t; i++) f.expansion[i] = c[i] = coef(i);
	return f;
}
static const int MAXT = 7;
VC_ENTRY(expansion)      // By + i Bx is the power series of the terms above exclude
{
	Complex c[MAXT];
	int t = vc_int("terms", 0, MAXT);
	MultipoleField f = make(t, c);
	double x = vc_real("x"), y = vc_real("y");
	int ex = vc_int("exclude", -1, MAXT);
	vc_reach("pre");
	Complex F = f.GetField2D(x, y, ex), G(0, 0);
	for(int i = ex + 1; i < t; i++) G += f.B0 * c[i] * power(Complex(x, y), i);
	eq("expansion", F, G);
	eq("all terms by default", f.GetField2D(x, y), f.GetField2D(x, y, -1));
	Vector3D B = f.GetBFieldAt(Point3D(x, y, vc_real("z")), vc_real("t"));
	Complex H = f.GetField2D(x, y);
	vc_eq("Bx", B.x, H.imag()); vc_eq("By", B.y, H.real()); vc_eq("Bz", B.z, 0);
	vc_assert("highest", f.HighestMultipole() == t - 1);
}
VC_ENTRY(maxwell)        // divergence and curl vanish everywhere
{
	Complex c[MAXT];
	int t = vc_int("terms", 1, MAXT);
	MultipoleField f = make(t, c);
	double r[2] = {vc_real("x"), vc_real("y")}, J[4];
	vc_reach("pre");
	vc_jacobian([&](const double* a, double* o) { Vector3D B = f.GetBFieldAt(Point3D(a[0], a[1], 0), 0); o[0] = B.x; o[1] = B.y; }, r, 2, J);
	vc_eq("divergence", J[0] + J[3], 0);
	vc_eq("curl", J[2] - J[1], 0);
}
VC_ENTRY(null_field)
{
	Complex c[MAXT];
	int t = vc_int("terms", 0, MAXT);
	MultipoleField f = make(t, c);
	f.SetFieldScale(0);
	vc_assert("null", f.IsNullField());
	eq("no field", f.GetField2D(vc_real("x"), vc_real("y")), Complex(0, 0));
	f.SetFieldScale(vc_pos("scale"));
	vc_eq("scale", f.GetFieldScale(), vc_again("scale"));
}
VC_ENTRY(normalised)     // K_n is the n-th derivative divided by the rigidity
{
	Complex c[MAXT];
	int t = vc_int("terms", 0, MAXT);
	MultipoleField f = make(t, c);
	double brho = vc_real("brho"), fac = 1;
	vc_assume(brho != 0);
	for(int n = 0; n <= MAXT; n++) {
		eq("Kn", f.GetKn(n, brho), n < t ? f.B0 * fac / brho * c[n] : Complex(0, 0));
		fac *= n + 1;
	}
	vc_assert("unchanged", (int) f.expansion.size() == t);
	vc_reach("post");
}
VC_ENTRY(constructors)   // a single multipole has the field asked for at the pole radius, or the derivative asked for
{
	int n = vc_int("n", 0, MAXT), k = vc_int("kind", 0, 2);
	bool skew = vc_bool("skew");
	double bn = vc_real("bn"), an = vc_real("an"), r0 = vc_pos("r0"), fac = 1;
	vc_assume_far(bn, 0, 1e-6); vc_assume(r0 < 1);
	for(int i = 2; i <= n; i++) fac *= i;
	vc_reach("pre");
	Complex u = skew ? Complex(0, 1) : Complex(1, 0);
	if(k == 0) { MultipoleField f(n, bn, an, r0); eq("field at the pole", f.B0 * f.expansion[n] * power(Complex(r0, 0), n), Complex(bn, an)); for(int i = 0; i < n; i++) eq("single", f.expansion[i], Complex(0, 0)); vc_assert("terms", f.HighestMultipole() == n); }
	else if(k == 1) { MultipoleField f(n, bn, r0, skew); eq("field at the pole", f.B0 * f.expansion[n] * power(Complex(r0, 0), n), bn * u); for(int i = 0; i < n; i++) eq("single", f.expansion[i], Complex(0, 0)); vc_assert("terms", f.HighestMultipole() == n); }
	else { MultipoleField f(n, bn, skew); eq("derivative", fac * f.B0 * f.expansion[n], bn * u); for(int i = 0; i < n; i++) eq("single", f.expansion[i], Complex(0, 0)); vc_assert("terms", f.HighestMultipole() == n); }
}
VC_ENTRY(zero_component)     // a component of zero strength gives no field
{
	int n = vc_int("n", 0, 3);
	MultipoleField f(n, 0, 0, vc_pos("r0"));
	eq("no field", f.GetField2D(vc_real("x"), vc_real("y")), Complex(0, 0));
	eq("no field", f.GetKn(n, 1), Complex(0, 0));
	eq("no field", f.GetComponent(n), Complex(0, 0));
}
VC_ENTRY(components)     // setting one component changes that term only, reading changes nothing
{
	Complex c[MAXT];
	int t = vc_int("terms", 0, 4), n = vc_int("n", 0, 5);
	MultipoleField f = make(t, c);
	double r0 = vc_pos("r0");
	eq("read", f.GetCoefficient(n, r0), n < t ? c[n] * power(Complex(r0, 0), n) : Complex(0, 0));
	eq("read", f.GetComponent(n, r0), n < t ? f.B0 * c[n] * power(Complex(r0, 0), n) : Complex(0, 0));
	vc_assert("reading changes nothing", (int) f.expansion.size() == t);
	double bn = vc_real("bn"), an = vc_real("an"), B0 = f.B0;
	if(vc_bool("coefficient")) { f.SetCoefficient(n, Complex(bn, an), r0); eq("coefficient", f.GetCoefficient(n, r0), Complex(bn, an)); }
	else { f.SetComponent(n, bn, an, r0); eq("component", f.GetComponent(n, r0), Complex(bn, an)); }
	vc_eq("scale kept", f.B0, B0);
	vc_assert("terms", (int) f.expansion.size() == (n < t ? t : n + 1));
	for(int i = 0; i < (int) f.expansion.size(); i++) if(i != n) eq("others kept", f.expansion[i], i < t ? c[i] : Complex(0, 0));
	vc_reach("post");
}
VC_ENTRY(half_turn)      // element turned about the vertical axis for traversal from the other end with unchanged optics
{
	Complex c[MAXT];
	int t = vc_int("terms", 0, MAXT);
	MultipoleField f = make(t, c);
	double x = vc_real("x"), y = vc_real("y");
	Complex F = f.GetField2D(-x, y), G;
	f.RotateY180();
	G = f.GetField2D(x, y);
	vc_eq("vertical field", G.real(), -F.real()); vc_eq("horizontal field", G.imag(), F.imag());
	f.RotateY180();
	for(int i = 0; i < t; i++) eq("two half turns", f.expansion[i], c[i]);
	vc_reach("post");
}
VC_ENTRY(lowest)
{
	int t = vc_int("terms", 1, 4), z = vc_int("zeros", 0, 3);
	Complex c[MAXT];
	MultipoleField f = make(t, c);
	if(z < t) {
		for(int i = 0; i < z; i++) f.expansion[i] = Complex(0, 0);
		if(vc_bool("re")) vc_assume(c[z].real() != 0); else vc_assume(c[z].imag() != 0);
		vc_reach("pre");
		vc_assert("first term that is not zero", f.LowestMultipole() == z);
	}
	for(int i = 0; i < t; i++) f.expansion[i] = Complex(0, 0);
	vc_assert("beyond the highest", f.LowestMultipole() > f.HighestMultipole());
}
static void lorentz(const EMField& f, bool electric)
{
	Point3D r(vc_real("x"), vc_real("y"), vc_real("z"));
	Vector3D v(vc_real("vx"), vc_real("vy"), vc_real("vz"));
	double q = vc_real("q"), t = vc_real("t");
	Vector3D E = f.GetEFieldAt(r, t), B = f.GetBFieldAt(r, t), F = f.GetForceAt(r, v, q, t);
	vc_eq("force x", F.x, q * (E.x + v.y * B.z - v.z * B.y));
	vc_eq("force y", F.y, q * (E.y + v.z * B.x - v.x * B.z));
	vc_eq("force z", F.z, q * (E.z + v.x * B.y - v.y * B.x));
	if(!electric) { vc_eq("no electric field", E.x, 0); vc_eq("no electric field", E.y, 0); vc_eq("no electric field", E.z, 0); }
	else { vc_eq("no magnetic field", B.x, 0); vc_eq("no magnetic field", B.y, 0); vc_eq("no magnetic field", B.z, 0); }
	vc_reach("post");
}
VC_ENTRY(force_multipole) { Complex c[MAXT]; int t = vc_int("terms", 0, 4); MultipoleField f = make(t, c); lorentz(f, false); }
VC_ENTRY(force_solenoid)
{
	BzField f(vc_real("Bz"));
	lorentz(f, false);
	Vector3D B = f.GetBFieldAt(Point3D(vc_again("x"), vc_again("y"), vc_again("z")), 0);
	vc_eq("along z", B.z, vc_again("Bz")); vc_eq("along z", B.x, 0); vc_eq("along z", B.y, 0);
	f.SetStrength(vc_real("Bnew")); vc_eq("strength", f.GetStrength(), vc_again("Bnew"));
}
static double W() { return 2 * M_PI * vc_pos("f"); }
VC_ENTRY(force_travelling)
{
	TWRFfield f(vc_pos("f"), vc_real("E"), vc_real("phi"));
	lorentz(f, true);
	Vector3D E = f.GetEFieldAt(Point3D(vc_again("x"), vc_again("y"), vc_again("z")), vc_again("t"));
	vc_eq("wave", E.z, vc_again("E") * std::cos(f.GetK() * vc_again("z") - f.w * vc_again("t") + vc_again("phi"))); vc_eq("wave", E.x, 0); vc_eq("wave", E.y, 0);
	vc_eq("wavelength", f.GetWavelength() * f.GetFrequency(), PhysicalConstants::SpeedOfLight);
	vc_eq("frequency", f.GetFrequency(), vc_again("f"));
	vc_eq("wave number", f.GetK() * PhysicalConstants::SpeedOfLight, f.w);
}
VC_ENTRY(force_standing)
{
	SWRFfield f(vc_pos("f"), vc_real("E"), vc_real("phi"));
	lorentz(f, true);
	Vector3D E = f.GetEFieldAt(Point3D(vc_again("x"), vc_again("y"), vc_again("z")), vc_again("t"));
	vc_eq("wave", E.z, vc_again("E") * std::cos(f.GetK() * vc_again("z")) * std::cos(f.w * vc_again("t") + vc_again("phi"))); vc_eq("wave", E.x, 0); vc_eq("wave", E.y, 0);
}
VC_ENTRY(force_transverse)
{
	TransverseRFfield f(vc_pos("f"), vc_real("E"), vc_real("phi"), vc_real("theta"));
	lorentz(f, true);
	Vector3D E = f.GetEFieldAt(Point3D(vc_again("x"), vc_again("y"), vc_again("z")), vc_again("t"));
	double e = vc_again("E") * std::cos(f.GetK() * vc_again("z") - f.w * vc_again("t") + vc_again("phi"));
	vc_eq("wave", E.x, e * std::cos(vc_again("theta"))); vc_eq("wave", E.y, e * std::sin(vc_again("theta"))); vc_eq("wave", E.z, 0);
}
template<class M> static void element(int n, bool skew)      // the magnet classes have the pole number they are named after
{
	double len = vc_pos("len"), b = vc_real("b"), r0 = vc_pos("r0");
	vc_assume(r0 > 0.01);
	double fac = 1; for(int i = 2; i <= n; i++) fac *= i;
	Complex u = skew ? Complex(0, 1) : Complex(1, 0);
	M m("m", len, b), p("p", len, b, r0);
	vc_assert("pole number", (m.GetPrimaryPoleNo() == n) & (p.GetPrimaryPoleNo() == n));
	vc_assert("pole number", (m.GetField().HighestMultipole() == n) & (p.GetField().HighestMultipole() == n));
	eq("derivative", m.GetField().GetKn(n, 1), b * u);
	eq("field at the pole", p.GetField().GetComponent(n, r0), b * u);
	vc_eq("length", m.GetLength(), len); vc_eq("length", p.GetLength(), len);
	for(int i = 0; i < n; i++) { eq("single", m.GetField().GetComponent(i), Complex(0, 0)); eq("single", p.GetField().GetComponent(i), Complex(0, 0)); }
	M* c = static_cast<M*>(m.Copy());
	vc_assert("a copy has its own field", (&c->GetField() != &m.GetField()) & (&c->GetGeometry() != &m.GetGeometry()));
	m.GetField().SetCoefficient(n, Complex(7, 7));
	eq("a copy keeps its field", c->GetField().GetKn(n, 1), b * u);
	vc_eq("a copy keeps its length", c->GetLength(), len);
	vc_reach("post");
}
VC_ENTRY(quadrupole) { element<Quadrupole>(1, false); }
VC_ENTRY(skew_quadrupole) { element<SkewQuadrupole>(1, true); }
VC_ENTRY(sextupole) { element<Sextupole>(2, false); }
VC_ENTRY(skew_sextupole) { element<SkewSextupole>(2, true); }
VC_ENTRY(octupole) { element<Octupole>(3, false); }
VC_ENTRY(decapole) { element<Decapole>(4, false); }
VC_ENTRY(bend)           // matched momentum, also of the bend turned end for end
{
	double len = vc_pos("len"), h = vc_real("h"), b = vc_real("b"), q = vc_bool("neg") ? -1.0 : 1.0, b1 = vc_real("b1");
	vc_assume(h != 0); vc_assume_far(b, 0, 1e-9);
	SectorBend m("m", len, h, b);
	SectorBend::PoleFace* f1 = new SectorBend::PoleFace(0.1), * f2 = new SectorBend::PoleFace(0.2);
	m.SetPoleFaceInfo(f1, f2);
	double P = m.GetMatchedMomentum(q);
	vc_eq("matched momentum", P * h * q, 1e-9 * PhysicalConstants::SpeedOfLight * b);
	m.SetB1(b1);
	vc_eq("gradient", m.GetB1(), b1); vc_eq("gradient", m.GetField().GetKn(1, 1).real(), b1);
	vc_eq("dipole kept", m.GetMatchedMomentum(q), P);
	m.RotateY180();
	vc_eq("same momentum from the other end", m.GetMatchedMomentum(q), P);
	vc_eq("same focusing from the other end", m.GetB1(), b1);
	vc_eq("curvature", m.GetGeometry().GetCurvature(), -h);
	vc_assert("faces swapped", (m.GetPoleFaceInfo().entrance == f2) & (m.GetPoleFaceInfo().exit == f1));
	SectorBend* c = static_cast<SectorBend*>(m.Copy());
	vc_assert("a copy has its own faces", (c->GetPoleFaceInfo().entrance != f2) & (c->GetPoleFaceInfo().exit != f1));
	vc_eq("a copy has the same faces", c->GetPoleFaceInfo().entrance->rot, 0.2); vc_eq("a copy has the same faces", c->GetPoleFaceInfo().exit->rot, 0.1);
	vc_reach("post");
}
