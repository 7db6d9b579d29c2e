// shared by the harnesses of the particle tracking integrators
#include "vc.h"
#include "StandardMultipoles.h"
#include "SectorBend.h"
#include "Solenoid.h"
#include "Drift.h"
#include "TWRFStructure.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "ParticleBunch.h"

static RectMultipole* magnet(double len, int terms, Complex* c)   // field expansion c[0..terms-1]
{
	Quadrupole* m = new Quadrupole("m", len, 1.0);
	MultipoleField& f = m->GetField();
	f.expansion.clear();
	f.expansion.resize(terms, Complex(0, 0));
	for(int i = 0; i < terms; i++) f.expansion[i] = c[i];
	return m;
}
struct Particles
{
	long n, i;
	ParticleTracking::ParticleBunch b;
	PSvector p;
	double p0, q;
	Particles(double P0, double Q) : b(P0, Q), p0(P0), q(Q)
	{
		n = vc_len("n", 0); i = vc_symint("i", 0, 1000000);
		vc_assume(i < n);
		vc_vector("p", b.pArray, n, 6); vc_intfield(b.pArray, 48);
		p = b.pArray[i];
		vc_assume(1 + p.dp() > 0);
	}
	void forward() { vc_assume((1 + p.dp()) * (1 + p.dp()) - p.xp() * p.xp() - p.yp() * p.yp() > 0); }
	void result(const char* id, const PSvector& w)
	{
		PSvector r = b.pArray[i];
		for(int k = 0; k < 6; k++) vc_eq(id, r[k], w[k]);
		vc_assert("particle keeps its identity", r.id() == p.id());
		vc_assert("no particle lost", (long) b.size() == n);
		vc_reach("post");
	}
};
template<class CI, class C> void setup(CI& ci, C& comp, Particles& p) { ci.SetCurrentComponent(comp); ci.currentBunch = &p.b; }
// integrated kick of the multipole field: xp -= Re, yp += Im of q B l / P0
static void kick(PSvector& v, const Complex* c, int from, int terms, double B0, double len, double q, double P0, bool byD)
{
	Complex z(1, 0), z0(v.x(), v.y()), F(0, 0);
	for(int k = 0; k < terms; k++) { if(k >= from) F += c[k] * z; z *= z0; }
	double s = q * len * PhysicalUnits::eV * PhysicalConstants::SpeedOfLight / P0 * B0;
	if(byD) s = s / (1 + v.dp());
	v.xp() -= s * F.real(); v.yp() += s * F.imag();
}
