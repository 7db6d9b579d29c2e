// VC: units = TransferMatrix.cpp Dispersion.cpp PhaseAdvance.cpp RingDeltaTProcess.cpp TrackingSimulation.cpp ProcessStepManager.cpp ComponentTracker.cpp ParticleBunch.cpp PSvector.cpp AcceleratorModelConstructor.cpp AcceleratorModel.cpp ElementRepository.cpp StringPattern.cpp SequenceFrame.cpp LatticeFrame.cpp ComponentFrame.cpp SupportStructure.cpp SectorBend.cpp MultipoleField.cpp EMField.cpp Drift.cpp Marker.cpp Monitor.cpp BPM.cpp RMSProfileMonitor.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp Transform3D.cpp Rot3Drep.cpp AxisRotations.cpp GeneralRotation.cpp IdentityRotation.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp ChannelServer.cpp Channels.cpp Transformable.cpp MerlinIO.cpp
// Contracts of the optics calculations: transfer matrix, closed orbit, dispersion, lattice functions.
// The components are boxes that apply a map of the contract; solvers and eigenvectors enter by their contracts.
#include "vc.h"
#include <fstream>
#include "ParticleBunch.h"
#include "ParticleTracker.h"
#include "AcceleratorModelConstructor.h"
#include "ClosedOrbit.h"
#include "TransferMatrix.h"
#include "Dispersion.h"
#include "PhaseAdvance.h"
#include "RingDeltaTProcess.h"
#include "SectorBend.h"
#include "Drift.h"
#include "ChannelServer.h"
#include "SequenceFrame.h"
#include "ring_iterator.h"
#include "MatrixPrinter.h"
struct vc_sink { vc_sink(const char*) {} operator std::ostream&() { return std::cout; } };      // files written on the side are left out
static vc_sink& operator<<(vc_sink& s, std::ostream& (*)(std::ostream&)) { return s; }
#define ofstream vc_sink
#include "LatticeFunctions.cpp"
#undef ofstream
void MatrixForm(const RealMatrix&, std::ostream&, const OPFormat&) {}
ChannelServer* ConstructChannelServer() { return new ChannelServer(); }


struct Box: public AcceleratorComponent {
	int n;
	Box(int n, double l) : AcceleratorComponent("B", new RectangularGeometry(l), nullptr), n(n) {}
	static const int ID;
	const std::string& GetType() const { _TYPESTR(Box) }
	int GetIndex() const { return ID; }
	void PrepareTracker(ComponentTracker& t) { _PREPTRACK(t, AcceleratorComponent) }
	void RotateY180() {}
	ModelElement* Copy() const { return nullptr; }
};
const int Box::ID = UniqueIndex();
static PSvector entered;        // where the reference particle of the last turn started
static void (*boxmap)(PSvector&, int);
struct BoxCI: public ParticleComponentTracker::Integrator<Box> {
	void TrackStep(double) { if(currentComponent->n == 0) entered = currentBunch->FirstParticle(); for(ParticleBunch::iterator i = currentBunch->begin(); i != currentBunch->end(); ++i) boxmap(*i, currentComponent->n); }
};
struct BoxSet: public ParticleComponentTracker::ISetBase { void Init(ParticleComponentTracker& t) const { t.Register(new BoxCI); } };
template<> ParticleComponentTracker::ISetBase* TBunchCMPTracker<ParticleBunch>::defIS = nullptr;
static double len[3];
static AcceleratorModel* boxes(int n, void (*m)(PSvector&, int))
{
	ParticleComponentTracker::SetDefaultIntegratorSet(new BoxSet);
	boxmap = m;
	AcceleratorModelConstructor c;
	for(int i = 0; i < n; i++) {
		len[i] = i == 0 ? vc_pos("length0") : i == 1 ? vc_pos("length1") : vc_pos("length2");
		vc_assume(len[i] > 1e-9);
		c.AppendComponentFrame(new TComponentFrame<Box>(*new Box(i, len[i])));
	}
	return c.GetModel();
}
static double coef[36];
static void coefs(int n)
{
	static const char* const names[] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "a10", "a11", "a12", "a13", "a14", "a15", "a16", "a17", "a18", "a19", "a20", "a21", "a22", "a23",
		"a24", "a25", "a26", "a27", "a28", "a29", "a30", "a31", "a32", "a33", "a34", "a35"};
	for(int i = 0; i < n; i++) coef[i] = vc_real(names[i]);
}
static PSvector point(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f)
{
	PSvector p(0);
	p.x() = vc_real(a); p.xp() = vc_real(b); p.y() = vc_real(c); p.yp() = vc_real(d); p.ct() = vc_real(e); p.dp() = vc_real(f);
	return p;
}
static void full(PSvector& p, int)
{
	double v[6];
	for(int i = 0; i < 6; i++) { v[i] = 0; for(int j = 0; j < 6; j++) v[i] += coef[6 * i + j] * p[j]; }
	for(int i = 0; i < 6; i++) p[i] = v[i];
}
VC_ENTRY(transfer_matrix)       // columns are the images of displacements in the six coordinates
{
	coefs(36);
	AcceleratorModel* m = boxes(1, full);
	TransferMatrix tm(m, 1.0);
	double d = vc_pos("delta");
	tm.SetDelta(d);
	PSvector orbit = point("x", "xp", "y", "yp", "ct", "dp");
	RealMatrix M(6);
	if(vc_bool("range")) tm.FindTM(M, orbit, 0, 0); else tm.FindTM(M, orbit);
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) vc_eq("element", M(i, j), coef[6 * i + j]);
	vc_reach("post");
}
static void shears(PSvector& p, int n) { if(n == 1) p.xp() += coef[1] * p.x(); else p.x() += coef[n] * p.xp(); }
VC_ENTRY(transfer_range)        // over a range of components or one turn from any component
{
	coefs(3);
	AcceleratorModel* m = boxes(3, shears);
	TransferMatrix tm(m, 1.0);
	PSvector orbit = point("x", "xp", "y", "yp", "ct", "dp");
	tm.SetDelta(vc_pos("delta"));
	RealMatrix M(6);
	bool ring = vc_bool("ring");
	int a = vc_int("from", 0, 2), b = vc_int("to", 0, 2);
	vc_assume(ring || b >= a);
	if(ring) { tm.SetObservationPoint(a); tm.FindTM(M, orbit); }
	else tm.FindTM(M, orbit, a, b);
	for(int j = 0; j < 2; j++) {
		PSvector u(0);
		u[j] = 1;
		for(int k = 0; k < (ring ? 3 : b - a + 1); k++) shears(u, (a + k) % 3);
		for(int i = 0; i < 6; i++) vc_eq("column", M(i, j), u[i]);
	}
	for(int j = 2; j < 6; j++) for(int i = 0; i < 6; i++) vc_eq("other planes", M(i, j), i == j ? 1 : 0);
	vc_reach("post");
}
// ring with a known closed orbit: c in all coordinates, or c + D dp in the transverse ones
static double orb[6], disp[4]; static int dims;
static double off(const PSvector& p, int j) { return p[j] - orb[j] - (dims == 4 ? disp[j] * p[5] : 0.0); }
static void about(PSvector& p, int)
{
	double v[6];
	for(int i = 0; i < dims; i++) { v[i] = p[i] - off(p, i); for(int j = 0; j < dims; j++) v[i] += coef[6 * i + j] * off(p, j); }
	for(int i = 0; i < dims; i++) p[i] = v[i];
	if(dims == 4) p[4] += coef[24] * p[0] + coef[25] * p[5];
}

#include "TLASimp.h"
namespace TLAS {                // the solver by its contract: x with dg x = rhs
template<> void SVDMatrix<double>::Init(const Matrix<double>& M, double)
{
	w.redim(M.ncols()); u.copy(M);
	vc_assert("size of the system", (M.nrows() == (size_t) dims) & (M.ncols() == (size_t) dims));
	for(int i = 0; i < dims; i++) for(int j = 0; j < dims; j++) vc_eq("matrix of the system", 1e-6 * M(i, j), 1e-6 * (coef[6 * i + j] - (i == j ? 1 : 0)));       // differences of close orbits: rounding matters natively
}
template<> Vector<double> SVDMatrix<double>::operator()(const Vector<double>& rhs) const
{
	Vector<double> x(dims);
	for(int i = 0; i < dims; i++) {
		double r = 0;
		x(i) = off(entered, i);
		for(int j = 0; j < dims; j++) r += (coef[6 * i + j] - (i == j ? 1 : 0)) * off(entered, j);
		vc_eq("right hand side", rhs(i), r);
	}
	return x;
}
}
#include "ClosedOrbit.cpp"
static void orbit_of_ring(bool transverse)
{
	coefs(transverse ? 26 : 36);
	dims = transverse ? 4 : 6;
	PSvector o = point("orbit x", "orbit xp", "orbit y", "orbit yp", "orbit ct", "orbit dp");
	for(int i = 0; i < 6; i++) orb[i] = o[i];
	disp[0] = vc_real("Dx"); disp[1] = vc_real("Dxp"); disp[2] = vc_real("Dy"); disp[3] = vc_real("Dyp");
}
VC_ENTRY(closed_orbit)          // six dimensions
{
	orbit_of_ring(false);
	ClosedOrbit co(boxes(1, about), 1.0);
	PSvector p = point("x", "xp", "y", "yp", "ct", "dp");
	co.SetDelta(vc_pos("delta"));
	co.FindClosedOrbit(p);
	for(int i = 0; i < 6; i++) vc_eq("closed orbit", p[i], orb[i]);
	vc_reach("post");
}
VC_ENTRY(closed_orbit_4d)       // transverse, at a given momentum and time
{
	orbit_of_ring(true);
	ClosedOrbit co(boxes(1, about), 1.0);
	PSvector p = point("x", "xp", "y", "yp", "ct", "dp");
	double ct = p.ct(), dp = p.dp();
	co.TransverseOnly(true);
	co.SetDelta(vc_pos("delta"));
	co.FindClosedOrbit(p);
	for(int i = 0; i < 4; i++) vc_eq("closed orbit", p[i], orb[i] + disp[i] * dp);
	vc_eq("time kept", p.ct(), ct);
	vc_eq("momentum kept", p.dp(), dp);
	vc_reach("post");
}
VC_ENTRY(dispersion)
{
	orbit_of_ring(true);
	Dispersion d(boxes(1, about), 1.0);
	d.SetDelta(vc_pos("delta"));
	d.FindDispersion();
	vc_eq("Dx", d.Dx, disp[0]); vc_eq("Dxp", d.Dxp, disp[1]); vc_eq("Dy", d.Dy, disp[2]); vc_eq("Dyp", d.Dyp, disp[3]);
	vc_reach("post");
}
static void around(PSvector& p, int n)      // there and back, then the turn
{
	if(n == 0) { p[0] += coef[30] * p[1] + coef[31] * p[5]; p[2] += coef[32] * p[3] + coef[33] * p[5]; return; }
	p[0] -= coef[30] * p[1] + coef[31] * p[5]; p[2] -= coef[32] * p[3] + coef[33] * p[5];
	about(p, 0);
}
VC_ENTRY(rms_dispersion)        // quadratic mean along the line
{
	coefs(36);
	dims = 4;
	for(int i = 0; i < 6; i++) orb[i] = 0;
	disp[0] = vc_real("Dx"); disp[1] = vc_real("Dxp"); disp[2] = vc_real("Dy"); disp[3] = vc_real("Dyp");
	Dispersion d(boxes(2, around), 1.0);
	d.SetDelta(vc_pos("delta"));
	d.FindRMSDispersion();
	double x1 = disp[0] + coef[30] * disp[1] + coef[31], y1 = disp[2] + coef[32] * disp[3] + coef[33], L = len[0] + len[1];
	vc_eq("Dx", d.DxRMS * d.DxRMS * L, L * (disp[0] * disp[0] + x1 * x1) / 2);
	vc_eq("Dy", d.DyRMS * d.DyRMS * L, L * (disp[2] * disp[2] + y1 * y1) / 2);
	vc_assert("not negative", (d.DxRMS >= 0) & (d.DyRMS >= 0));
	vc_reach("post");
}
static void cycle(PSvector& p, int n)       // a kick in every coordinate
{
	for(int i = 0; i < 6; i++) p[i] += coef[6 * n + i];
}
VC_ENTRY(rms_orbit)     // quadratic mean of the middle of each component, weighted with its length
{
	coefs(12);
	ClosedOrbit co(boxes(2, cycle), 1.0);
	PSvector p = point("x", "xp", "y", "yp", "ct", "dp"), a = p, b;
	co.FindRMSOrbit(p);
	b = a; cycle(b, 0);
	PSvector c = b; cycle(c, 1);
	double L = len[0] + len[1];
	for(int i = 0; i < 6; i++) {
		double m0 = (a[i] + b[i]) / 2, m1 = (b[i] + c[i]) / 2;
		vc_eq("mean square", p[i] * p[i] * L, len[0] * m0 * m0 + len[1] * m1 * m1);
		vc_assert("not negative", p[i] >= 0);
	}
	vc_reach("post");
}
#ifdef VC_NATIVE      // natively lengths are multiples of 1/1024, so that their sums are exact
static double grid(double x) { return std::floor(x * 1024 + 0.5) / 1024; }
#else
static double grid(double x) { return x; }
#endif
VC_ENTRY(bend_path)     // path length added in bends only, in proportion to the length
{
	bool bend = vc_bool("bend");
	double L = grid(vc_pos("L")), s1 = grid(vc_nonneg("s1")), scale = vc_real("scale");
	vc_assume(s1 < L);
	SectorBend b("b", L, 0.1, 0.1);
	Drift d("d", L);
	ParticleBunch bunch(1.0, 1.0);
	PSvector p = point("x", "xp", "y", "yp", "ct", "dp");
	bunch.push_back(p); bunch.push_back(PSvector(0));
	RingDeltaTProcess r(2);
	r.InitialiseProcess(bunch);
	r.SetBendScale(scale);
	if(bend) r.SetCurrentComponent(b); else r.SetCurrentComponent(d);
	vc_assert("in bends only", r.IsActive() == bend);
	if(bend) {
		vc_eq("largest step", r.GetMaxAllowedStepSize(), L);
		r.DoProcess(s1);
		vc_assert("still active", r.IsActive());
		vc_eq("rest", r.GetMaxAllowedStepSize(), L - s1);
		r.DoProcess(L - s1);
		vc_assert("done", !r.IsActive());
	}
	PSvector& q = bunch.GetParticles()[0];
	vc_eq("path length", q.ct(), p.ct() + (bend ? scale * L : 0.0));
	vc_eq("path length of the other", bunch.GetParticles()[1].ct(), bend ? scale * L : 0.0);
	vc_assert("others kept", (q.x() == p.x()) & (q.xp() == p.xp()) & (q.y() == p.y()) & (q.yp() == p.yp()) & (q.dp() == p.dp()));
	vc_reach("post");
}
static void phases(bool hor)    // whole turns of the phase are counted
{
	AcceleratorModelConstructor c;
	AcceleratorModel* m = c.GetModel();
	LatticeFunctionTable t(m, 1.0);
	t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2);
	LatticeFunction* x = *t.GetColumn(0, 0, hor ? 1 : 2);
	LatticeFunction* y = *t.GetColumn(0, 0, hor ? 2 : 1);
	double mu[4];
	int turns[4];
	for(int i = 0; i < 4; i++) {
		mu[i] = i == 0 ? 0 : i == 1 ? vc_real_("mu1", 0, 1) : i == 2 ? vc_real_("mu2", 0, 1) : vc_real_("mu3", 0, 1);
		if(i > 0) { vc_assume(mu[i] > 0); vc_assume((mu[i] < 0.9999 * mu[i - 1]) | (mu[i] >= mu[i - 1])); }
		turns[i] = i == 0 ? 0 : turns[i - 1] + (mu[i] < mu[i - 1]);
		x->AppendValue(mu[i]); y->AppendValue(i * 0.125);
	}
	PhaseAdvance ph(m, &t, 1.0);
	int a = vc_int("from", 0, 3), b = vc_int("to", 0, 3);
	double d = turns[b] + mu[b] - turns[a] - mu[a], other = (b - a) * 0.125;
	vc_eq("horizontal", ph.GetPhaseAdvanceX(b, a), hor ? d : other);
	vc_eq("vertical", ph.GetPhaseAdvanceY(b, a), hor ? other : d);
	vc_eq("between", ph.PhaseAdvanceBetween(a, b, hor), d);
	vc_reach("post");
}
VC_ENTRY(phase_advance_x) { phases(true); }
VC_ENTRY(phase_advance_y) { phases(false); }
// lattice functions: products of the eigenvectors, carried along the line
static double K[2], H[2], V[2], C[2], S[2];
static void cell(PSvector& p, int n)
{
	p[1] += K[n] * p[0] + H[n] * p[5]; p[0] += len[n] * p[1];
	p[3] += V[n] * p[2] + C[n] * p[0]; p[2] += len[n] * p[3];
	p[4] += S[n] * p[5];
}
static void uncell(PSvector& p, int n)
{
	p[4] -= S[n] * p[5];
	p[2] -= len[n] * p[3]; p[3] -= V[n] * p[2] + C[n] * p[0];
	p[0] -= len[n] * p[1]; p[1] -= K[n] * p[0] + H[n] * p[5];
}
static Complex ev[3][6];
static bool stable, symplectified; static int inverted;
static PSvector unit(int j) { PSvector p(0); p[j] = 1; return p; }
namespace TLAS {
bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigenvectors)
{
	for(int j = 0; j < 6; j++) {
		PSvector u = unit(j);
		for(int n = 0; n < 2; n++) cell(u, n);
		for(int i = 0; i < 6; i++) vc_eq("matrix of the turn", t(i, j), u[i]);
	}
	eigenvectors.redim(3, 6);
	for(int k = 0; k < 3; k++) for(int i = 0; i < 6; i++) eigenvectors(k, i) = ev[k][i];
	return stable;
}
double Invert(RealMatrix& t)
{
	int n = t.nrows();
	vc_assert("dimensions", n == (stable ? 6 : 4));
	for(int j = 0; j < n; j++) {
		PSvector u = unit(j);
		for(int b = 0; b < inverted; b++) cell(u, b);
		for(int i = 0; i < n; i++) vc_eq("matrix up to here", t(i, j), u[i]);
		u = unit(j);
		for(int b = inverted - 1; b >= 0; b--) uncell(u, b);
		for(int i = 0; i < n; i++) t(i, j) = u[i];
	}
	inverted++;
	return 1;
}
void Symplectify(RealMatrix&) { symplectified = true; }
}
static void lattice_setup()
{
	K[0] = vc_real("k0"); K[1] = vc_real("k1"); H[0] = vc_real("h0"); H[1] = vc_real("h1"); V[0] = vc_real("v0"); V[1] = vc_real("v1");
	C[0] = vc_real("c0"); C[1] = vc_real("c1"); S[0] = vc_real("s0"); S[1] = vc_real("s1");
	inverted = 0; symplectified = false;
	static const char* const re[] = {"r00", "r01", "r02", "r03", "r04", "r05", "r10", "r11", "r12", "r13", "r14", "r15", "r20", "r21", "r22", "r23", "r24", "r25"};
	static const char* const im[] = {"i00", "i01", "i02", "i03", "i04", "i05", "i10", "i11", "i12", "i13", "i14", "i15", "i20", "i21", "i22", "i23", "i24", "i25"};
	for(int i = 0; i < 18; i++) { double a = vc_real(re[i]), b = vc_real(im[i]); ev[i / 6][i % 6] = Complex(a, b); }
	for(int k = 0; k < 3; k++) vc_assume(std::norm(ev[k][2 * k]) > 1e-6);
}
static void lattice(bool phases, int plane)
{
	AcceleratorModel* m = boxes(2, cell);
	lattice_setup();
	stable = plane == 2 || vc_bool("stable");
	double angle = 0, h = 0;
	if(phases) {            // the first element of the vector is real but for a common phase
		angle = vc_real_("angle", -3, 3); h = vc_real_("h", 0.01, 100);
		vc_assume((angle > -3.1415926) & (angle < 3.1415926) & (h > 0));
		ev[plane][2 * plane] = Complex(h, 0);
	}
	PSvector re[3], im[3];
	for(int k = 0; k < 3; k++) for(int i = 0; i < 6; i++) { re[k][i] = ev[k][i].real(); im[k][i] = ev[k][i].imag(); if(!stable && i > 3) re[k][i] = im[k][i] = 0; }
	if(phases) for(int i = 0; i < 6; i++) { double a = ev[plane][i].real(), b = ev[plane][i].imag(); ev[plane][i] = Complex(a * std::cos(angle) - b * std::sin(angle), a * std::sin(angle) + b * std::cos(angle)); }
	LatticeFunctionTable t(m, 1.0);
	t.SetDelta(vc_pos("delta"));
	t.RemoveAllFunctions();
	static const int f[][3] = {{1, 1, 1}, {1, 2, 1}, {3, 3, 2}, {3, 4, 2}, {1, 3, 2}, {1, 6, 3}, {6, 6, 3}};
	int nf = stable ? 7 : 5;
	if(!phases) for(int i = 0; i < nf; i++) t.AddFunction(f[i][0], f[i][1], f[i][2]);
	else t.AddFunction(0, 0, plane + 1);
	t.AddFunction(1, 0, 0); t.AddFunction(4, 0, 0); t.AddFunction(6, 0, 0);
	PSvector orbit = point("x", "xp", "y", "yp", "ct", "dp");
	RealMatrix M(6);
	for(int j = 0; j < 6; j++) { PSvector u = unit(j); cell(u, 0); cell(u, 1); for(int i = 0; i < 6; i++) M(i, j) = u[i]; }
	if(vc_bool("given")) t.Calculate(&orbit, &M); else t.Calculate(&orbit);
	vc_assert("rows", t.NumberOfRows() == 3);
	PSvector o = orbit;
	double s = 0;
	for(int r = 0; r < 3; r++) {
		vc_eq("position", t.Value(0, 0, 0, r), s);
		vc_eq("orbit x", t.Value(1, 0, 0, r), o.x()); vc_eq("orbit yp", t.Value(4, 0, 0, r), o.yp()); vc_eq("orbit dp", t.Value(6, 0, 0, r), o.dp());
		if(!phases) for(int i = 0; i < nf; i++) {
			int a = f[i][0] - 1, b = f[i][1] - 1, k = f[i][2] - 1;
			vc_eq("lattice function", t.Value(f[i][0], f[i][1], f[i][2], r), 2 * (re[k][a] * re[k][b] + im[k][a] * im[k][b]));
		}
		else {
			int d = 2 * plane;
			vc_assume(r == 0 || std::fabs(im[plane][d]) > 1e-6);        // off the cut
			double v = t.Value(0, 0, plane + 1, r), turns = std::atan2(std::sqrt(2.) * im[plane][d], std::sqrt(2.) * re[plane][d]) / twoPi;
			if(plane != 2 && turns < -1e-9) turns += 1;
			vc_eq("phase", v, turns);
		}
		if(r == 2) break;
		cell(o, r); s += len[r];
		for(int k = 0; k < 3; k++) { cell(re[k], r); cell(im[k], r); }
	}
	vc_assert("left alone", !symplectified);
	vc_reach("post");
}
VC_ENTRY(lattice_functions) { lattice(false, 0); }
VC_ENTRY(lattice_phase_x) { lattice(true, 0); }
VC_ENTRY(lattice_phase_y) { lattice(true, 1); }
VC_ENTRY(lattice_phase_z) { lattice(true, 2); }
VC_ENTRY(lattice_orbit)         // orbit only: one row per component, at its entrance
{
	AcceleratorModel* m = boxes(2, cell);
	lattice_setup();
	LatticeFunctionTable t(m, 1.0);
	t.UseOrbitFunctions();
	PSvector o = point("x", "xp", "y", "yp", "ct", "dp");
	t.Calculate(&o);
	double s = 0;
	for(int r = 0; r < 2; r++) {
		vc_eq("position", t.Value(0, 0, 0, r), s);
		for(int i = 0; i < 4; i++) vc_eq("orbit", t.Value(i + 1, 0, 0, r), o[i]);
		cell(o, r); s += len[r];
	}
	vc_reach("post");
}
VC_ENTRY(lattice_table)         // reading a table: values, positions, means along the line
{
	AcceleratorModelConstructor c;
	LatticeFunctionTable t(c.GetModel(), 1.0);
	t.RemoveAllFunctions();
	t.AddFunction(1, 1, 1); t.AddFunction(3, 3, 2);
	LatticeFunction* s = *t.GetColumn(0, 0, 0);
	LatticeFunction* x = *t.GetColumn(1, 1, 1);
	LatticeFunction* y = *t.GetColumn(3, 3, 2);
	double sv[4], xv[4];
	for(int i = 0; i < 4; i++) {
		double d = i == 0 ? vc_nonneg("s0") : i == 1 ? vc_pos("d1") : i == 2 ? vc_pos("d2") : vc_pos("d3");
		vc_assume(d > 0.001);
		sv[i] = i ? sv[i - 1] + d : d;
		xv[i] = i == 0 ? vc_real("v0") : i == 1 ? vc_real("v1") : i == 2 ? vc_real("v2") : vc_real("v3");
		s->AppendValue(sv[i]); x->AppendValue(xv[i]); y->AppendValue(i);
	}
	int rows, cols;
	t.Size(rows, cols);
	vc_assert("size", (rows == 4) & (cols == 3));
	for(int i = 0; i < 4; i++) { vc_eq("value", t.Value(1, 1, 1, i), xv[i]); vc_eq("value", t.Value(3, 3, 2, i), i); vc_eq("position", t.Value(0, 0, 0, i), sv[i]); }
	int n1 = vc_int("n1", -1, 2), n2 = vc_int("n2", -1, 4), a = n1 < 0 ? 0 : n1, b = (n2 >= 4) | (n2 < a) ? 3 : n2;
	vc_assume(b > a);
	double L = sv[b] - sv[a], m = 0, q = 0;
	for(int i = a; i < b; i++) { m += (sv[i + 1] - sv[i]) * (xv[i] + xv[i + 1]) / 2; q += (sv[i + 1] - sv[i]) * (xv[i] * xv[i] + xv[i + 1] * xv[i + 1]) / 2; }
	vc_eq("mean", t.Mean(1, 1, 1, n1, n2) * L, m);
	double r = t.RMS(1, 1, 1, n1, n2);
	vc_eq("rms", r * r * L, q);
	vc_assert("rms not negative", r >= 0);
	vc_reach("post");
}
VC_ENTRY(lattice_position)      // first row at or after a position
{
	AcceleratorModelConstructor c;
	LatticeFunctionTable t(c.GetModel(), 1.0);
	t.RemoveAllFunctions();
	LatticeFunction* s = *t.GetColumn(0, 0, 0);
	double sv[4];
	for(int i = 0; i < 4; i++) {
		double d = i == 0 ? vc_nonneg("s0") : i == 1 ? vc_nonneg("d1") : i == 2 ? vc_nonneg("d2") : vc_nonneg("d3");
		sv[i] = i ? sv[i - 1] + d : d;
		s->AppendValue(sv[i]);
	}
	double at = vc_real("s");
	int n = t.GetSPosIndex(at);
	vc_assert("range", (n >= -1) & (n < 4));
	if(n >= 0) vc_assert("not before", sv[n] >= at); else vc_assert("beyond the end", sv[3] < at);
	if(n > 0) vc_assert("first", sv[n - 1] < at);
	vc_reach("post");
}
VC_ENTRY(lattice_derivative)    // difference quotient, the position kept
{
	LatticeFunction p(1, 1, 1), m(1, 1, 1), sp(0, 0, 0), sm(0, 0, 0), d(1, 1, 1), sd(0, 0, 0);
	double a[2], b[2], dp = vc_real("dp");
	vc_assume((dp > 1e-6) | (dp < -1e-6));
	for(int i = 0; i < 2; i++) {
		a[i] = i ? vc_real("a1") : vc_real("a0"); b[i] = i ? vc_real("b1") : vc_real("b0");
		p.AppendValue(a[i]); m.AppendValue(b[i]); sp.AppendValue(i); sm.AppendValue(i);
	}
	d.Derivative(&m, &p, dp); sd.Derivative(&sm, &sp, dp);
	vc_assert("sizes", (d.size() == 2) & (sd.size() == 2));
	for(int i = 0; i < 2; i++) { vc_eq("derivative", d.GetValue(i) * dp, a[i] - b[i]); vc_eq("position", sd.GetValue(i), i); }
	vc_reach("post");
}
