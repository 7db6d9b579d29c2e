// VC: units = BasicTransportMaps.cpp TransportMatrix.cpp RTMap.cpp RMap.cpp PSvector.cpp MatrixPrinter.cpp NumericalConstants.cpp
// VC: nosqrt = 1
// Contracts of the second order transport maps.  Each map M(s) is the flow of its element up to second order:
// dM/ds = G o M with the equation of motion G of the element, and M(0) is the identity.  Coordinates are
// (x, x', y, y', ct, dp), slopes taken in the frame of the reference orbit.
#include "vc.h"
#include "BasicTransportMaps.h"

struct Map
{
	double R[6][6], T[6][6][6];     // T symmetric in the last two indices
	Map() { for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { R[i][j] = 0; for(int k = 0; k < 6; k++) T[i][j][k] = 0; } }
	explicit Map(const RTMap* m) : Map()
	{
		for(auto t = m->rterms.begin(); t != m->rterms.end(); t++) R[t->i][t->j] += t->val;
		for(size_t t = 0; t < m->tterms.size(); t++) set(m->tterms[t].i, m->tterms[t].j, m->tterms[t].k, m->tterms[t].val);
	}
	void set(int i, int j, int k, double v) { T[i][j][k] += v / 2; T[i][k][j] += v / 2; }
	void put(double* o) const { int n = 0; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { o[n++] = R[i][j]; for(int k = 0; k <= j; k++) o[n++] = T[i][j][k]; } }
};
static const int N = 36 + 126;
static Map after(const Map& b, const Map& a)   // b o a up to second order
{
	Map c;
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) {
		for(int l = 0; l < 6; l++) c.R[i][j] += b.R[i][l] * a.R[l][j];
		for(int k = 0; k < 6; k++) for(int l = 0; l < 6; l++) {
			c.T[i][j][k] += b.R[i][l] * a.T[l][j][k];
			for(int m = 0; m < 6; m++) c.T[i][j][k] += b.T[i][l][m] * a.R[l][j] * a.R[m][k];
		}
	}
	return c;
}
enum {X, PX, Y, PY, CT, DP};
static void drifting(Map& g)    // x' = x', path length
{
	g.R[X][PX] = g.R[Y][PY] = 1;
	g.set(CT, PX, PX, -.5); g.set(CT, PY, PY, -.5);
}
// h: curvature, K: gradient; the chromatic terms are those of the limit of high energy
static void bending(Map& g, double h, double K)
{
	drifting(g);
	g.set(X, X, PX, h); g.set(Y, X, PY, h);
	g.R[PX][X] = -h * h - K; g.R[PX][DP] = h; g.R[PY][Y] = K; g.R[CT][X] = -h;
	g.set(PX, DP, DP, -h); g.set(PX, X, DP, h * h + K); g.set(PX, PX, PX, -h / 2); g.set(PX, PY, PY, -h / 2);
	g.set(PX, X, X, -K * h); g.set(PX, Y, Y, K * h / 2);
	g.set(PY, X, Y, K * h); g.set(PY, Y, DP, -K);
}
template<class F> static void flow(F mk, const Map& g)
{
	double s = vc_real_("s", 0.1, 1), d[N], e[N];
	vc_assume(s > 0);
	vc_reach("pre");
	vc_derivative([&](double l, double* o) { RTMap* m = mk(l); Map(m).put(o); delete m; }, s, N, d);
	RTMap* m = mk(s);
	after(g, Map(m)).put(e);
	for(int i = 0; i < N; i++) vc_eq("equation of motion", d[i], e[i]);
	double o[N], one[N];
	RTMap* z = mk(0.0);
	Map(z).put(o);
	Map id; for(int i = 0; i < 6; i++) id.R[i][i] = 1;
	id.put(one);
	for(int i = 0; i < N; i++) vc_eq("identity at zero length", o[i], one[i]);
	vc_reach("post");
}
VC_ENTRY(drift) { Map g; drifting(g); flow(DriftTM, g); }
VC_ENTRY(quadrupole)
{
	double K = vc_real("K");
	vc_assume(K != 0);
	Map g; drifting(g);
	g.R[PX][X] = -K; g.R[PY][Y] = K; g.set(PX, X, DP, K); g.set(PY, Y, DP, -K);
	flow([K](double s) { return QuadrupoleTM(s, K); }, g);
}
VC_ENTRY(sextupole)
{
	double K = vc_real("K");
	Map g; drifting(g);
	g.set(PX, X, X, -K / 2); g.set(PX, Y, Y, K / 2); g.set(PY, X, Y, K);
	flow([K](double s) { return SextupoleTM(s, K); }, g);
}
VC_ENTRY(sector_bend)           // in the limit of high energy
{
	double h = vc_real("h"), gamma = vc_limit("gamma");
	vc_assume(h != 0);
	Map g; bending(g, h, 0);
	flow([h, gamma](double s) { return SectorBendTM(s, h, gamma); }, g);
}
VC_ENTRY(combined_bend)
{
	double h = vc_real("h"), K = vc_real("K");
	vc_assume_far(K, 0, 1e-9); vc_assume(h != 0); vc_assume_far(h * h + K, 0, 1e-9);
	vc_assume(h * h + 5 * K != 0);     // removable singularity of the formulas
	Map g; bending(g, h, K);
	flow([h, K](double s) { return GenSectorBendTM(s, h, K, 0); }, g);
}
VC_ENTRY(pole_face)             // canonical up to second order in momenta p = x' (1 + dp); dp and ct at rest
{
	double h = vc_real("h"), K = vc_real("K"), b = vc_in("beta", -1.5, 1.5), f = vc_real("fint"), hg = vc_real("hgap");
	bool in = vc_bool("entrance");
	vc_assume(std::cos(b) > 0);
	Map m(PoleFaceTM(h, K, b, 0, f, hg, in));
	double phi = 2 * f * hg * h * (1 + std::sin(b) * std::sin(b)) / std::cos(b), psi = phi == 0 ? b : b - phi;
	vc_assume(std::cos(psi) != 0);
	vc_reach("pre");
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++)
		vc_eq("linear kick", m.R[i][j], i == j ? 1.0 : i == PX && j == X ? h * std::tan(b) : i == PY && j == Y ? -h * std::tan(psi) : 0.0);
	Map p = m;
	for(int i = 1; i < 4; i += 2) for(int j = 0; j < 6; j++) { p.T[i][j][DP] += m.R[i][j] / 2; p.T[i][DP][j] += m.R[i][j] / 2; }
	for(int i = 0; i < 6; i++) for(int j = 1; j < 4; j += 2) { p.T[i][j][DP] -= m.R[i][j] / 2; p.T[i][DP][j] -= m.R[i][j] / 2; }
	vc_assume(f == 0);          // the fringe field correction is linear only
	for(int a = 0; a < 6; a++) for(int c = a + 1; c < 6; c++) for(int k = 0; k < 6; k++) {
		double s = 0;
		for(int i = 0; i < 6; i += 2) for(int u = 0; u < 2; u++) {
			double sg = u ? -1 : 1;
			s += sg * (p.T[i + u][a][k] * p.R[i + 1 - u][c] + p.R[i + u][a] * p.T[i + 1 - u][c][k]);
		}
		vc_eq("canonical to second order", s, 0);
	}
	double t = std::tan(b), e = in ? 1.0 : -1.0;
	vc_eq("gradient in the face", m.T[PX][X][X], K * t - (in ? 0.0 : h * h * t * t * t / 2));
	vc_eq("displacement of the face", m.T[X][Y][Y], e * h / 2 / (std::cos(b) * std::cos(b)));
	vc_eq("displacement of the face", m.T[X][X][X], -e * h / 2 * t * t);
	vc_reach("post");
}
