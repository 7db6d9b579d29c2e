// VC: units = InterpolatedApertures.cpp Aperture.cpp NumericalConstants.cpp DataTable.cpp
// Contract: between two stations every dimension of the aperture varies linearly with s, and membership is
// membership of the shape with the interpolated dimensions.
#include "vc.h"
#include "InterpolatedApertures.h"

static const int N = 3;
static double zz;
static double S[N], P[4][N], D[4];

static void fill(InterpolatedAperture& a)
{
	for(int i = 0; i < N; i++)
	{
		InterpolatedAperture::apStruct e;
		e.s = S[i]; e.ap1 = P[0][i]; e.ap2 = P[1][i]; e.ap3 = P[2][i]; e.ap4 = P[3][i];
		a.ApList.push_back(e);
	}
}
// three stations at s = S[0] < S[1] < S[2]; z anywhere in between; D[k] is the interpolated k'th dimension.
// z is the fraction t of the j'th interval, and the dimensions at its end are the ones that give D[k] at z.
static void stations(InterpolatedAperture& a, int np)
{
	S[0] = vc_in("s0", 0, 1); S[1] = S[0] + vc_pos("d1"); S[2] = S[1] + vc_pos("d2");
	int j = vc_int("segment", 0, 1);
	bool first = vc_bool("at first station");
	double t = vc_in("t", 0.01, 1);
	vc_assume(!first || j == 0);
	zz = first ? S[0] : S[j] + t * (S[j + 1] - S[j]);
	for(int k = 0; k < 4; k++)
	{
		P[k][0] = P[k][1] = P[k][2] = 0;
		if(k >= np) continue;
		D[k] = vc_idx("dim", k, 0.1, 3);
		P[k][j] = first ? D[k] : vc_idx("apback", k, 0.1, 3);
		P[k][j + 1] = first ? vc_idx("apfront", k, 0.1, 3) : P[k][j] + (D[k] - P[k][j]) / t;
		P[k][j ? 0 : 2] = vc_idx("apother", k, 0.1, 3);
		for(int i = 0; i < N; i++) vc_assume(P[k][i] > 0);
	}
	for(int k = 0; k < np; k++)
		vc_lemma("interpolated between the ends", (D[k] >= P[k][j]) | (D[k] >= P[k][j + 1]));
	fill(a);
}

VC_ENTRY(rectellipse)
{
	InterpolatedRectEllipseAperture a((DataTable()));
	stations(a, 4);
	double x = vc_real("x"), y = vc_real("y");
	double ax = x < 0 ? -x : x, ay = y < 0 ? -y : y;
	vc_reach("pre");
	bool in = ax < D[0] && ay < D[1] && x * x * (D[3] * D[3]) + y * y * (D[2] * D[2]) < D[2] * D[2] * (D[3] * D[3]);
	bool out = ax > D[0] || ay > D[1] || x * x * (D[3] * D[3]) + y * y * (D[2] * D[2]) > D[2] * D[2] * (D[3] * D[3]);
	bool r = static_cast<Aperture&>(a).CheckWithinApertureBoundaries(x, y, zz);
	vc_assert("kept when inside", !in || r);
	vc_assert("lost when outside", !out || !r);
}
// the interval is found for every z, also in front of the first positive station
VC_ENTRY(circle)
{
	InterpolatedCircularAperture a((DataTable()));
	S[0] = vc_in("s0", -1, 0); S[1] = S[0] + vc_pos("d1"); S[2] = S[1] + vc_pos("d2");
	zz = vc_real("z");
	double z = zz < 0 ? 0 : zz;
	vc_assume(z <= S[2]);
	for(int i = 0; i < N; i++) { P[0][i] = vc_idx("ap", i, 0.1, 3); vc_assume(P[0][i] > 0); }
	fill(a);
	int j = S[1] >= z ? 0 : 1;
	double d = P[0][j] + (P[0][j + 1] - P[0][j]) * (z - S[j]) / (S[j + 1] - S[j]);
	double x = vc_real("x"), y = vc_real("y");
	vc_reach("pre");
	bool r = static_cast<Aperture&>(a).CheckWithinApertureBoundaries(x, y, zz);
	vc_assert("circle", r == (x * x + y * y < d * d));
}
VC_ENTRY(ellipse)
{
	InterpolatedEllipticalAperture a((DataTable()));
	stations(a, 2);
	double x = vc_real("x"), y = vc_real("y");
	vc_reach("pre");
	bool in = x * x * (D[1] * D[1]) + y * y * (D[0] * D[0]) < D[0] * D[0] * (D[1] * D[1]);
	bool out = x * x * (D[1] * D[1]) + y * y * (D[0] * D[0]) > D[0] * D[0] * (D[1] * D[1]);
	bool r = static_cast<Aperture&>(a).CheckWithinApertureBoundaries(x, y, zz);
	vc_assert("kept when inside", !in || r);
	vc_assert("lost when outside", !out || !r);
}
VC_ENTRY(octagon)
{
	InterpolatedOctagonalAperture a((DataTable()));
	stations(a, 4);
	double x = vc_real("x"), y = vc_real("y");
	vc_assume(0.05 <= D[2]); vc_assume(D[2] <= 1.5); vc_assume(0.05 <= D[3]); vc_assume(D[3] <= 1.5);
	double y1 = D[0] * std::tan(D[2]), x2 = D[1] * std::tan(3.14159265358979323846 / 2 - D[3]);
	vc_assume(0 <= y1); vc_assume(y1 < D[1]); vc_assume(0 <= x2); vc_assume(x2 < D[0]);
	vc_reach("pre");
	double ax = std::fabs(x), ay = std::fabs(y);
	bool r = static_cast<Aperture&>(a).CheckWithinApertureBoundaries(x, y, zz);
	vc_assert("octagon", r == ((ax < D[0]) & (ay < D[1]) & ((D[0] - ax) * (D[1] - y1) > (ay - y1) * (D[0] - x2))));
}
