// VC: units = CollimatorAperture.cpp Aperture.cpp NumericalConstants.cpp DataTable.cpp
// Contract: the jaws run linearly from the entrance gap and offset to the exit gap and offset, turned by the tilt.
#include "vc.h"
#include "CollimatorAperture.h"

static double fab(double x) { return x < 0 ? -x : x; }

VC_ENTRY(tapered)
{
	double t = vc_real("tilt"), L = vc_pos("length"), w0 = vc_pos("w0"), h0 = vc_pos("h0"), w1 = vc_pos("w1"), h1 = vc_pos("h1");
	double u = vc_in("u", 0, 1), z = u * L;
	double x = vc_real("x"), y = vc_real("y");
	bool off = vc_int("offset", 0, 1);
	double ox0 = 0, oy0 = 0, ox1 = 0, oy1 = 0;
	if(off) { ox0 = vc_real("ox0"); oy0 = vc_real("oy0"); ox1 = vc_real("ox1"); oy1 = vc_real("oy1"); }
	bool reset = vc_int("gap set later", 0, 1);
	CollimatorAperture a(reset ? 1.0 : w0, reset ? 1.0 : h0, t, L, ox0, oy0);
	if(reset) { a.SetEntranceWidth(w0); a.SetEntranceHeight(h0); }
	a.SetExitWidth(w1); a.SetExitHeight(h1); a.SetExitXOffset(ox1); a.SetExitYOffset(oy1);
	vc_reach("pre");
	vc_eq("entrance width", a.GetFullEntranceWidth(), w0);
	vc_eq("entrance height", a.GetFullEntranceHeight(), h0);
	vc_eq("exit width", a.GetFullExitWidth(), w1);
	vc_eq("exit height", a.GetFullExitHeight(), h1);
	vc_eq("exit offset", a.GetExitXOffset(), ox1);
	vc_eq("exit offset", a.GetExitYOffset(), oy1);
	vc_eq("entrance offset", a.GetEntranceXOffset(), ox0);
	vc_eq("entrance offset", a.GetEntranceYOffset(), oy0);
	double c = std::cos(t), s = std::sin(t);
	double X = x - (ox0 + u * (ox1 - ox0)), Y = y - (oy0 + u * (oy1 - oy0));
	double p = c * X + s * Y, q = c * Y - s * X;
	double w = w0 + u * (w1 - w0), h = h0 + u * (h1 - h0);
	bool want = (2 * fab(p) < w) & (2 * fab(q) < h);
	vc_assert("jaws", static_cast<Aperture&>(a).CheckWithinApertureBoundaries(x, y, z) == want);
}
VC_ENTRY(unaligned)
{
	double t = vc_real("tilt"), L = vc_pos("length"), w = vc_pos("w"), h = vc_pos("h");
	double x = vc_real("x"), y = vc_real("y"), z = vc_real("z"), ox = vc_real("ox"), oy = vc_real("oy");
	vc_reach("pre");
	double c = std::cos(t), s = std::sin(t);
	double p = c * (x - ox) + s * (y - oy), q = c * (y - oy) - s * (x - ox);
	UnalignedCollimatorAperture a(w, h, t, L, ox, oy);
	vc_assert("two jaws", static_cast<Aperture&>(a).CheckWithinApertureBoundaries(x, y, z) == ((2 * fab(p) < w) & (2 * fab(q) < h)));
	OneSidedUnalignedCollimatorAperture b(w, h, t, L, ox, oy, true);
	vc_assert("positive jaw", static_cast<Aperture&>(b).CheckWithinApertureBoundaries(x, y, z) == ((2 * p < w) & (2 * fab(q) < h)));
	b.SetJawSide(false);
	vc_assert("negative jaw", static_cast<Aperture&>(b).CheckWithinApertureBoundaries(x, y, z) == ((-2 * p < w) & (2 * fab(q) < h)));
	OneSidedUnalignedCollimatorAperture d(w, h, t, L, ox, oy, false);
	vc_assert("negative jaw built", static_cast<Aperture&>(d).CheckWithinApertureBoundaries(x, y, z) == ((-2 * p < w) & (2 * fab(q) < h)));
}
