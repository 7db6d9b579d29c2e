// VC: units = Aperture.cpp NumericalConstants.cpp
// Contract: a particle is inside exactly when it is strictly inside the geometric shape of the aperture.
#include "vc.h"
#include "Aperture.h"
using std::string;

static bool in(const Aperture& a, double x, double y, double z) { return a.CheckWithinApertureBoundaries(x, y, z); }

VC_ENTRY(circle)
{
	double r = vc_pos("r"), x = vc_real("x"), y = vc_real("y"), z = vc_real("z");
	vc_reach("pre");
	CircularAperture a(r);
	vc_assert("circle", in(a, x, y, z) == (x * x + y * y < r * r));
	CircularAperture b("CIRCLE", 1.0, r);
	vc_assert("circle-named", in(b, x, y, z) == (x * x + y * y < r * r));
	vc_eq("radius", b.GetRadius(), r);
}
VC_ENTRY(rectangle)
{
	double w = vc_pos("w"), h = vc_pos("h"), x = vc_real("x"), y = vc_real("y"), z = vc_real("z");
	vc_reach("pre");
	bool want = x < w && -w < x && y < h && -h < y;
	RectangularAperture a(w, h);
	vc_assert("rectangle", in(a, x, y, z) == want);
	RectangularAperture b("RECTANGLE", 1.0, w, h);
	vc_assert("rectangle-named", in(b, x, y, z) == want);
}
VC_ENTRY(ellipse)
{
	double w = vc_pos("w"), h = vc_pos("h"), x = vc_real("x"), y = vc_real("y"), z = vc_real("z");
	vc_reach("pre");
	EllipticalAperture a("ELLIPSE", 1.0, w, h);
	vc_assert("ellipse", in(a, x, y, z) == (x * x * (h * h) + y * y * (w * w) < w * w * (h * h)));
}
VC_ENTRY(rectellipse)
{
	double w = vc_pos("w"), h = vc_pos("h"), ew = vc_pos("ew"), eh = vc_pos("eh"), x = vc_real("x"), y = vc_real("y"), z = vc_real("z");
	vc_reach("pre");
	RectEllipseAperture a("RECTELLIPSE", 1.0, w, h, ew, eh);
	bool want = x < w && -w < x && y < h && -h < y && (x * x * (eh * eh) + y * y * (ew * ew) < ew * ew * (eh * eh));
	vc_assert("rectellipse", in(a, x, y, z) == want);
}
VC_ENTRY(octagon)
{
	double w = vc_pos("w"), h = vc_pos("h"), x = vc_real("x"), y = vc_real("y"), z = vc_real("z");
	double a1 = vc_in("a1", 0.05, 1.5), a2 = vc_in("a2", 0.05, 1.5);
	double y1 = w * std::tan(a1);                                       // corner (w, y1)
	double x2 = h * std::tan(3.14159265358979323846 / 2 - a2);          // corner (x2, h)
	vc_assume(0 <= y1 && y1 < h && 0 <= x2 && x2 < w);
	vc_reach("pre");
	OctagonalAperture a("OCTAGON", 1.0, w, h, a1, a2);
	double ax = x < 0 ? -x : x, ay = y < 0 ? -y : y;
	bool want = ax < w && ay < h && (w - ax) * (h - y1) > (ay - y1) * (w - x2);
	vc_assert("octagon", in(a, x, y, z) == want);
}
