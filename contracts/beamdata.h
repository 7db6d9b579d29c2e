// shared by the harnesses of the beam description
#include "BeamData.h"
static BeamData beam(bool coupled)
{
	BeamData t;
	t.beta_x = vc_pos("bx"); t.beta_y = vc_pos("by"); t.alpha_x = vc_real("ax"); t.alpha_y = vc_real("ay");
	t.emit_x = vc_pos("ex"); t.emit_y = vc_pos("ey"); t.sig_dp = vc_pos("sd"); t.sig_z = vc_pos("sz");
	t.x0 = vc_real("x0"); t.xp0 = vc_real("xp0"); t.y0 = vc_real("y0"); t.yp0 = vc_real("yp0"); t.ct0 = vc_real("ct0");
	t.p0 = vc_pos("p0");
	t.Dx = vc_real("Dx"); t.Dxp = vc_real("Dxp"); t.Dy = vc_real("Dy"); t.Dyp = vc_real("Dyp");
	t.charge = vc_pos("q");
	if(coupled) {
		double f = vc_pos("f"); double a = vc_real("ca"), b = vc_real("cb"), d = vc_real("cd");
		// b c - a d = +-f^2 or zero
		int s = vc_int("coupling", -1, 1);
		vc_assume_far(b, 0, 0.01);
		t.c_xy = a; t.c_xyp = b; t.c_xpy = (a * d + s * f * f) / b; t.c_xpyp = d;
	}
	return t;
}
