// VC: units = NormalTransform.cpp PSvector.cpp RMap.cpp LinearAlgebra.cpp MerlinIO.cpp MatrixPrinter.cpp
// Contracts of the recovery of a beam description from its moments.
#include "vc.h"
#include "NormalTransform.h"
#include "beamdata.h"

VC_ENTRY(back)            // a beam without coupling is recovered from its moments
{
	BeamData t = beam(false), u;
	if(vc_bool("dispersion")) { vc_assume(vc_far(t.Dx, 0, 1e-9) & vc_far(t.Dxp, 0, 1e-9) & vc_far(t.Dy, 0, 1e-9) & vc_far(t.Dyp, 0, 1e-9)); }
	else t.Dx = t.Dxp = t.Dy = t.Dyp = 0;
	vc_assume_far(t.emit_x, t.emit_y, 0.01);
	PSmoments S;
	BeamDataToSigmaMtrx(t, S);
	SigmaMatrixToBeamData(S, u);
	vc_eq("emittance", u.emit_x, t.emit_x); vc_eq("emittance", u.emit_y, t.emit_y);
	vc_eq("beta", u.beta_x, t.beta_x); vc_eq("beta", u.beta_y, t.beta_y); vc_eq("alpha", u.alpha_x, t.alpha_x); vc_eq("alpha", u.alpha_y, t.alpha_y);
	vc_eq("dispersion", u.Dx, t.Dx); vc_eq("dispersion", u.Dxp, t.Dxp); vc_eq("dispersion", u.Dy, t.Dy); vc_eq("dispersion", u.Dyp, t.Dyp);
	vc_eq("spread", u.sig_dp, t.sig_dp); vc_eq("length", u.sig_z, t.sig_z);
	vc_eq("centre", u.x0, t.x0); vc_eq("centre", u.xp0, t.xp0); vc_eq("centre", u.y0, t.y0); vc_eq("centre", u.yp0, t.yp0); vc_eq("centre", u.ct0, t.ct0);
	vc_eq("no coupling", u.c_xy, 0); vc_eq("no coupling", u.c_xyp, 0); vc_eq("no coupling", u.c_xpy, 0); vc_eq("no coupling", u.c_xpyp, 0);
	std::pair<double, double> e = NormalModeEmittance(S);
	vc_eq("emittances", e.first, t.emit_x); vc_eq("emittances", e.second, t.emit_y);
	vc_reach("post");
}
