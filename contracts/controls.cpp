// VC: units = Klystron.cpp RFStructure.cpp TWRFStructure.cpp TWRFfield.cpp BPM.cpp BPMChannel.cpp BPMDataBuffer.cpp Monitor.cpp RMSProfileMonitor.cpp Channels.cpp RWChannelState.cpp MagnetMover.cpp ParticleBunch.cpp PSvector.cpp StandardMultipoles.cpp RectMultipole.cpp MultipoleField.cpp EMField.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp
// VC: nodiv = 1
// VC: nosqrt = 1
// VC: polar = 1
// Contracts of diagnostics and controls: what monitors record, what klystrons and channels set.
#include "vc.h"
#include "Klystron.h"
#include "TWRFStructure.h"
#include "BPM.h"
#include "BPMChannel.h"
#include "BPMDataBuffer.h"
#include "RMSProfileMonitor.h"
#include "Channels.h"
#include "IndirectChannels.h"
#include "RWChannelState.h"
#include "StandardMultipoles.h"
#include "ParticleBunch.h"
#include "RandomNG.h"
#include "NumericalConstants.h"
using namespace ParticleTracking;

static int draws; static double variance[8];
double RandomNG::normal(double mean, double v) { variance[draws] = v; return mean + vc_idx("noise", draws++); }

struct Cavities
{
	int n; std::vector<RFStructure*> c; double v[3], f[3]; Complex sum;
	Cavities(int most, bool free = true): n(vc_int("cavities", 1, most)), sum(0)
	{
		for(int j = 0; j < n; j++) {
			TWRFStructure* t = new TWRFStructure("c", j + 1.0, 1e9, 1.0, 0.0);
			v[j] = vc_idx("v", j, 0.1, 2); f[j] = n > 1 && !free ? 0.0 : vc_idx("phase", j);
			if(!free) vc_assume(v[j] > 0.01);
			t->SetVoltage(v[j]); t->SetPhase(f[j]);
			c.push_back(t);
			sum += v[j] * Complex(std::cos(f[j]), std::sin(f[j]));
		}
		double r = sum.real() * sum.real() + sum.imag() * sum.imag();
		vc_assume(r > 1e-6);
	}
	Complex now() { Complex z(0); for(int j = 0; j < n; j++) z += c[j]->GetVoltagePhasor(); return z; }
};
static void same(const char* id, Complex a, Complex b) { vc_eq(id, a.real(), b.real()); vc_eq(id, a.imag(), b.imag()); }
VC_ENTRY(balanced)         // each cavity its share
{
	Cavities a(3);
	Klystron* k = new Klystron("k", a.c);
	same("sum of the cavities", k->GetVoltagePhasor(), a.sum);
	vc_assert("cavities", (int) k->GetNumberOfCavities() == a.n);
	for(int j = 0; j < a.n; j++) { vc_eq("share", a.c[j]->GetVoltage() * a.n, k->GetVoltage()); vc_eq("phase", a.c[j]->GetPhase(), k->GetPhase()); }
	double v = vc_real("voltage"), f = vc_real("phase");
	switch(vc_int("set", 0, 2)) {
	case 0: f = k->GetPhase(); k->SetVoltage(v); break;
	case 1: v = k->GetVoltage(); k->SetPhase(f); break;
	default: { double x = vc_real("re"), y = vc_real("im"); vc_assume(x * x + y * y > 1e-6); k->SetVoltagePhasor(Complex(x, y)); v = k->GetVoltage(); f = k->GetPhase(); same("phasor", k->GetVoltagePhasor(), Complex(x, y)); }
	}
	vc_eq("voltage", k->GetVoltage(), v); vc_eq("phase", k->GetPhase(), f);
	for(int j = 0; j < a.n; j++) { vc_eq("share", a.c[j]->GetVoltage() * a.n, v); vc_eq("phase", a.c[j]->GetPhase(), f); }
	vc_reach("post");
}
VC_ENTRY(vector_sum)       // all cavities in proportion, to the sum asked
{
	Cavities a(2, false);
	Klystron* k = new Klystron("k", a.c, Klystron::vector_sum);
	same("sum of the cavities", k->GetVoltagePhasor(), a.sum);
	for(int j = 0; j < a.n; j++) { vc_eq("as they were", a.c[j]->GetVoltage(), a.v[j]); vc_eq("as they were", a.c[j]->GetPhase(), a.f[j]); }
	Complex z;
	double v = vc_in("voltage", 0.1, 2), f = vc_real("phase");
	vc_assume(v > 0.01);
	switch(vc_int("set", 0, 2)) {
	case 0: f = k->GetPhase(); k->SetVoltage(v); break;
	case 1: v = k->GetVoltage(); k->SetPhase(f); break;
	default: k->SetVoltagePhasor(v * Complex(std::cos(f), std::sin(f)));
	}
	z = v * Complex(std::cos(f), std::sin(f));
	same("sum asked", a.now(), z);
	same("of the klystron", k->GetVoltagePhasor(), z);
	for(int j = 0; j < a.n; j++) {
		Complex old = a.v[j] * Complex(std::cos(a.f[j]), std::sin(a.f[j])), p = a.c[j]->GetVoltagePhasor();
		same("in proportion", p * a.sum, old * z);
	}
	vc_reach("post");
}
struct Reading: BPM::Buffer { int n; BPM::Data d; const BPM* of; Reading(): n(0), of(nullptr) {} void Record(const BPM& b, const BPM::Data& x) { n++; of = &b; d = x; } };
struct Response: BPM::Response { void Apply(BPM::Data* d) { d->x.value = vc_fun("response", {d->x.value}); } };
VC_ENTRY(position)         // scaled centroid with noise, to every buffer once
{
	ParticleBunch& b = *new ParticleBunch(1.0, 1.0);
	long n = vc_len("n", 1);
	vc_vector("p", b.pArray, n, 6); vc_intfield(b.pArray, 48);
	double t = vc_real("ct"), x = 0, y = 0;
	b.SetReferenceTime(t);
	for(long j = 0; j < n; j++) { x += b.pArray[j].x(); y += b.pArray[j].y(); }
	x /= n; y /= n;
	BPM* m = new BPM("m");
	Reading* r = new Reading[3];
	bool noise = vc_bool("noise"), active = vc_bool("active"), standard = vc_bool("standard"), response = vc_bool("response"); int buffers = vc_int("buffers", 0, 2);
	BPM::generate_noise = noise; Monitor::all_inactive = false; draws = 0;
	m->SetActive(active);
	double sx = vc_real("scale x"), sy = vc_real("scale y"), rx = vc_pos("noise x"), ry = vc_pos("noise y");
	vc_assume((rx > 1e-9) & (ry > 1e-9));
	m->SetScale(sx, sy); m->SetResolution(rx, ry);
	BPM::SetDefaultBuffer(standard ? &r[2] : nullptr);
	for(int k = 0; k < buffers; k++) m->AddBuffer(&r[k]);
	if(response) m->SetResponse(new Response);
	m->MakeMeasurement(b);
	for(int k = 0; k < 3; k++) {
		bool gets = active && (k < 2 ? k < buffers : standard);
		vc_assert("once to each", r[k].n == (gets ? 1 : 0));
		if(!gets) continue;
		double u = sx * (x + (noise ? vc_again("noise", 0) : 0.0)), v = sy * (y + (noise ? vc_again("noise", 1) : 0.0));
		vc_assert("monitor", r[k].of == m);
		vc_eq("horizontal", r[k].d.x.value, response ? vc_fun("response", {u}) : u);
		vc_eq("vertical", r[k].d.y.value, v);
		vc_eq("error", r[k].d.x.error, rx); vc_eq("error", r[k].d.y.error, ry);
		vc_eq("time", r[k].d.ct, t);
		vc_assert("noise", draws == (noise ? 2 : 0));
		if(noise) { vc_eq("variance of the noise", variance[0], rx * rx); vc_eq("variance of the noise", variance[1], ry * ry); }
	}
	BPM::SetDefaultBuffer(nullptr);
	BPM::generate_noise = true;
	vc_reach("post");
}
VC_ENTRY(offsets)          // of a position monitor, in each plane
{
	BPM* m = new BPM("m");
	BPMDataBuffer* d = new BPMDataBuffer;
	d->x_off = d->y_off = 0;
	BPM::Data data; data.x.value = vc_real("x"); data.y.value = vc_real("y");
	d->Record(*m, data);
	BPMChannel* h = new BPMChannel('X', d); BPMChannel* v = new BPMChannel('Y', d);
	double ox = vc_real("offset x"), oy = vc_real("offset y");
	if(vc_bool("vertical first")) { v->SetBPMOffset(oy); h->SetBPMOffset(ox); }
	else { h->SetBPMOffset(ox); v->SetBPMOffset(oy); }
	vc_eq("horizontal", h->Read(), data.x.value + ox);
	vc_eq("vertical", v->Read(), data.y.value + oy);
	vc_reach("post");
}
struct Profile: RMSProfileMonitor::Buffer { int n; RMSProfileMonitor::Data d; Profile(): n(0) {} void Record(const RMSProfileMonitor&, const RMSProfileMonitor::Data& x) { n++; d = x; } };
VC_ENTRY(profile)          // mean and width along each wire
{
	ParticleBunch& b = *new ParticleBunch(1.0, 1.0);
	double x[2], y[2];
	for(int j = 0; j < 2; j++) { PSvector p(0); x[j] = p.x() = vc_idx("x", j); y[j] = p.y() = vc_idx("y", j); b.push_back(p); }
	vc_assume_far(x[0], x[1], 1e-3); vc_assume_far(y[0], y[1], 1e-3);
	int wire = vc_int("wire", 0, 2); double angle = wire == 0 ? 0.0 : wire == 1 ? pi / 2 : vc_in("angle", 0.1, 1.4);
	if(wire == 2) vc_assume((angle > 0.05) & (angle < 1.5));
	RMSProfileMonitor* m = new RMSProfileMonitor("m", angle);
	bool noise = vc_bool("noise"), active = vc_bool("active");
	double r = 0;
	draws = 0; Monitor::all_inactive = false; m->SetActive(active);
	if(noise) { r = vc_pos("resolution"); vc_assume(r > 1e-9); m->SetResolution(r, r, r); }
	Profile* q = new Profile; m->AddBuffer(q); RMSProfileMonitor::SetDefaultBuffer(nullptr);
	m->MakeMeasurement(b);
	vc_assert("once", q->n == (active ? 1 : 0));
	if(active) {
		vc_assert("noise", draws == (noise ? 6 : 0));
		double e[6]; for(int k = 0; k < 6; k++) { e[k] = noise ? vc_again("noise", k) : 0.0; if(noise) vc_eq("variance of the noise", variance[k], r * r); }
		double X = (x[0] + x[1]) / 2, Y = (y[0] + y[1]) / 2, c = wire == 1 ? 0.0 : std::cos(angle), s = wire == 1 ? 1.0 : std::sin(angle);
		double dx = (x[0] - x[1]) / 2, dy = (y[0] - y[1]) / 2, du = c * dx - s * dy;
		vc_eq("mean x", q->d.x0.value, X + e[0]); vc_eq("mean y", q->d.y0.value, Y + e[1]);
		vc_eq("mean u", q->d.u0.value, (wire == 1 ? Y : c * X - s * Y) + e[2]);
		vc_assert("widths not negative", (q->d.xrms.value - e[3] >= 0) & (q->d.yrms.value - e[4] >= 0) & (q->d.urms.value - e[5] >= 0));
		vc_eq("width x", (q->d.xrms.value - e[3]) * (q->d.xrms.value - e[3]), dx * dx);
		vc_eq("width y", (q->d.yrms.value - e[4]) * (q->d.yrms.value - e[4]), dy * dy);
		vc_eq("width u", (q->d.urms.value - e[5]) * (q->d.urms.value - e[5]), du * du);
	}
	vc_reach("post");
}
VC_ENTRY(channels)         // read and write the parameter of their element and no other
{
	Quadrupole* q[3]; double v[3], w[3];
	TIC_ctor<Quadrupole>* maker = new TIC_ctor<Quadrupole>("Quadrupole", "B1", &Quadrupole::GetFieldStrength, &Quadrupole::SetFieldStrength);
	std::vector<RWChannel*> c;
	for(int k = 0; k < 3; k++) {
		q[k] = new Quadrupole("q", 1.0, 1.0);
		v[k] = vc_idx("B", k); vc_assume_far(v[k], 0, 1e-9);
		q[k]->SetFieldStrength(v[k]);
		c.push_back(maker->ConstructRW(q[k]));
		w[k] = vc_idx("new", k); vc_assume_far(w[k], 0, 1e-9);
	}
	RWChannelArray* a = new RWChannelArray(c);
	vc_assert("size", a->Size() == 3);
	RealVector r(3);
	a->ReadAll(r);
	for(int k = 0; k < 3; k++) { vc_eq("read all", r[k], v[k]); vc_eq("read", a->Read(k), v[k]); }
	RWChannelState* state = new RWChannelState(c);
	int j = vc_int("which", 0, 2), how = vc_int("how", 0, 5);
	RealVector n(3); for(int k = 0; k < 3; k++) n[k] = w[k];
	double d = w[j];
	for(int k = 0; k < 3; k++) vc_assume_far(v[k] + (how == 5 ? w[k] : d), 0, 1e-9);
	switch(how) {
	case 0: a->Write(j, d); break;
	case 1: a->WriteAll(d); break;
	case 2: a->WriteAll(n); break;
	case 3: a->Increment(j, d); break;
	case 4: a->IncrementAll(d); break;
	default: a->IncrementAll(n);
	}
	for(int k = 0; k < 3; k++) {
		double e = how == 0 ? (k == j ? d : v[k]) : how == 1 ? d : how == 2 ? w[k] : how == 3 ? (k == j ? v[k] + d : v[k]) : how == 4 ? v[k] + d : v[k] + w[k];
		vc_eq("set", q[k]->GetFieldStrength(), e);
		vc_eq("read back", a->Read(k), e);
	}
	state->Reset();
	for(int k = 0; k < 3; k++) vc_eq("restored", q[k]->GetFieldStrength(), v[k]);
	vc_reach("post");
}
