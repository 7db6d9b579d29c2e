// VC: units = MADInterface.cpp MerlinIO.cpp DataTable.cpp ConstructSrot.cpp AcceleratorModelConstructor.cpp AcceleratorModel.cpp ElementRepository.cpp StringPattern.cpp SequenceFrame.cpp LatticeFrame.cpp ComponentFrame.cpp SupportStructure.cpp MagnetMover.cpp StandardMultipoles.cpp RectMultipole.cpp MultipoleField.cpp EMField.cpp CorrectorDipoles.cpp SectorBend.cpp Solenoid.cpp BzField.cpp RFStructure.cpp SWRFStructure.cpp SWRFfield.cpp TransverseRFStructure.cpp TransRFfield.cpp CrabMarker.cpp Collimator.cpp HollowElectronLens.cpp Monitor.cpp BPM.cpp RMSProfileMonitor.cpp Drift.cpp Marker.cpp AcceleratorComponent.cpp AcceleratorGeometry.cpp RectangularGeometry.cpp ArcGeometry.cpp Transform3D.cpp Rot3Drep.cpp AxisRotations.cpp GeneralRotation.cpp IdentityRotation.cpp NumericalConstants.cpp PhysicalConstants.cpp PhysicalUnits.cpp ChannelServer.cpp Channels.cpp Transformable.cpp
// Contract of the import of a lattice table: every row becomes the component it describes. The table enters as data (the text parser is outside).
#include "vc.h"
#include "MADInterface.h"
#include "DataTableTFS.h"
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ChannelServer.h"
#include "SequenceFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "ring_iterator.h"
ChannelServer* ConstructChannelServer() { return new ChannelServer(); }

static DataTable* table;
DataTable DataTableReaderTFS::Read() { return std::move(*table); }
static const double c0 = 2.99792458e8;
static const char* const columns[] = {"L", "ANGLE", "K0L", "K1L", "K2L", "K3L", "TILT", "E1", "E2", "KS", "VKICK", "HKICK", "FREQ", "LAG", "VOLT", "MUX", "MUY"};
static void start()
{
	table = new DataTable;
	table->AddColumn("KEYWORD", 's');
	table->AddColumn("NAME", 's');
	for(const char* c : columns) table->AddColumn(c, 'd');
}
static size_t row(const char* key, const char* name, double length)
{
	size_t i = table->AddRow();
	table->Set_s("KEYWORD", i, key); table->Set_s("NAME", i, name); table->Set_d("L", i, length);
	return i;
}
static long fake[64];            // a stream in good state: never read, the table stands for its contents
static std::istream* stream() { static long vt[4] = {0, 0, 0, 0}; fake[0] = (long) &vt[3]; return (std::istream*) fake; }
struct Import {
	MADInterface mad;
	double p, brho;
	Import() : mad(stream(), 1.0) { p = mad.momentum = vc_pos("momentum"); mad.log = nullptr; brho = p * 1e9 / c0; }
};
static void column(const char* name, double v) { table->Set_d(name, table->Length() - 1, v); }
static AcceleratorComponent& only(AcceleratorModel* m, const char* name, double length)
{
	vc_assert("one component", m->lattice.size() == 1);
	AcceleratorComponent& c = m->lattice[0]->GetComponent();
	vc_assert("name", c.GetName() == name);
	vc_eq("length", c.GetLength(), length);
	vc_eq("place", c.GetComponentLatticePosition(), 0.0);
	return c;
}
VC_ENTRY(bends)
{
	start();
	Import im;
	int type = vc_int("type", 0, 2);
	double L = vc_pos("L"), angle = vc_real("angle"), k1 = vc_real("k1l"), e1 = vc_real("e1"), e2 = vc_real("e2"), tilt = vc_real("tilt");
	vc_assume_far(angle, 0, 1e-6);
	row(type == 0 ? "SBEND" : "RBEND", "B", L);
	column("ANGLE", angle); column("K0L", type == 2 ? 0.0 : angle); column("K1L", k1); column("E1", e1); column("E2", e2); column("TILT", tilt);
	SectorBend* b = dynamic_cast<SectorBend*>(&only(im.mad.ConstructModel(), "B", L));
	vc_assert("a bend", b != nullptr);
	vc_eq("curvature", b->GetGeometry().GetCurvature() * L, angle);
	vc_eq("dipole field", b->GetB0() * L, im.brho * angle);
	vc_eq("gradient", b->GetB1() * L, im.brho * k1);
	vc_eq("tilt", b->GetGeometry().GetTilt(), tilt);
	const SectorBend::PoleFaceInfo& pf = b->GetPoleFaceInfo();
	vc_assert("entrance face", (pf.entrance != nullptr) == (e1 != 0));
	vc_assert("exit face", (pf.exit != nullptr) == (e2 != 0));
	if(pf.entrance != nullptr) vc_eq("entrance angle", pf.entrance->rot, e1);
	if(pf.exit != nullptr) vc_eq("exit angle", pf.exit->rot, e2);
	vc_reach("post");
}
VC_ENTRY(bend_by_k0l)
{
	table = new DataTable;
	table->AddColumn("KEYWORD", 's'); table->AddColumn("NAME", 's');
	for(const char* c : columns) if(c != columns[1]) table->AddColumn(c, 'd');
	Import im;
	double L = vc_pos("L"), angle = vc_real("angle");
	vc_assume_far(angle, 0, 1e-6);
	row("SBEND", "B", L); column("K0L", angle);
	SectorBend* b = dynamic_cast<SectorBend*>(&only(im.mad.ConstructModel(), "B", L));
	vc_assert("a bend", b != nullptr);
	vc_eq("curvature", b->GetGeometry().GetCurvature() * L, angle);
	vc_eq("dipole field", b->GetB0() * L, im.brho * angle);
	vc_reach("post");
}
VC_ENTRY(multipoles)        // B = Brho sum k_n (x + i y)^n / n!
{
	start();
	Import im;
	int type = vc_int("type", 0, 4);
	static const char* const keys[] = {"QUADRUPOLE", "SKEWQUAD", "SEXTUPOLE", "SKEWSEXT", "OCTUPOLE"};
	double L = vc_pos("L"), k = vc_real("knl"), x = vc_real("x"), y = vc_real("y");
	vc_assume_far(im.brho * k / L, 0, 1e-9);        // the field drops terms below its tolerance
	row(keys[type], "Q", L);
	column("K1L", type < 2 ? k : vc_real("other1")); column("K2L", type == 2 || type == 3 ? k : vc_real("other2")); column("K3L", type == 4 ? k : vc_real("other3"));
	AcceleratorComponent& c = only(im.mad.ConstructModel(), "Q", L);
	vc_assert("type", type == 0 ? dynamic_cast<Quadrupole*>(&c) != nullptr : type == 1 ? dynamic_cast<SkewQuadrupole*>(&c) != nullptr :
		type == 2 ? dynamic_cast<Sextupole*>(&c) != nullptr : type == 3 ? dynamic_cast<SkewSextupole*>(&c) != nullptr : dynamic_cast<Octupole*>(&c) != nullptr);
	double by = type < 2 ? x : type < 4 ? (x * x - y * y) / 2 : (x * x * x - 3 * x * y * y) / 6;
	double bx = type < 2 ? y : type < 4 ? x * y : (3 * x * x * y - y * y * y) / 6;
	if(type == 1 || type == 3) { double t = by; by = -bx; bx = t; }
	Vector3D B = c.GetEMField()->GetBFieldAt(Point3D(x, y, 0));
	vc_eq("By", B.y * L, im.brho * k * by);
	vc_eq("Bx", B.x * L, im.brho * k * bx);
	vc_eq("Bz", B.z, 0.0);
	vc_reach("post");
}
VC_ENTRY(correctors)
{
	start();
	Import im;
	int type = vc_int("type", 0, 3);
	bool thin = vc_bool("thin");
	static const char* const keys[] = {"HKICKER", "VKICKER", "XCOR", "YCOR"};
	double L = thin ? 0.0 : vc_pos("L"), h = vc_real("hkick"), v = vc_real("vkick");
	vc_assume_far(im.brho * h / (thin ? 1.0 : L), 0, 1e-9); vc_assume_far(im.brho * v / (thin ? 1.0 : L), 0, 1e-9);
	row(keys[type], "C", L); column("HKICK", h); column("VKICK", v);
	AcceleratorComponent& c = only(im.mad.ConstructModel(), "C", L);
	vc_assert("type", type % 2 == 0 ? dynamic_cast<XCor*>(&c) != nullptr : dynamic_cast<YCor*>(&c) != nullptr);
	Vector3D B = c.GetEMField()->GetBFieldAt(Point3D(0, 0, 0));
	vc_eq("horizontal kick", -B.y * (thin ? 1.0 : L), type == 0 ? im.brho * h : 0.0);
	vc_eq("vertical kick", B.x * (thin ? 1.0 : L), type == 1 ? im.brho * v : 0.0);
	vc_reach("post");
}
VC_ENTRY(solenoid)
{
	start();
	Import im;
	double L = vc_pos("L"), ks = vc_real("ks");
	row("SOLENOID", "S", L); column("KS", ks);
	Solenoid* s = dynamic_cast<Solenoid*>(&only(im.mad.ConstructModel(), "S", L));
	vc_assert("type", s != nullptr);
	vc_eq("field", s->GetBz() * L, im.brho * ks);
	vc_reach("post");
}
VC_ENTRY(cavities)
{
	start();
	Import im;
	bool single = vc_bool("single");
	im.mad.SetSingleCellRF(single);
	int n = vc_int("n", 1, 3), key = vc_int("key", 0, 1);
	double f = vc_pos("f"), L = n * c0 / (2 * f * 1e6), volt = vc_real("volt"), lag = vc_real("lag");
	row(key == 0 ? "RFCAVITY" : "LCAV", "R", L); column("FREQ", f); column("VOLT", volt); column("LAG", lag);
	AcceleratorModel* m = im.mad.ConstructModel();
	vc_assert("components", m->lattice.size() == (single ? 2 : 1));
	SWRFStructure* r = dynamic_cast<SWRFStructure*>(&m->lattice[0]->GetComponent());
	vc_assert("type", r != nullptr);
	vc_assert("name", r->GetName() == "R");
	vc_eq("frequency", r->GetFrequency(), f * 1e6);
	vc_eq("voltage", r->GetAmplitude() * r->GetLength(), volt * 1e-3);
	vc_eq("phase", r->GetPhase(), 2 * pi * (lag - 0.25));
	vc_eq("length", r->GetLength(), single ? L / n : L);
	if(single) {
		AcceleratorComponent& d = m->lattice[1]->GetComponent();
		vc_assert("drift behind", dynamic_cast<Drift*>(&d) != nullptr);
		vc_eq("rest of the length", d.GetLength(), L - L / n);
		vc_eq("place behind", d.GetComponentLatticePosition(), L / n);
	}
	vc_reach("post");
}
VC_ENTRY(others)
{
	start();
	Import im;
	static const char* const keys[] = {"DRIFT", "MONITOR", "MONITOR", "MARKER", "COLLIMATOR", "RCOLLIMATOR", "ECOLLIMATOR", "HEL", "CRABMARKER", "CRABRF",
		"INSTRUMENT", "PLACEHOLDER", "VMONITOR", "HMONITOR", "KICKER", "TKICKER", "MATRIX"};
	int t = vc_int("type", 0, 16);
	double L = t == 3 ? 0.0 : vc_pos("L"), mx = vc_real("mux"), my = vc_real("muy");
	const char* name = t == 2 ? "WS1" : "M";
	row(keys[t], name, L); column("MUX", mx); column("MUY", my);
	AcceleratorComponent& c = only(im.mad.ConstructModel(), name, L);
	const std::string& type = c.GetType();
	vc_assert("type", type == (t == 1 ? "BPM" : t == 2 ? "RMSProfileMonitor" : t == 3 ? "Marker" : t >= 4 && t <= 6 ? "Collimator" : t == 7 ? "HollowElectronLens" : t == 8 ? "CrabMarker" :
		t == 9 ? "TransverseRFStructure" : "Drift"));
	if(t == 8) { vc_eq("mux", static_cast<CrabMarker&>(c).GetMuX(), mx); vc_eq("muy", static_cast<CrabMarker&>(c).GetMuY(), my); }
	vc_reach("post");
}
VC_ENTRY(drift_types)       // types the user wants as drifts
{
	start();
	Import im;
	static const char* const keys[] = {"QUADRUPOLE", "RCOLLIMATOR", "LCAV", "RBEND", "SBEND", "RFCAVITY"};
	int t = vc_int("type", 0, 5);
	im.mad.SetSingleCellRF(vc_bool("single"));
	double L = vc_pos("L");
	row(keys[t], "M", L); column("K0L", vc_real("k0l")); column("FREQ", 1.0);
	im.mad.TreatTypeAsDrift(keys[t]);
	AcceleratorComponent& c = only(im.mad.ConstructModel(), "M", L);
	vc_assert("drift", dynamic_cast<Drift*>(&c) != nullptr && c.GetType() == "Drift");
	vc_reach("post");
}
VC_ENTRY(places)            // rows in order, ignored rows left out, places are sums of lengths
{
	start();
	Import im;
	double a = vc_pos("a"), b = vc_pos("b"), d = vc_pos("d");
	bool zero = vc_bool("zero");
	row("QUADRUPOLE", "Q1", a); row("MARKER", "M1", 0); row("RCOLLIMATOR", "C1", 0); row("DRIFT", "D0", 0);
	row("DRIFT", "D1", zero ? 0.0 : b); row("SEXTUPOLE", "S1", d); row("MONITOR", "P1", 0);
	AcceleratorModel* m = im.mad.ConstructModel();
	static const char* const names[] = {"Q1", "M1", "D1", "S1", "P1"};
	double s[] = {0, a, a, a + b, a + b + d};
	vc_assert("components", m->lattice.size() == (zero ? 4 : 5));
	for(size_t i = 0, k = 0; i < m->lattice.size(); i++, k++) {
		if(zero && k == 2) { k = 3; }
		AcceleratorComponent& c = m->lattice[i]->GetComponent();
		vc_assert("names in order", c.GetName() == names[k]);
		vc_eq("place", c.GetComponentLatticePosition(), s[k] - (zero && k > 2 ? b : 0.0));
	}
	vc_eq("length", m->GetGlobalFrame().GetGeometryLength(), a + d + (zero ? 0.0 : b));
	vc_reach("post");
}
VC_ENTRY(lines)             // LINE rows open and close frames
{
	start();
	Import im;
	int mode = vc_int("mode", 0, 2), kind = vc_int("kind", 0, 4);
	if(mode == 1) im.mad.HonourMadStructure(true);
	if(mode == 2) im.mad.ConstructFlatLattice(true);
	static const char* const n[] = {"F_A", "S_A", "G_A", "M_A", "CELL"};
	double a = vc_pos("a"), b = vc_pos("b"), d = vc_pos("d");
	row("QUADRUPOLE", "Q1", a); row("LINE", n[kind], 0); row("QUADRUPOLE", "Q2", b); row("LINE", n[kind], 0); row("QUADRUPOLE", "Q3", d);
	AcceleratorModel* m = im.mad.ConstructModel();
	vc_assert("components", m->lattice.size() == 3);
	bool frame = mode != 2 && (mode == 1 || kind != 4);
	SequenceFrame& g = static_cast<SequenceFrame&>(m->GetGlobalFrame());
	LatticeFrame* s = m->lattice[1]->superFrame;
	vc_assert("in a frame", (s != &g) == frame);
	vc_assert("outside", (m->lattice[0]->superFrame == &g) & (m->lattice[2]->superFrame == &g));
	if(frame) {
		vc_assert("frame in the line", s->superFrame == &g);
		vc_assert("frame name", s->GetName() == (kind == 4 ? "CELL" : "A"));
		vc_assert("frame type", kind == 1 ? dynamic_cast<SimpleMount*>(s) != nullptr : kind == 2 ? dynamic_cast<GirderMount*>(s) != nullptr : kind == 3 ? dynamic_cast<MagnetMover*>(s) != nullptr :
			dynamic_cast<SupportStructure*>(s) == nullptr);
		vc_eq("frame length", s->GetGeometryLength(), b);
	}
	vc_eq("length", g.GetGeometryLength(), a + b + d);
	vc_eq("place", m->lattice[2]->GetComponent().GetComponentLatticePosition(), a + b);
	vc_reach("post");
}
VC_ENTRY(radiation)         // fields follow the energy lost in the bends before
{
	start();
	Import im;
	bool on = vc_bool("on");
	im.mad.ScaleForSynchRad(on);
	double L = vc_pos("L"), angle = vc_real("angle"), l = vc_pos("l"), k = vc_real("k1l");
	vc_assume_far(angle, 0, 1e-6);
	row(vc_bool("rbend") ? "RBEND" : "SBEND", "B", L); column("ANGLE", angle); column("K0L", angle);
	row("QUADRUPOLE", "Q", l); column("K1L", k);
	AcceleratorModel* m = im.mad.ConstructModel();
	double p1 = on ? im.p - 8.85e-05 / (2 * pi) * im.p * im.p * im.p * im.p * angle * angle / L : im.p;
	vc_eq("field of the bend", static_cast<SectorBend&>(m->lattice[0]->GetComponent()).GetB0() * L, im.brho * angle);
	vc_eq("gradient behind", static_cast<Quadrupole&>(m->lattice[1]->GetComponent()).GetFieldStrength() * l, p1 * 1e9 / c0 * k);
	vc_eq("momentum", im.mad.GetMomentum(), p1);
	vc_reach("post");
}
VC_ENTRY(appended)          // two files after each other
{
	start();
	Import im;
	double a = vc_pos("a"), b = vc_pos("b");
	im.mad.appendFlag = true;
	im.mad.modelconstr = new AcceleratorModelConstructor();
	row("QUADRUPOLE", "Q1", a);
	im.mad.ConstructModel();
	start();
	row("QUADRUPOLE", "Q2", b);
	im.mad.ConstructModel();
	vc_assert("still open", im.mad.modelconstr != nullptr);
	AcceleratorModel* m = im.mad.GetModel();
	vc_assert("both", m->lattice.size() == 2);
	vc_assert("names", (m->lattice[0]->GetComponent().GetName() == "Q1") & (m->lattice[1]->GetComponent().GetName() == "Q2"));
	vc_eq("place", m->lattice[1]->GetComponent().GetComponentLatticePosition(), a);
	vc_reach("post");
}
VC_ENTRY(table_cells)       // a table keeps every cell, typed by its column
{
	DataTable t;
	t.AddColumn("D1", 'd'); t.AddColumn("N", 'i'); t.AddColumn("S", 's');
	double v[6];
	for(int i = 0; i < 3; i++) { size_t r = t.AddRow(); vc_assert("row", r == (size_t) i); }
	t.AddColumn("D2", 'd');
	static const char* const str[] = {"a", "bb", ""};
	for(int i = 0; i < 6; i++) v[i] = i == 0 ? vc_real("v0") : i == 1 ? vc_real("v1") : i == 2 ? vc_real("v2") : i == 3 ? vc_real("v3") : i == 4 ? vc_real("v4") : vc_real("v5");
	for(int i = 2; i >= 0; i--) { t.Set_d("D1", i, v[i]); t.Set("D2", i, v[3 + i]); t.Set_i("N", i, 7 * i); t.Set_s("S", i, str[i]); }
	vc_assert("rows", t.Length() == 3);
	int k = 0;
	for(auto& r : t) {
		vc_eq("number", r.Get_d("D1"), v[k]);
		vc_eq("number added later", r.Get_d("D2"), v[3 + k]);
		vc_assert("integer and text", (r.Get_i("N") == 7 * k) & (r.Get_s("S") == str[k]));
		k++;
	}
	vc_assert("all rows", k == 3);
	vc_assert("columns", t.HasCol("D1") & t.HasCol("D2", 'd') & !t.HasCol("D2", 's') & !t.HasCol("X") & (t.ColumnNames().size() == 4));
	int bad = 0;
	try { t.Get_d("N", 0); } catch(WrongTypeException&) { bad++; }
	try { t.Get_i("S", 0); } catch(WrongTypeException&) { bad++; }
	try { t.Get_s("D1", 0); } catch(WrongTypeException&) { bad++; }
	try { t.Set("D1", 0, 1); } catch(WrongTypeException&) { bad++; }
	try { t.Get_d("X", 0); } catch(std::out_of_range&) { bad++; }
	try { t.Get_d("D1", 3); } catch(std::out_of_range&) { bad++; }
	try { t.AddColumn("D1", 'd'); } catch(std::invalid_argument&) { bad++; }
	try { t.AddColumn("E", 'x'); } catch(WrongTypeException&) { bad++; }
	vc_assert("refused", bad == 8);
	t.AddRow(v[5], 3, "c", v[4]);
	vc_eq("row at once", t.Get_d("D1", 3), v[5]);
	vc_assert("row at once", (t.Get_i("N", 3) == 3) & (t.Get_s("S", 3) == "c") & (t.Length() == 4));
	t.HeaderAddColumn("H", 'd'); t.HeaderAddColumn("T", 's'); t.HeaderAddColumn("I", 'i');
	t.HeaderSet("H", v[3]); t.HeaderSet_s("T", "x"); t.HeaderSet("I", 5);
	vc_eq("header", t.HeaderGet_d("H"), v[3]);
	vc_assert("header", (t.HeaderGet_s("T") == "x") & (t.HeaderGet_i("I") == 5) & t.HeaderHasKey("H") & !t.HeaderHasKey("D1"));
	vc_reach("post");
}
