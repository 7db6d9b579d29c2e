// Native runtime of the harness API: replays a given input or samples the contract's input space.
#define VC_NATIVE
#include "vc.h"
#include <csignal>
#include <unistd.h>
#include <fenv.h>
#include <cstdint>
struct VcSkip {};
struct VcFail {};
struct Ent { const char* n; void (*f)(); };
static std::vector<Ent>& ents() { static std::vector<Ent> e; return e; }
VcReg::VcReg(const char* n, void (*f)()) { ents().push_back({n, f}); }
static std::map<std::string, double> given, cur;
static std::vector<std::string> order;
static uint64_t rs = 1;
static int mode = 0;
static uint64_t rnd() { rs += 0x9E3779B97F4A7C15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static std::string failid, failmsg;
static const char* entry = "";
static double rtol = 1e-6, atol_ = 1e-8;
static double put(const char* n, double v) { cur[n] = v; order.push_back(n); return v; }
static std::string clean(const std::string& s) { std::string r; for(char c : s) if(c >= ' ' && c != '"' && c != '\\') r += c; return r; }
static void report(const char* kind) {
	printf("{\"fail\":\"%s\",\"entry\":\"%s\",\"kind\":\"%s\",\"message\":\"%s\",\"inputs\":{", clean(failid).c_str(), entry, kind, clean(failmsg).c_str());
	bool c = false;
	for(auto& n : order) { printf("%s\"%s\":%.17g", c ? "," : "", n.c_str(), cur[n]); c = true; }
	printf("}}\n"); fflush(stdout); }
extern "C" {
double vc_real_(const char* n, double lo, double hi) {
	auto it = cur.find(n); if(it != cur.end()) return it->second;
	auto g = given.find(n); if(g != given.end()) return put(n, g->second);
	double v;
	unsigned k = rnd() % 16;
	if(mode == 1 && k < 6) k = 15;      // generic values only
	if(k == 0) v = 0; else if(k == 1) v = 1; else if(k == 2) v = lo; else if(k == 3) v = hi;
	else if(k == 4) v = floor(lo + (hi - lo) * u01()); else v = lo + (hi - lo) * u01();
	if(v < lo) v = lo; if(v > hi) v = hi;
	return put(n, v); }
double vc_again_(const char* n) { auto it = cur.find(n); if(it == cur.end()) abort(); return it->second; }
int vc_int_(const char* n, int lo, int hi) {
	auto it = cur.find(n); if(it != cur.end()) return (int) it->second;
	auto g = given.find(n); if(g != given.end()) return (int) put(n, g->second);
	return (int) put(n, lo + (int) (rnd() % (uint64_t) (hi - lo + 1))); }
long vc_symint_(const char* n, long lo, long hi) {
	auto it = cur.find(n); if(it != cur.end()) return (long) it->second;
	auto g = given.find(n); if(g != given.end()) return (long) put(n, g->second);
	if(hi - lo > 64) hi = lo + 8;
	return (long) put(n, lo + (long) (rnd() % (uint64_t) (hi - lo + 1))); }
long vc_len_(const char* n, long lo) { std::string s = std::string("len:") + n; 
	auto it = cur.find(s); if(it != cur.end()) return (long) it->second;
	auto g = given.find(s); if(g != given.end() && g->second <= 64) return (long) put(s.c_str(), g->second);
	return (long) put(s.c_str(), lo + (long) (rnd() % 6)); }
bool vc_bool_(const char* n) {
	auto it = cur.find(n); if(it != cur.end()) return it->second != 0;
	auto g = given.find(n); if(g != given.end()) return put(n, g->second) != 0;
	return put(n, rnd() & 1) != 0; }
void vc_assume_(bool b) { if(!b) throw VcSkip(); }
void vc_assert_(const char* id, bool b) { if(!b) { failid = id; failmsg = "assertion does not hold"; throw VcFail(); } }
void vc_eq_(const char* id, double a, double b) {
	double t = atol_ + rtol * (fabs(a) + fabs(b));
	if(!(fabs(a - b) <= t)) { char m[160]; snprintf(m, sizeof m, "%.17g != %.17g", a, b); failid = id; failmsg = m; throw VcFail(); } }
void vc_reach_(const char*) {}
void vc_use_(const char*) {}
int vc_native_() { return 1; }
double vc_fun_(const char* f, const double* a, int n) { double r = 0; for(const char* c = f; *c; c++) r = fmod(r * 1.7 + *c, 3.1); for(int i = 0; i < n; i++) r += (0.5 + 0.1 * i) * sin(r + a[i]); return r; }
void* vc_symarray_(const char*, long s, long n) { return calloc(n ? n : 1, s); }
void vc_arrsort_(void*, long, int) {}
void vc_jac_(const double*, const double*, int, int, double*) {}
double vc_fresh_(const char* n) { char b[80]; static int c = 0; snprintf(b, sizeof b, "%s#%d", n, ++c); return vc_real_(b, -2, 2); }
}
static void death() { failid = "safe:sanitizer"; failmsg = "memory or arithmetic error reported by the sanitizer"; report("safety"); }
extern "C" void __asan_set_death_callback(void (*)()) __attribute__((weak));
static void onsig(int s) { failid = "safe:signal"; failmsg = std::string("signal ") + strsignal(s); report("safety"); _exit(3); }
static const char* TERMI = "safe:no uncaught exception";
int main(int argc, char** argv) {
	long n = 2000; uint64_t seed = 1; bool fe = false; double tmax = 20;
	std::string want;
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if(a == "--entry") want = argv[++i];
		else if(a == "--samples") n = atol(argv[++i]);
		else if(a == "--seed") seed = strtoull(argv[++i], 0, 10);
		else if(a == "--fe") fe = true;
		else if(a == "--tmax") tmax = atof(argv[++i]);
		else if(a == "--values") { std::ifstream f(argv[++i]); std::string k; double v; while(f >> k >> v) given[k] = v; }
		else if(a == "--list") { for(auto& e : ents()) puts(e.n); return 0; } }
	if(__asan_set_death_callback) __asan_set_death_callback(death);
	for(int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) signal(s, onsig);
	time_t t0 = time(0);
	FILE* devnull = freopen("/dev/null", "w", stderr); (void) devnull;
	std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
	long ok = 0, skip = 0;
	for(auto& e : ents()) {
		if(want != "" && want != e.n) continue;
		entry = e.n;
		for(long k = 0; k < n; k++) {
			if((k & 63) == 63 && time(0) - t0 > tmax) break;
			rs = seed * 1000003ull + k; mode = k & 1;
			cur.clear(); order.clear(); failid = failmsg = "";
			if(fe) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_DIVBYZERO | FE_INVALID); }
			bool bad = false;
			try { e.f(); ok++; }
			catch(VcSkip&) { skip++; }
			catch(VcFail&) { bad = true; }
			catch(std::exception& x) { failid = TERMI; failmsg = x.what(); bad = true; }
			catch(...) { failid = TERMI; failmsg = "exception"; bad = true; }
			if(fe) fedisableexcept(FE_ALL_EXCEPT);
			if(bad) { report("contract"); return 2; } } }
	printf("{\"ok\":%ld,\"skipped\":%ld}\n", ok, skip);
	return 0; }
