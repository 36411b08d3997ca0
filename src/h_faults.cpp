// C25: failing operations of the data file, at every point of a complete run of the real main program
#include "hlib.hpp"
using namespace hl;
extern int picopic_main(int, char **);
extern "C" void omp_set_num_threads(int) {} // thread counts are the subject of C01
extern "C" unsigned sleep(unsigned) { raise(SIGUSR2); return 0; }
// the same random numbers in every run
static unsigned long lcg; static double rnd() { lcg = lcg * 6364136223846793005ul + 1442695040888963407ul; return ((lcg >> 11) + .5) / 9007199254740992.; }
extern "C" {
double __wrap__ZN4math6random7uniformEv() { return rnd(); }
double __wrap__ZN4math6random8uniform1Ev() { return rnd(); }
double __wrap__ZN4math6random8uniform2Ev() { return 2 * rnd() - 1; }
double __wrap__ZN4math6random13uniform_angleEv() { return 6.283185307179586 * rnd(); }
double __wrap__ZN4math6random6normalEd(double s) { return s * (rnd() + rnd() + rnd() - 1.5) * 2; }
}
static const char *KINDS[] = {"Object", "DataType", "File", "DataSpace", "Attribute", "DataSet", "Group", "Property", "Reference", "Base"};
static void raise_kind(int k) { using namespace HighFive; string m = "injected failure"; switch (k) { case 0: throw ObjectException(m); case 1: throw DataTypeException(m); case 2: throw FileException(m); case 3: throw DataSpaceException(m); case 4: throw AttributeException(m); case 5: throw DataSetException(m); case 6: throw GroupException(m); case 7: throw PropertyException(m); case 8: throw ReferenceException(m); default: throw Exception(m); } }
static long at = -1, pause_at = -1, n; static int kind = 0; static bool forever = false, hit = false; static string failed; static vector<string> ops;
static void hook(const char *op) { if (strcmp(op, "close") == 0) return; long my = n++; ops.push_back(op); if (my == pause_at) raise(SIGUSR1); if (at >= 0 && (my == at || (forever && my > at))) { if (!hit) failed = op; hit = true; raise_kind(kind); } }
struct Result { int rc = -1; string why; vector<string> ops; std::map<string, h5stub::Dataset> ds; std::map<string, string> attrs; bool exists = false; };
static Result run(const Spec &s, long a, int k, bool fv, long pause) {
  auto &w = h5stub::world(); w.reset(); at = a; kind = k; forever = fv; pause_at = pause; n = 0; hit = false; ops.clear(); w.hook = hook; lcg = 11;
  string root = R().scratch + fmt("/f%d", getpid()), cf = root + "/cfg.json"; mkdir(root.c_str(), 0755); Spec t = s; t.data_root = root; std::ofstream(cf) << t.json();
  char a0[] = "picopic", a1[] = "-f"; vector<char> f(cf.begin(), cf.end()); f.push_back(0); char *av[] = {a0, a1, f.data(), nullptr}; Result r;
  try { r.rc = picopic_main(3, av); } catch (verif::Fatal &e) { r.why = e.text; } catch (std::exception &e) { r.why = e.what(); }
  for (int x : {SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGQUIT, SIGPIPE, SIGTSTP, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGSEGV}) signal(x, SIG_DFL);
  w.hook = nullptr; r.ops = ops; auto it = w.files.find(root + "/data.h5"); if (it != w.files.end()) { r.exists = true; r.ds = it->second->datasets; r.attrs = it->second->attrs; } return r;
}
static Spec spec(int dr, int dz, int what) {
  Spec s; s.nr = s.nz = 8; s.R = s.Z = 8e-3; s.dr = dr; s.dz = dz; s.step = 1e-12; s.t_end = 2.5e-12; s.macro_amount = 40; auto P = [&](const char *c, const char *sh, int r0, int z0, int r1, int z1, int sch) { Probe p; p.component = c; p.shape = sh; p.r0 = r0; p.z0 = z0; p.r1 = r1; p.z1 = z1; p.schedule = sch; p.with_specie = strchr(c, '/') == nullptr; s.probes.push_back(p); };
  if (what == 0) { P("E/r", "rec", 1, 1, 6, 7, 1); P("J/z", "col", 0, 3, 0, 0, 2); P("H/phi", "row", 4, 0, 0, 0, 1); P("E/z", "dot", 2, 2, 0, 0, 1); P("density", "rec", 0, 0, 8, 8, 2); P("temperature", "dot", 5, 5, 0, 0, 1); } else if (what == 1) P("E/r", "rec", 0, 0, 8, 8, 1); else P("E/z", "dot", 7, 7, 0, 0, 3);
  return s;
}
static void check(const Result &r, const Result &ref, const string &what) {
  R().count("transitions", (long)r.ops.size()); R().state(Dig()(what)((long)r.rc)((long)r.ops.size()).h);
  if (r.rc == 0) { // success: everything is there
    if (!r.exists) R().fail_stop("silent", what + ": the run succeeds without a data file");
    if (r.attrs != ref.attrs) R().fail_stop("silent", what + fmt(": the run succeeds with %zu of %zu items of metadata", r.attrs.size(), ref.attrs.size()));
    for (auto &d : ref.ds) { auto i = r.ds.find(d.first); if (i == r.ds.end()) R().fail_stop("silent", what + ": the run succeeds without dataset " + d.first); if (i->second.dims != d.second.dims || i->second.data != d.second.data) R().fail_stop("silent", what + ": the run succeeds, but data of " + d.first + " are not complete"); }
    return; }
  for (auto &i : r.ds) { auto d = ref.ds.find(i.first); if (d == ref.ds.end()) R().fail_stop("stray", what + ": unknown dataset " + i.first); size_t c = std::min(i.second.data.size(), d->second.data.size()); for (size_t k = 0; k < c; ++k) if (i.second.writes[k] && i.second.data[k] != d->second.data[k]) R().fail_stop("damaged", what + fmt(": element %zu of %s, that was written before the failure, is changed", k, i.first.c_str())); }
}
int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    r.per_child = 1; static const std::map<string, vector<int>> real{{"open", {2}}, {"createGroup", {6}}, {"getGroup", {6}}, {"createDataSet", {5, 7}}, {"getDataSet", {5}}, {"createAttribute", {4}}, {"attr.write", {4}}, {"resize", {5}}, {"write", {5, 3}}, {"flush", {2}}, {"exist", {6}}, {"hasAttribute", {4}}}; // what the library raises
    for (int d : {1, 2}) for (int what = 0; what < 3; ++what) for (int pause = 0; pause < 2; ++pause) { if (d == 2 && what && !r.thorough) continue; Spec s = spec(d, d, what);
      long chunk = 10, total = what == 0 ? 300 : 120; if (d == 2) total *= 2;
      for (long a = 0; a < total; a += chunk) R().run(fmt("domains %dx%d probes %d pause %d operations %ld..%ld", d, d, what, pause, a, a + chunk - 1), [=]() {
        long pa = -1; if (pause) { Result z = run(s, -1, 0, false, -1); long w = 0; for (size_t i = 0; i < z.ops.size() && pa < 0; ++i) if (z.ops[i] == "write" && ++w == (what == 2 ? 1 : 2)) pa = i; }
        Result ref = run(s, -1, 0, false, pa); if (ref.rc != 0) R().fail_stop("run", "undisturbed run failed: " + ref.why); if ((long)ref.ops.size() > total) R().fail_stop("bound", fmt("%zu operations", ref.ops.size())); if (a == 0) R().sample(fmt("%zu operations, %zu datasets, %zu items of metadata", ref.ops.size(), ref.ds.size(), ref.attrs.size()));
        if (pause && std::count(ref.ops.begin(), ref.ops.end(), "open") != 2) R().fail_stop("bound", "pause did not reopen the file");
        for (long k = a; k < a + chunk && k < (long)ref.ops.size(); ++k) { string op = ref.ops[k]; auto it = real.find(op); vector<int> ks = it == real.end() ? vector<int>{9} : it->second; vector<int> all = ks; if (r.thorough) for (int i : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}) if (std::find(all.begin(), all.end(), i) == all.end() && op != "createGroup") all.push_back(i);
          for (int kd : all) for (int fv = 0; fv < 2; ++fv) { if (pause && r.thorough && std::find(ks.begin(), ks.end(), kd) == ks.end()) continue; Result x = run(s, k, kd, fv, pa); R().count("failures_injected", 1); if (x.rc == 0) R().count("tolerated_failures", 1); check(x, ref, fmt("%s of operation %ld (%s, %sException)", fv ? "permanent failure" : "failure", k, op.c_str(), KINDS[kd])); } }
      }); }
  });
}
