// C19 (--signals): pause, resume and termination of the real main program, signals delivered at every point.
// C20 (--files): existing data, directories and metadata of the real main program.
// Every execution is a forked child; the data file lives in the memory of the child.
#define HL_RANDOM
#include "hlib.hpp"
#include <sys/file.h>
#include <dirent.h>
using namespace hl;
extern int picopic_main(int, char **);
extern "C" char __data_start, _end;
extern "C" void omp_set_num_threads(int) {} // thread counts are the subject of C01: one thread here

// ---------------------------------------------------------------- delivery of signals
struct Sh { volatile long mir[3]; volatile long finished, status, points, sleeps, paused, pauses, delivered, writes, terminated, leftopen, nclose, closeat[200]; char msg[400]; };
static Sh *sh;
struct Ev { long at; int sig; };
static vector<Ev> plan; static size_t nextev; static long npoint; static bool armed, inchild; static int consecutive_open; static bool pending; static long auto_resume, sleeps_row; static bool running = true; static long opening = -1; static long base_writes; static bool usr2_seen; static long termat; static bool last_pause, mustwait;
static void bad(const string &m) { if (!sh->msg[0]) snprintf((char *)sh->msg, sizeof sh->msg, "%s", m.c_str()); }
static bool is_exit(int s) { return s != SIGUSR1 && s != SIGUSR2; }
static void deliver(int s) {
  ++sh->delivered; long live = h5stub::world().live.size(); (void)live;
  if (s == SIGUSR1 && running && (long)h5stub::world().writes < base_writes) pending = true;
  if (s == SIGUSR2) { pending = false; usr2_seen = true; mustwait = false; }
  if (is_exit(s)) { sh->terminated = s; termat = npoint; }
  size_t before = nextev; raise(s);
  if (!is_exit(s)) last_pause = s == SIGUSR1 && nextev == before; // unknown order of nested signals: no obligation
  if (s == SIGUSR2 && nextev != before) pending = false; // a pause request inside of the handler is older than the resumption
  if (is_exit(s)) { bad(fmt("signal %d did not end the program", s)); _exit(99); }
}
static void point() {
  if (!inchild) return;
  if (!armed) { for (int s : {SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGSEGV}) { struct sigaction a; sigaction(s, nullptr, &a); if (a.sa_handler == SIG_DFL) return; } armed = true; }
  long my = npoint++; sh->points = npoint;
  while (nextev < plan.size() && plan[nextev].at <= my) deliver(plan[nextev++].sig);
}
static void activity(const char *what) { if (inchild && mustwait) bad(string("paused program ") + what + " before it is resumed"); }
static void h5hook(const char *op) {
  if (!inchild) return;
  activity("uses the data file");
  if (strcmp(op, "open") == 0) opening = npoint; else if (strcmp(op, "close") != 0) { opening = -1; running = true; sleeps_row = 0; consecutive_open = 0; } else { running = false; sleeps_row = 0; if (sh->nclose < 200) sh->closeat[sh->nclose++] = npoint; }
  point();
}
static int on_sleep() {
  if (!inchild) return 0;
  ++sh->sleeps; long live = h5stub::world().live.size(); ++sleeps_row;
  if (live == 0) { consecutive_open = 0; ++sh->pauses; pending = false; } else if (++consecutive_open > 1) bad("waits with the data file open");
  if (live == 0) running = false;
  point(); if (live == 0 && last_pause) mustwait = true; // the pause is in force now: only a resume request ends it
  if (nextev >= plan.size()) { if (sleeps_row > 3 && auto_resume == 0) { auto_resume = 1; deliver(SIGUSR2); } else if (auto_resume && ++auto_resume > 40) { bad("does not continue after the resume signal"); _exit(98); } if (sleeps_row <= 3) auto_resume = 0; }
  else if (sleeps_row > 2000) { bad("waits forever"); _exit(98); }
  return 0;
}
static void finish(int status);
extern "C" {
unsigned __wrap_sleep(unsigned) { return on_sleep(); }
int __wrap_usleep(unsigned) { return on_sleep(); }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { return on_sleep(); }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return on_sleep(); }
int __wrap_pause() { return on_sleep(); }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int st) { if (inchild) { finish(st); _exit(st); } __real_exit(st); }
// steps of the simulation
void __real__ZN3SMB13solve_maxvellEv(void *) __attribute__((weak)); void __wrap__ZN3SMB13solve_maxvellEv(void *p) { activity("makes a step"); __real__ZN3SMB13solve_maxvellEv(p); }
void __real__ZN3SMB17advance_particlesEv(void *) __attribute__((weak)); void __wrap__ZN3SMB17advance_particlesEv(void *p) { activity("makes a step"); __real__ZN3SMB17advance_particlesEv(p); }
// accesses of the main program to its global state
static inline void touch_(const void *p) { if (inchild && p >= (void *)&__data_start && p < (void *)&_end) point(); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void *p) { touch_(p); } void __tsan_write##n(void *p) { touch_(p); } void __tsan_unaligned_read##n(void *p) { touch_(p); } void __tsan_unaligned_write##n(void *p) { touch_(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t) { touch_(p); } void __tsan_write_range(void *p, size_t) { touch_(p); }
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define ATO(bits, T) T __tsan_atomic##bits##_load(const volatile T *p, int) { touch_((void *)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } void __tsan_atomic##bits##_store(volatile T *p, T v, int) { touch_((void *)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { touch_((void *)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { touch_((void *)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { touch_((void *)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { touch_((void *)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { touch_((void *)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { touch_((void *)p); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { touch_((void *)p); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int, int) { touch_((void *)p); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATO(8, unsigned char) ATO(16, unsigned short) ATO(32, unsigned) ATO(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
}

// ---------------------------------------------------------------- contents of the data file
static string data_path;
struct Snap { std::map<string, h5stub::Dataset> ds; std::map<string, string> attrs; };
static Snap baseline;
static void save(const string &to) { std::ofstream o(to, std::ios::binary); o.precision(17); for (auto &f : h5stub::world().files) { if (f.first != data_path) continue; for (auto &d : f.second->datasets) { o << d.first << "\n" << d.second.dims.size(); for (size_t x : d.second.dims) o << " " << x; o << "\n"; o.write((char *)d.second.data.data(), d.second.data.size() * 8); o.write((char *)d.second.writes.data(), d.second.writes.size() * 4); o << "\n"; } } }
static Snap loadsnap(const string &from) { Snap s; std::ifstream f(from, std::ios::binary); string n; while (std::getline(f, n)) { h5stub::Dataset d; size_t k; f >> k; d.dims.resize(k); size_t c = 1; for (auto &x : d.dims) { f >> x; c *= x; } f.get(); d.data.resize(c); d.writes.resize(c); f.read((char *)d.data.data(), c * 8); f.read((char *)d.writes.data(), c * 4); f.get(); s.ds[n] = d; } return s; }
static void compare_file(bool whole) {
  auto &w = h5stub::world(); if (!w.files.count(data_path)) { if (whole) bad("there is no data file"); return; }
  auto &f = *w.files[data_path];
  for (auto &b : baseline.ds) { if (!f.datasets.count(b.first)) { if (whole) bad("dataset " + b.first + " is missing"); continue; } auto &d = f.datasets[b.first];
    if (whole ? d.dims != b.second.dims : d.dims[0] > b.second.dims[0]) { bad("dataset " + b.first + fmt(" has %zu frames, the undisturbed run %zu", d.dims[0], b.second.dims[0])); continue; }
    for (size_t i = 0; i < d.data.size(); ++i) { if (!whole && !d.writes[i]) continue; if (d.data[i] != b.second.data[i] || (whole ? d.writes[i] != b.second.writes[i] : d.writes[i] > b.second.writes[i])) { bad("dataset " + b.first + fmt(" differs from the undisturbed run at element %zu", i)); break; } } }
  for (auto &d : f.datasets) if (!baseline.ds.count(d.first)) bad("unexpected dataset " + d.first);
}
static bool is_base;
static string basefile;
static void finish(int status) {
  inchild = false; auto &w = h5stub::world(); sh->status = status; sh->finished = 1; sh->writes = w.writes;
  if (!w.errors.empty()) bad(w.errors[0]);
  bool window = sh->terminated && opening >= 0 && npoint - opening < 12;
  if (w.live.size() && !window) { if (sh->terminated) sh->leftopen = termat; else bad("program ended with the data file open"); }
  if (is_base) { if (sh->terminated) bad("undisturbed run was terminated"); save(basefile); return; }
  if (!sh->terminated && mustwait) bad("paused program ended before it is resumed");
  if (!sh->terminated && status != 0) bad(fmt("program ended with status %d without termination request", status));
  if (sh->terminated) { compare_file(false); return; }
  if (pending) bad("pause request was lost");
  compare_file(true);
}
static Spec sim_spec(int kind, const string &root) {
  Spec s; s.nr = s.nz = 4; s.R = s.Z = 0.04; s.macro_amount = 24; s.step = 1e-13; s.t_end = (kind == 0 ? 2.5 : 3.5) * 1e-13; s.data_root = root;
  Probe p; p.component = "E/r"; p.shape = "rec"; p.r1 = p.z1 = 4; p.with_specie = false; s.probes.push_back(p);
  Probe q; q.component = "density"; q.shape = "dot"; q.r0 = 1; q.z0 = 2; q.schedule = 2; s.probes.push_back(q);
  if (kind == 1) { Probe c; c.component = "J/z"; c.shape = "col"; c.z0 = 1; c.schedule = 3; c.with_specie = false; s.probes.push_back(c); s.beams.push_back(Beam()); s.beams[0].density = 1e13; }
  return s;
}
static string cfgfile, rootdir;
// one execution; returns message of a violation
static string execute(const vector<Ev> &pl) {
  memset((void *)sh, 0, sizeof *sh);
  pid_t p = fork();
  if (p == 0) {
    int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); ::alarm(60);
    plan = pl; nextev = 0; npoint = 0; armed = false; h5stub::world().reset(); h5stub::world().mirror = sh->mir; h5stub::world().hook = h5hook; seed() = 4711;
    char a0[] = "picopic", a1[] = "-f"; vector<char> f(cfgfile.begin(), cfgfile.end()); f.push_back(0); char *av[] = {a0, a1, f.data(), nullptr}; int rc = 1; inchild = true;
    try { rc = picopic_main(3, av); } catch (verif::Fatal &e) { bad("fatal error: " + e.text); rc = 70; } catch (std::exception &e) { bad(string("exception: ") + e.what()); rc = 71; }
    finish(rc); _exit(rc);
  }
  int st; waitpid(p, &st, 0); R().count("transitions", sh->points);
  if (sh->msg[0]) return (char *)sh->msg;
  // termination right before the main program itself closes the file (the library closes it at exit)
  if (sh->leftopen) { long at = sh->leftopen; vector<Ev> rest = pl; for (size_t i = rest.size(); i-- > 0;) if (is_exit(rest[i].sig) && rest[i].at <= at) { rest.erase(rest.begin() + i); break; } if (rest.size() == pl.size()) return "program ended with the data file open"; execute(rest); for (long k = 0; k < sh->nclose; ++k) if (sh->closeat[k] >= at - 14 && sh->closeat[k] <= at + 6) { return ""; } return "program ended with the data file open after termination"; }
  if (WIFSIGNALED(st)) return fmt("program was killed by signal %d", WTERMSIG(st));
  if (!sh->finished) { if (!sh->terminated) return "program ended on its own"; if (sh->mir[2]) return "closed data file used"; if (sh->mir[0] != sh->mir[1]) return "program ended with the data file open"; }
  return "";
}
static string show(const vector<Ev> &pl) { string s; for (auto &e : pl) s += fmt("%s%s@%ld", s.empty() ? "" : " ", e.sig == SIGUSR1 ? "pause" : e.sig == SIGUSR2 ? "resume" : e.sig == SIGTERM ? "term" : strsignal(e.sig), e.at); return s.empty() ? "undisturbed" : s; }
static long base_points; static vector<char> dummy;
static void signals(Runner &r) {
  if (!sh) sh = (Sh *)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int kind = 0; kind < (r.thorough ? 2 : 1); ++kind) {
    rootdir = R().scratch + fmt("/w%d.%d", getpid(), kind); mkdir(rootdir.c_str(), 0755); data_path = rootdir + "/data.h5"; cfgfile = rootdir + "/cfg.json"; basefile = rootdir + "/base"; std::ofstream(cfgfile) << sim_spec(kind, rootdir).json();
    is_base = true; base_writes = 0; string e = execute({}); is_base = false; string base_err = e; base_points = sh->points; base_writes = sh->writes; long bw = base_writes, bp = base_points; baseline = loadsnap(basefile);
    string nm = fmt("run%d ", kind); auto prep = [=]() { (void)bw; };
    R().run(nm + "undisturbed", [=]() { prep(); if (!base_err.empty()) R().fail("run", base_err); else if (bp < 20 || bw < 3 || baseline.ds.size() < 2) R().fail("run", fmt("%ld points, %ld writes", bp, bw)); string x = execute({}); if (!x.empty()) R().fail("run", x); R().sample(fmt("%ld points, %ld writes to the data file", bp, bw)); });
    auto go = [=](const vector<Ev> &pl) { string x = execute(pl); R().count("executions", 1); R().state(Dig()(show(pl))(nm).h); if (!x.empty()) R().fail("signals", show(pl) + ": " + x); return sh->points; };
    vector<int> ends{SIGTERM, SIGINT, SIGQUIT, SIGPIPE, SIGTSTP, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGSEGV}; int ext = 14; // points after the pause begins
    // one signal at every point
    for (long p = 0; p < bp; ++p) {
      R().run(nm + fmt("one signal at %ld", p), [=]() { go({{p, SIGUSR1}}); go({{p, SIGUSR2}}); for (int s : ends) go({{p, s}}); });
      // two signals: all second points (also during the pause and in the signal handler)
      R().run(nm + fmt("two signals from %ld", p), [=]() { long tot = go({{p, SIGUSR1}}); for (long q = p; q < tot + ext; ++q) { go({{p, SIGUSR1}, {q, SIGUSR2}}); go({{p, SIGUSR1}, {q, SIGTERM}}); if (q < p + 12 || (r.thorough && kind == 0)) { go({{p, SIGUSR1}, {q, SIGUSR1}}); go({{p, SIGUSR2}, {q, SIGUSR1}}); go({{p, SIGUSR2}, {q, SIGTERM}}); go({{p, SIGTERM}, {q, SIGINT}}); go({{p, SIGTERM}, {q, SIGUSR1}}); } } });
    }
    // pause, resume, and a third signal around the resumption
    long step = r.thorough && kind == 0 ? 4 : std::max(1L, bp / 16);
    for (long p = 0; p < bp; p += step) R().run(nm + fmt("three signals from %ld", p), [=]() { go({{p, SIGUSR1}}); long tot = sh->points; (void)tot; long reach = r.thorough ? 24 : 14; // first find where the pause begins
      for (long q = p + 1; q < bp + 8; q += (r.thorough && kind == 0 ? 2 : 3)) for (long d = 0; d < reach; ++d) for (int s : {SIGUSR1, SIGTERM, SIGUSR2}) { go({{p, SIGUSR1}, {q, SIGUSR2}, {q + d, s}}); } });
    // long sequences of pauses and resumptions
    for (int len = 3; len <= (r.thorough && kind == 0 ? 8 : 6); ++len) for (int pat = 0; pat < (1 << len); ++pat) R().run(nm + fmt("sequence of %d signals %d", len, pat), [=]() { for (long gap : {0L, 1L, 2L, 3L, 5L, 8L, bp / len}) for (long at : {0L, bp / 4, bp / 2, bp - 12}) { vector<Ev> pl; for (int k = 0; k < len; ++k) pl.push_back({at + k * gap, pat >> k & 1 ? SIGUSR1 : SIGUSR2}); go(pl); pl.push_back({at + len * gap, SIGTERM}); go(pl); } });
  }
}

// ---------------------------------------------------------------- C20
static string listing(const string &d) { string s; std::set<string> names; if (DIR *h = opendir(d.c_str())) { while (auto *e = readdir(h)) if (string(e->d_name) != "." && string(e->d_name) != "..") names.insert(e->d_name); closedir(h); } for (auto &n : names) { struct stat st; string p = d + "/" + n; lstat(p.c_str(), &st); if (S_ISDIR(st.st_mode)) s += n + "{" + listing(p) + "}"; else { std::ifstream f(p); std::stringstream b; b << f.rdbuf(); s += n + "=" + b.str() + ";"; } } return s; }
struct Run { bool refused = false; string why; };
// runs the program in this process
static Run runmain(const string &cfg) { Run r; char a0[] = "picopic", a1[] = "-f"; vector<char> f(cfg.begin(), cfg.end()); f.push_back(0); char *av[] = {a0, a1, f.data(), nullptr}; R().count("transitions", 1); try { int rc = picopic_main(3, av); if (rc) { r.refused = true; r.why = fmt("status %d", rc); } } catch (verif::Fatal &e) { r.refused = true; r.why = e.text; } catch (std::exception &e) { r.refused = true; r.why = e.what(); } return r; }
static unsigned long digest(const h5stub::FileData &f) { Dig d; for (auto &x : f.datasets) { d(x.first); for (size_t n : x.second.dims) d((long)n); d(x.second.data); } for (auto &a : f.attrs) d(a.first)(a.second); for (auto &g : f.groups) d(g); return d.h; }
// in a child: programs keep global state
static void child(const std::function<void()> &f) { // reports through the shared message
  memset((void *)sh, 0, sizeof *sh); pid_t p = fork(); if (p == 0) { ::alarm(60); h5stub::world().reset(); h5stub::world().check_dirs = true; try { f(); } catch (std::exception &e) { bad(string("exception: ") + e.what()); } catch (verif::Fatal &e) { bad("fatal: " + e.text); } fflush(0); _exit(0); } int st; waitpid(p, &st, 0); if (sh->msg[0]) R().fail_stop("run", (char *)sh->msg); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) R().fail_stop("run", "program crashed"); }
static void same_json(const picojson::value &a, const picojson::value &b, const string &at) { // everything of a is in b
  if (a.is<picojson::object>()) { if (!b.is<picojson::object>()) { bad(at + " is not an object in the metadata"); return; } for (auto &k : a.get<picojson::object>()) { auto &o = b.get<picojson::object>(); auto it = o.find(k.first); if (it == o.end()) { bad(at + "/" + k.first + " is missing in the metadata"); return; } same_json(k.second, it->second, at + "/" + k.first); } return; }
  if (a.is<picojson::array>()) { if (!b.is<picojson::array>() || a.get<picojson::array>().size() != b.get<picojson::array>().size()) { bad(at + " differs in the metadata"); return; } for (size_t i = 0; i < a.get<picojson::array>().size(); ++i) same_json(a.get<picojson::array>()[i], b.get<picojson::array>()[i], at + fmt("/%zu", i)); return; }
  if (a.is<double>() ? !(b.is<double>() && a.get<double>() == b.get<double>()) : a.serialize() != b.serialize()) bad(at + " is " + b.serialize() + " in the metadata, configured " + a.serialize());
}
static std::map<string, string> build_options() {
  std::map<string, string> m; m["softwareVersion"] = PACKAGE_VERSION; m["software"] = PACKAGE_NAME; m["softwareBuildFlags"] = CXXFLAGS; m["softwareDependencies"] = PACKAGE_DEPS; m["softwareConfigDebug"] = m["softwareConfigIEEE"] = "0";
#ifdef ENABLE_DEBUG
  m["softwareConfigDebug"] = "1";
#endif
#ifdef ENABLE_IEEE
  m["softwareConfigIEEE"] = "1";
#endif
  m["softwareConfigFieldSolver"] = "yee";
#ifdef SWITCH_CCS_ZIGZAG
  m["softwareConfigCurrentDeposition"] = "zigzag";
#else
  m["softwareConfigCurrentDeposition"] = "villasenor-buneman";
#endif
#if defined(SWITCH_PUSHER_BORIS)
  m["softwareConfigParticlesPusher"] = "boris classic";
#elif defined(SWITCH_PUSHER_BORIS_RELATIVISTIC)
  m["softwareConfigParticlesPusher"] = "boris relativistic";
#elif defined(SWITCH_PUSHER_VAY)
  m["softwareConfigParticlesPusher"] = "vay";
#elif defined(SWITCH_PUSHER_HC)
  m["softwareConfigParticlesPusher"] = "higuera-cary";
#else
  m["softwareConfigParticlesPusher"] = "boris adaptive";
#endif
#if defined(SWITCH_PLASMA_SPATIAL_RANDOM)
  m["softwareConfigPlasmaSpatialDistribution"] = "random";
#elif defined(SWITCH_PLASMA_SPATIAL_REGULAR)
  m["softwareConfigPlasmaSpatialDistribution"] = "regular";
#elif defined(SWITCH_PLASMA_SPATIAL_CENTERED)
  m["softwareConfigPlasmaSpatialDistribution"] = "centered";
#else
  m["softwareConfigPlasmaSpatialDistribution"] = "flat";
#endif
#if defined(SWITCH_PLASMA_VELOCITY_EIGEN)
  m["softwareConfigPlasmaVelocityDistribution"] = "eigen";
#elif defined(SWITCH_PLASMA_VELOCITY_RECTANGULAR)
  m["softwareConfigPlasmaVelocityDistribution"] = "rectangular";
#else
  m["softwareConfigPlasmaVelocityDistribution"] = "thermal";
#endif
  return m;
}
static void check_metadata(const string &path, const string &json) {
  if (!h5stub::world().files.count(path)) { bad("data file " + path + " was not created"); return; }
  auto &at = h5stub::world().files[path]->attrs; if (!at.count("@metadata")) { bad("there is no metadata"); return; }
  picojson::value a, b; { std::istringstream i(json); i >> a; } { std::istringstream i(at["@metadata"]); i >> b; } if (!picojson::get_last_error().empty()) { bad("metadata can not be parsed"); return; } same_json(a, b, "");
  if (!b.is<picojson::object>() || !b.get<picojson::object>()["build_options"].is<picojson::object>()) { bad("there are no build options"); return; } auto &o = b.get<picojson::object>()["build_options"].get<picojson::object>();
  auto opt = build_options(); for (auto &k : opt) if (!at.count("@" + k.first) || at["@" + k.first] != k.second) bad("attribute " + k.first + " is ``" + (at.count("@" + k.first) ? at["@" + k.first] : "absent") + "'', expected ``" + k.second + "''");
  std::map<string, string> js{{"current_deposition", "softwareConfigCurrentDeposition"}, {"particles_pusher", "softwareConfigParticlesPusher"}, {"plasma_spatial_distribution", "softwareConfigPlasmaSpatialDistribution"}, {"plasma_velocity_distribution", "softwareConfigPlasmaVelocityDistribution"}, {"maxwell_solver", "softwareConfigFieldSolver"}, {"build_flags", "softwareBuildFlags"}, {"package_version", "softwareVersion"}};
  for (auto &k : js) if (!o[k.first].is<string>() || o[k.first].get<string>() != opt[k.second]) bad("build option " + k.first + " is wrong");
  string com; if (a.get<picojson::object>()["comment"].is<string>()) com = a.get<picojson::object>()["comment"].get<string>(); if (!at.count("@comment") || at["@comment"] != com) bad("comment is not kept");
}
static void files(Runner &r, bool only_metadata = false) {
  if (!sh) sh = (Sh *)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  string top = R().scratch + fmt("/f%d", getpid()); mkdir(top.c_str(), 0755); static int n = 0;
  auto fresh = [=]() { string d = top + fmt("/c%d", n++); mkdir(d.c_str(), 0755); return d; };
  auto spec = [](const string &root) { Spec s = sim_spec(0, root); s.t_end = 1e-15; return s; };
  if (!only_metadata) {
  // data directory: every depth, every existing part, every spelling
  for (int depth = 1; depth <= (r.thorough ? 6 : 4); ++depth) for (int have = 0; have <= depth; ++have) for (int kind = 0; kind < 5; ++kind) R().run(fmt("directory depth=%d existing=%d spelling=%d", depth, have, kind), [=]() {
    string d = fresh(), root = d, full; for (int i = 0; i < depth; ++i) { root += (kind == 2 && i == depth - 1 ? "//" : "/") + fmt("d%d", i); if (i < have) mkdir(root.c_str(), 0755); } string real = root; if (kind == 1) root += "/"; if (kind == 3) root = root.substr(d.size() + 1); if (kind == 4) root = "./" + root.substr(d.size() + 1);
    std::ofstream(d + "/other") << "mine"; if (have) std::ofstream(d + "/d0/keep") << "keep";
    child([=]() { if (chdir(d.c_str())) {} Spec s = spec(root); string cf = d + "/cfg.json"; std::ofstream(cf) << s.json(); Run q = runmain(cf); if (q.refused) { bad("run is refused: " + q.why); return; } struct stat st; if (stat(real.c_str(), &st) || !S_ISDIR(st.st_mode)) bad("data directory was not created"); check_metadata(root + "/data.h5", s.json()); if (!h5stub::world().errors.empty()) bad(h5stub::world().errors[0]); if (h5stub::world().live.size()) bad("data file is left open"); if (h5stub::world().files.size() != 1) bad("more than one data file"); });
    std::ifstream f(d + "/other"); string l; std::getline(f, l); if (l != "mine") R().fail("other", "another file was changed"); if (have) { std::ifstream g(d + "/d0/keep"); std::getline(g, l); if (l != "keep") R().fail("other", "another file was changed"); } R().state(Dig()((long)depth)((long)have)((long)kind).h); });
  // existing data is never touched, whatever it contains
  for (int kind = 0; kind < 4; ++kind) for (int depth = 0; depth <= 2; ++depth) R().run(fmt("existing data kind=%d depth=%d", kind, depth), [=]() {
    string d = fresh(), root = d; for (int i = 0; i < depth; ++i) { root += fmt("/d%d", i); mkdir(root.c_str(), 0755); } std::ofstream(d + "/cfg.json") << spec(root).json(); std::ofstream(root + "/data.h5") << "image of the file"; string before = listing(d);
    child([=]() { auto &w = h5stub::world(); auto *fd = new h5stub::FileData(); string p = root + "/data.h5"; w.files[p] = fd; if (kind >= 1) { h5stub::Dataset x; x.dims = {2, 3}; x.maxdims = {HighFive::DataSpace::UNLIMITED, 3}; x.data = {1, 2, 3, 4, 5, 6}; x.writes.assign(6, 1); fd->datasets["E/r/row/1"] = x; fd->groups.insert("E"); fd->groups.insert("E/r"); } if (kind >= 2) fd->attrs["@metadata"] = "{}"; if (kind == 3) { h5stub::Dataset x; x.dims = {1, 4, 4}; x.maxdims = {HighFive::DataSpace::UNLIMITED, 4, 4}; x.data.assign(16, 7); x.writes.assign(16, 1); fd->datasets["E/r/rec/0-4_0-4"] = x; }
      unsigned long h = digest(*fd); Run q = runmain(d + "/cfg.json"); if (!q.refused) bad("run is started over existing data"); if (w.files[p] != fd || digest(*fd) != h) bad("existing data is changed"); if (w.files.size() != 1) bad("another data file is created"); if (w.live.size()) bad("existing data file is left open"); });
    if (listing(d) != before) R().fail("changed", "files of the data directory are changed: " + before + " -> " + listing(d)); R().state(Dig()((long)kind)((long)depth)(7L).h); });
  // a second run over the result of the first one, with the same and another configuration
  for (int same = 0; same < 3; ++same) R().run(fmt("second run %d", same), [=]() { string d = fresh(); child([=]() { string c1 = d + "/c1.json", c2 = d + "/c2.json", root = d + "/a/b"; Spec s = spec(root); std::ofstream(c1) << s.json(); Spec t = s; if (same >= 1) t.step *= 2; if (same == 2) t.probes.clear(); std::ofstream(c2) << t.json(); auto &w = h5stub::world(); Run q = runmain(c1); if (q.refused) { bad("first run is refused: " + q.why); return; } string p = root + "/data.h5"; if (!w.files.count(p)) { bad("no data file"); return; } unsigned long h = digest(*w.files[p]); auto *fd = w.files[p]; Run q2 = runmain(c2); if (!q2.refused) bad("second run is started over existing data"); if (w.files[p] != fd || digest(*fd) != h) bad("data of the first run is changed"); }); });
  // a file in the place of the directory
  for (int depth = 1; depth <= 3; ++depth) R().run(fmt("file in the way depth=%d", depth), [=]() { string d = fresh(), p = d + "/d0", root = p; std::ofstream(p) << "a file"; for (int i = 1; i < depth; ++i) root += fmt("/d%d", i); std::ofstream(d + "/cfg.json") << spec(root).json(); string before = listing(d); child([=]() { Run q = runmain(d + "/cfg.json"); if (!q.refused) bad("run without data directory"); }); if (listing(d) != before) R().fail("changed", "files are changed"); });
  }
  // metadata: every part of the configuration can be read back
  vector<std::pair<string, std::function<void(Spec &)>>> var{{"base", [](Spec &) {}}, {"numbers", [](Spec &s) { s.R = 0.1 / 3; s.Z = 1e-3 / 7; s.s1 = 1.0000000000000002; s.macro_amount = 123.456; }}, {"large", [](Spec &s) { s.species[0].density = 1.2345678901234567e23; s.species[1].temperature = 1e-300; }}, {"beams", [](Spec &s) { s.beams.resize(3); s.beams[1].name = "b2"; s.beams[2].name = "b3"; s.beams[0].start_time = 1; s.beams[1].start_time = 1; s.beams[2].start_time = 1; }}, {"many species", [](Spec &s) { for (int i = 0; i < 5; ++i) s.species.push_back(Specie{fmt("s%d", i), (double)i, 10. + i, 1e14 * i + 1, 0.5 * i}); }}, {"no probes", [](Spec &s) { s.probes.clear(); }}, {"probes", [](Spec &s) { for (int i = 0; i < 4; ++i) { Probe p; p.shape = "dot"; p.r0 = i; p.z0 = 3 - i; p.component = "H/z"; p.with_specie = false; p.schedule = i + 1; s.probes.push_back(p); } }}, {"domains", [](Spec &s) { s.dr = s.dz = 2; }}, {"pml", [](Spec &s) { s.pml_left = 0.25; s.pml_outer = 0.5; s.pml_right = 0.26; }}, {"fields", [](Spec &s) { s.magn = "const_z"; s.magnp = {1, 2.5, -3}; }}, {"extra keys", [](Spec &s) { s.extra = ",\"notes\":[1,\"two\",{\"three\":null,\"four\":[true,false]}],\"debug\":true"; }}};
  for (auto &v : var) { auto f = v.second; R().run("metadata " + v.first, [=]() { string d = fresh(); child([=]() { Spec s = spec(d + "/out"); f(s); std::ofstream(d + "/cfg.json") << s.json(); Run q = runmain(d + "/cfg.json"); if (q.refused) { bad("run is refused: " + q.why); return; } check_metadata(d + "/out/data.h5", s.json()); }); R().state(Dig()(v.first)(3L).h); }); }
  vector<string> comments{"", "c", "two words", "quote \\\" and backslash \\\\", "line\\nbreak\\ttab", "slash / \\u0001", "\xd0\x9f\xd0\xbb\xd0\xb0\xd0\xb7\xd0\xbc\xd0\xb0", "[1,2]", string(5000, 'x')};
  for (size_t i = 0; i <= comments.size(); ++i) R().run(fmt("comment %zu", i), [=]() { string d = fresh(); child([=]() { Spec s = spec(d + "/out"); string j = s.json(); size_t at = j.find("\"comment\":\"c\","); if (i < comments.size()) j.replace(at, 14, "\"comment\":\"" + comments[i] + "\","); else j.erase(at, 14); std::ofstream(d + "/cfg.json") << j; Run q = runmain(d + "/cfg.json"); if (q.refused) { bad("run is refused: " + q.why); return; } check_metadata(d + "/out/data.h5", j); }); });
}

int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) { r.case_timeout = 300; if (!r.rest.empty() && r.rest[0] == "--files") files(r); else if (!r.rest.empty() && r.rest[0] == "--metadata") files(r, true); else signals(r); });
}
