// Shared part of the harnesses: exhaustive case runner (forked workers, crash and hang
// detection, replay of one case), configuration generator and simulation builder.
#ifndef VERIF_HLIB
#define VERIF_HLIB
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <complex>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#endif
#include "loguru.hpp"
#include "picojson.h"
#include <highfive/H5File.hpp>
#ifndef HL_NO_REPO
#define private public
#define protected public
#include "defines.hpp"
#include "constant.hpp"
#include "msg.hpp"
#include "cfg.hpp"
#include "algo/common.hpp"
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"
#include "SMB.hpp"
#include "outController.hpp"
#include "specieP.hpp"
#include "beamP.hpp"
#undef private
#undef protected
#endif

namespace hl {
using std::string; using std::vector;

inline string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

struct Shared {
  volatile long cur_idx; char cur_id[512];
  struct { char name[48]; long v; } st[64];
  volatile long nviol; volatile long nsample;
};

struct Abort {};

class Runner {
public:
  bool thorough = false; string replay; int nworkers = 8; string scratch;
  int case_timeout = 120; long per_child = 1000; bool keep_going = true;
  vector<string> rest;
  // called by the enumeration
  void run(const string &id, const std::function<void()> &f) {
    long my = idx_++;
    if (!replay.empty()) { if (id != replay) return; }
    else { if (my % nworkers != w_) return; if (my < start_) return; if (done_ >= per_child) { resume_ = my; throw Abort(); } }
    ++done_;
    sh_->cur_idx = my; snprintf(sh_->cur_id, sizeof sh_->cur_id, "%s", id.c_str());
    id_ = id; viol_in_case_ = 0;
    ::alarm(case_timeout);
    count("cases", 1);
    try { f(); }
    catch (Abort &) { throw; }
    catch (verif::Fatal &e) { fail("fatal", "unexpected fatal error: " + e.text); }
    catch (std::exception &e) { fail("exception", string("unexpected exception: ") + e.what()); }
    catch (StopCase &) {}
    ::alarm(0);
    sh_->cur_id[0] = 0;
    verif::logs().errors.clear(); verif::logs().warnings.clear();
  }
  void fail(const string &key, const string &detail) {
    if (viol_in_case_++ >= 3) return;
    if (sh_->nviol > 200) return;
    __sync_fetch_and_add(&sh_->nviol, 1);
    string d = detail; for (char &c : d) if (c == '\n' || c == '\t') c = ' ';
    out("VIOL\t" + key + "\t" + id_ + "\t" + d);
  }
  struct StopCase {};
  void fail_stop(const string &key, const string &detail) { fail(key, detail); throw StopCase(); }
  void count(const string &name, long n) {
    for (int i = 0; i < 64; ++i) {
      if (!sh_->st[i].name[0]) { strncpy(sh_->st[i].name, name.c_str(), 47); }
      if (name.compare(0, 47, sh_->st[i].name) == 0) { sh_->st[i].v += n; return; }
    }
  }
  // canonical state seen by the exploration (digest), counted once
  void state(unsigned long h) { states_.insert(h); }
  void sample(const string &s) { if (sh_->nsample < 6) { sh_->nsample++; out("SAMPLE\t" + id_ + ": " + s); } }
  int main(int argc, char **argv, const std::function<void(Runner &)> &enumerate) {
    for (int i = 1; i < argc; ++i) {
      string a = argv[i];
      if (a == "--thorough") thorough = true;
      else if (a == "--replay") replay = argv[++i];
      else if (a == "--workers") nworkers = atoi(argv[++i]);
      else if (a == "--scratch") scratch = argv[++i];
      else rest.push_back(a);
    }
    if (scratch.empty()) { char t[] = "/tmp/hl.XXXXXX"; scratch = mkdtemp(t); }
    if (!replay.empty()) nworkers = 1;
    vector<Shared *> sh; vector<pid_t> pid(nworkers, 0); vector<long> start(nworkers, 0); vector<int> crashes(nworkers, 0);
    vector<string> files, errf; vector<bool> over(nworkers, false);
    for (int w = 0; w < nworkers; ++w) {
      sh.push_back((Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      files.push_back(scratch + "/out." + std::to_string(w)); errf.push_back(scratch + "/err." + std::to_string(w));
      unlink(files[w].c_str()); unlink((scratch + "/st." + std::to_string(w)).c_str());
    }
    long *resume = (long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto spawn = [&](int w) {
      resume[w] = -1; fflush(0);
      pid_t p = fork();
      if (p == 0) {
        w_ = w; sh_ = sh[w]; start_ = start[w]; idx_ = 0; done_ = 0; sh_->cur_id[0] = 0;
        fd_ = open(files[w].c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
        int e = open(errf[w].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2); dup2(e, 1);
        signal(SIGALRM, SIG_DFL);
        try { enumerate(*this); if (idx_ > 0 && w == 0) { bool has = false; for (auto &s : sh_->st) if (!strcmp(s.name, "enumerated")) has = true; if (!has) count("enumerated", idx_); } }
        catch (Abort &) { resume[w] = resume_; }
        { int f = open((scratch + "/st." + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); vector<unsigned long> v(states_.begin(), states_.end()); if (write(f, v.data(), v.size() * sizeof(long)) < 0) {} ::close(f); }
        fflush(0);
        _exit(0);
      }
      pid[w] = p;
    };
    for (int w = 0; w < nworkers; ++w) spawn(w);
    int live = nworkers;
    while (live > 0) {
      int st; pid_t p = wait(&st); if (p < 0) break;
      int w = -1; for (int i = 0; i < nworkers; ++i) if (pid[i] == p) w = i;
      if (w < 0) continue;
      bool again = false;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        string what = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal " + std::to_string(WTERMSIG(st))) : "exit status " + std::to_string(WEXITSTATUS(st));
        string id = sh[w]->cur_id, msg; std::ifstream ef(errf[w]); string l;
        while (std::getline(ef, l)) if (l.find("ERROR: AddressSanitizer") != string::npos || l.find("runtime error") != string::npos || l.find("Assertion") != string::npos || l.find("SUMMARY") != string::npos || l.find("terminate") != string::npos) { msg += l.substr(0, 200) + " | "; if (msg.size() > 600) break; }
        if (id.empty()) { printf("HARNESS-ERROR worker %d died outside of a case: %s %s\n", w, what.c_str(), msg.c_str()); return 3; }
        for (char &c : msg) if (c == '\t' || c == '\n') c = ' ';
        printf("VIOL\t%s\t%s\t%s %s\n", what == "timeout" ? "hang" : "crash", id.c_str(), what.c_str(), msg.c_str());
        if (++crashes[w] < 3 && replay.empty()) { start[w] = sh[w]->cur_idx + 1; again = true; }
      } else if (resume[w] >= 0) { start[w] = resume[w]; again = true; }
      if (again) spawn(w); else --live;
    }
    std::map<string, long> tot; 
    for (int w = 0; w < nworkers; ++w) {
      std::ifstream f(files[w]); string l; while (std::getline(f, l)) puts(l.c_str());
      for (auto &s : sh[w]->st) if (s.name[0]) tot[s.name] += s.v;
    }
    { std::unordered_set<unsigned long> all; for (int w = 0; w < nworkers; ++w) { std::ifstream f(scratch + "/st." + std::to_string(w), std::ios::binary); unsigned long x; while (f.read((char *)&x, sizeof x)) all.insert(x); } tot["states"] += (long)all.size(); }
    for (auto &t : tot) printf("STAT\t%s\t%ld\n", t.first.c_str(), t.second);
    return 0;
  }
  string id_;
private:
  std::unordered_set<unsigned long> states_;
  void out(const string &l) { string x = l + "\n"; if (write(fd_, x.data(), x.size()) < 0) {} }
  Shared *sh_ = nullptr; int w_ = 0, fd_ = 1; long idx_ = 0, start_ = 0, done_ = 0, resume_ = -1; int viol_in_case_ = 0;
};
inline Runner &R() { static Runner r; return r; }

struct Dig { unsigned long h = 1469598103934665603ul;
  Dig &raw(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ul; } return *this; }
  Dig &operator()(double v) { if (v == 0) v = 0; return raw(&v, sizeof v); }
  Dig &operator()(long v) { return raw(&v, sizeof v); }
  Dig &operator()(const string &s) { return raw(s.data(), s.size()); }
  Dig &operator()(const vector<double> &v) { for (double x : v) (*this)(x); return *this; } };

inline bool close(double a, double b, double rel = 1e-9, double abs = 0) {
  if (a == b) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

// ---------------------------------------------------------------- configuration
struct Specie { string name = "electrons"; double charge = -1, mass = 1, density = 1e15, temperature = 1; };
struct Beam { string name = "electrons"; double charge = -1, mass = 1, start_time = 0, velocity = 1e8;
  double amount = 1, distance = 0, length = 0.01, radius = 0.01, density = 1e14; };
struct Probe { string component = "E/r", specie = "electrons", shape = "rec"; int schedule = 1; int r0 = 0, z0 = 0, r1 = 1, z1 = 1; bool with_specie = true; };
struct Spec {
  double R = 8, Z = 8; int nr = 8, nz = 8, dr = 1, dz = 1;
  double pml_left = 0, pml_right = 0, pml_outer = 0, s1 = 1e-5, s2 = 7e-2;
  double t_start = 0, t_end = 1e-10, step = 1e-12;
  double macro_amount = 100, ratio = 1; string data_root = "/nonexistent/out", log_file = "/dev/null";
  vector<Specie> species{Specie(), Specie{"ions", 1, 1836, 1e15, 1}};
  vector<Beam> beams; vector<Probe> probes;
  string el = "none", magn = "none"; vector<double> elp{0}, magnp{0};
  string extra; // appended to the root object
  string json() const {
    std::ostringstream o; o << std::setprecision(17);
    o << "{\"macro_amount\":" << macro_amount << ",\"beam_plasma_macro_size_ratio\":" << ratio << ",\"log_file\":\"" << log_file << "\",\"comment\":\"c\",";
    o << "\"geometry\":{\"size\":{\"radius\":" << R << ",\"longitude\":" << Z << "},\"grid\":{\"radius\":" << nr << ",\"longitude\":" << nz
      << "},\"domains_amount\":{\"radius\":" << dr << ",\"longitude\":" << dz << "},\"pml\":{\"left_wall\":" << pml_left << ",\"right_wall\":" << pml_right
      << ",\"outer_wall\":" << pml_outer << ",\"sigma_1\":" << s1 << ",\"sigma_2\":" << s2 << "}},";
    o << "\"time\":{\"start\":" << t_start << ",\"end\":" << t_end << ",\"step\":" << step << "},";
    auto arr = [&](const vector<double> &v) { o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; };
    o << "\"external_fields\":{\"electric\":{\"formfactor\":\"" << el << "\",\"params\":"; arr(elp);
    o << "},\"magnetic\":{\"formfactor\":\"" << magn << "\",\"params\":"; arr(magnp); o << "}},";
    o << "\"particles\":[";
    for (size_t i = 0; i < species.size(); ++i) { auto &s = species[i]; o << (i ? "," : "") << "{\"name\":\"" << s.name << "\",\"charge\":" << s.charge << ",\"mass\":" << s.mass << ",\"density\":" << s.density << ",\"temperature\":" << s.temperature << "}"; }
    o << "],\"beams\":[";
    for (size_t i = 0; i < beams.size(); ++i) { auto &b = beams[i]; o << (i ? "," : "") << "{\"name\":\"" << b.name << "\",\"charge\":" << b.charge << ",\"mass\":" << b.mass << ",\"start_time\":" << b.start_time << ",\"velocity\":" << b.velocity
      << ",\"bunch\":{\"amount\":" << b.amount << ",\"distance\":" << b.distance << ",\"length\":" << b.length << ",\"radius\":" << b.radius << ",\"density\":" << b.density << ",\"profile\":{\"radial\":\"flat\",\"longitudinal\":\"flat\"}}}"; }
    o << "],\"data\":{\"data_root\":\"" << data_root << "\",\"compression\":{\"use\":false,\"level\":1},\"probes\":[";
    for (size_t i = 0; i < probes.size(); ++i) {
      auto &p = probes[i]; o << (i ? "," : "") << "{\"component\":\"" << p.component << "\"";
      if (p.with_specie) o << ",\"specie\":\"" << p.specie << "\"";
      o << ",\"schedule\":" << p.schedule << ",\"shape\":\"" << p.shape << "\"";
      if (p.shape == "rec") o << ",\"start\":{\"r\":" << p.r0 << ",\"z\":" << p.z0 << "},\"end\":{\"r\":" << p.r1 << ",\"z\":" << p.z1 << "}";
      else if (p.shape == "col") o << ",\"z\":" << p.z0;
      else if (p.shape == "row") o << ",\"r\":" << p.r0;
      else o << ",\"r\":" << p.r0 << ",\"z\":" << p.z0;
      o << "}";
    }
    o << "],\"plot\":{\"subplot\":{\"cmap\":\"terrain\",\"ticks\":{\"x_amount\":20,\"y_amount\":8,\"z_amount\":20,\"cbar_amount\":3}},\"figure\":{\"color\":\"None\",\"width\":10.5,\"height\":7,\"dpi\":100,\"font\":{\"family\":\"sans-serif\",\"size\":10,\"name\":\"DejaVu Sans\"}},\"video\":{\"codec\":\"mjpeg\",\"fps\":20,\"bitrate\":32000}}}";
    o << extra << "}";
    return o.str();
  }
};

#ifndef HL_NO_REPO
inline string write_cfg(const string &json) {
  static int n = 0; string p = R().scratch + "/cfg." + std::to_string(getpid()) + "." + std::to_string(n++ % 4) + ".json";
  std::ofstream(p) << json; return p;
}
struct Sim {
  Cfg *cfg = nullptr; SMB *smb = nullptr; Geometry *g = nullptr; TimeSim *t = nullptr;
  Sim() {}
  explicit Sim(const Spec &s) { cfg = new Cfg(write_cfg(s.json())); g = cfg->geometry; t = cfg->time; smb = new SMB(cfg, g, t, 0, 1); }
  Domain *d(int i, int j) { return smb->domains(i, j); }
  Domain *owner(int ci, int cj) { // domain that owns the global cell
    for (unsigned i = 0; i < smb->r_domains; ++i) for (unsigned j = 0; j < smb->z_domains; ++j) { auto &c = d(i, j)->geometry.cell_dims;
      if (ci >= (int)c[0] && ci < (int)c[2] && cj >= (int)c[1] && cj < (int)c[3]) return d(i, j); }
    return nullptr;
  }
  SpecieP *specie(Domain *dm, const string &n) { for (auto s : dm->species_p) if (s->name == n) return s; return nullptr; }
  // puts a particle to the domain that owns its cell
  Particle *put(const string &sp, double r, double z, double vr, double vp, double vz, double w) {
    int ci = (int)floor(r / g->cell_size[0]), cj = (int)floor(z / g->cell_size[1]);
    Domain *dm = owner(ci, cj); if (!dm) return nullptr;
    return put_to(specie(dm, sp), r, z, vr, vp, vz, w);
  }
  Particle *put_to(SpecieP *s, double r, double z, double vr, double vp, double vz, double w) {
    Particle *p = new Particle(); p->pos_r = r; p->pos_z = z; p->pos_phi = 0; p->pos_old_r = r; p->pos_old_z = z; p->pos_old_phi = 0;
    p->vel_r = vr; p->vel_phi = vp; p->vel_z = vz; p->weight = w; p->specie_id = s->id;
    p->cell_r = (size_t)floor(r / g->cell_size[0]); p->cell_z = (size_t)floor(z / g->cell_size[1]);
    s->particles.push_back(p); return p;
  }
  void each(const std::function<void(Domain *, int, int)> &f) { for (unsigned i = 0; i < smb->r_domains; ++i) for (unsigned j = 0; j < smb->z_domains; ++j) f(d(i, j), i, j); }
  void step() { smb->inject_beam(); smb->solve_maxvell(); smb->advance_particles(); smb->solve_current(); t->current += t->step; }
};
enum { F_E = 0, F_H = 1, F_HET = 2, F_J = 3 };
inline Grid3D<double> &field(Domain *d, int which) {
  return which == F_E ? d->maxwell_solver->field_e : which == F_H ? d->maxwell_solver->field_h : which == F_HET ? d->maxwell_solver->field_h_at_et : d->current->current;
}
// global array [c][i][k] assembled from the owners
inline vector<double> global(Sim &s, int which) {
  int nr = s.g->cell_amount[0], nz = s.g->cell_amount[1]; vector<double> v(3 * nr * nz);
  s.each([&](Domain *d, int, int) { auto &c = d->geometry.cell_dims; for (int q = 0; q < 3; ++q) for (size_t i = c[0]; i < c[2]; ++i) for (size_t k = c[1]; k < c[3]; ++k) v[(q * nr + i) * nz + k] = field(d, which)(q, i - c[0], k - c[1]); });
  return v;
}
inline double maxabs(const vector<double> &v) { double m = 0; for (double x : v) { if (!std::isfinite(x)) return INFINITY; m = std::max(m, std::fabs(x)); } return m; }
#endif
} // namespace hl

// deterministic randomness: every std::random_device draw comes from here
namespace hl { inline unsigned &seed() { static unsigned s = 12345; return s; } }
#ifdef HL_RANDOM
namespace std { inline namespace _V2 {} unsigned int random_device::_M_getval() { return hl::seed(); } }
#endif
#endif
