// C01: thread counts and schedules of the parallel regions, on a controlled OpenMP runtime (sched.cpp)
#include "hlib.hpp"
#include "sched.hpp"
using namespace hl;
static const double C = 299792458.;
struct Case { int nr, nz, dr, dz; int crowd; bool pml, beam; };
static Spec spec(const Case &u) {
  Spec s; s.nr = u.nr; s.nz = u.nz; s.dr = u.dr; s.dz = u.dz; s.R = u.nr * 1e-3; s.Z = u.nz * 1.25e-3; s.step = 0.35e-3 / C; s.t_end = 1e-9; s.macro_amount = 2000;
  if (u.pml) { s.pml_left = s.pml_right = s.pml_outer = 0.3; s.s1 = 1e-3; s.s2 = 5; }
  if (u.beam) { Beam b; b.radius = s.R * 0.6; b.length = 1; s.beams.push_back(b); }
  return s;
}
static void init(Sim &s, const Case &u) {
  s.each([&](Domain *d, int, int) { auto &cd = d->geometry.cell_dims; for (int w : {F_E, F_HET, F_H}) for (int c = 0; c < 3; ++c) for (int i = -2; i < (int)d->geometry.cell_amount[0] + 2; ++i) for (int k = -2; k < (int)d->geometry.cell_amount[1] + 2; ++k) { int gi = i + (int)cd[0], gk = k + (int)cd[1]; bool in = gi >= 0 && gk > 0 && gi < u.nr - 1 && gk < u.nz - 1; field(d, w)[c].set(i, k, in ? sin(0.7 + gi * 1.3 + c) * cos(0.4 + gk * 0.9 + w) * (w == F_E ? 1e5 : 300) : 0); } });
  long n = 0; if (u.crowd) for (int i = 0; i < u.nr; ++i) for (int k = 0; k < u.nz; ++k) for (int q = 0; q < (u.crowd == 2 ? 9 : 2); ++q) { int d = u.crowd == 2 ? q : (int)(n % 9); double fr = 0.5 + 0.45 * (d / 3 - 1), fz = 0.5 + 0.45 * (d % 3 - 1), v = 0.68; ++n; double vr = v * (d / 3 - 1), vz = v * (d % 3 - 1); if (i + fr < 0.55) fr = 0.55 - i; s.put(n % 4 == 0 ? "ions" : "electrons", (i + fr) * s.g->cell_size[0], (k + fz) * s.g->cell_size[1], vr * C, (n % 3) * 0.1 * C, vz * C, 1e7 * (1 + n / 4096.)); }
}
struct Out { vector<double> f[4]; vector<std::map<double, std::array<double, 6>>> ps; };
static Out observe(Sim &s) { Out o; for (int w = 0; w < 4; ++w) o.f[w] = global(s, w); s.each([&](Domain *d, int, int) { for (auto sp : d->species_p) { o.ps.emplace_back(); for (auto p : sp->particles) { double id = p->weight; while (o.ps.back().count(id)) id += 1e-3; o.ps.back()[id] = {p->pos_r, p->pos_phi, p->pos_z, p->vel_r, p->vel_phi, p->vel_z}; } } }); return o; }
static void compare(const Out &a, const Out &b, const string &w) {
  const char *nm[4] = {"electric field", "magnetic field", "magnetic field at half step", "current"};
  for (int x = 0; x < 4; ++x) { double m = maxabs(a.f[x]); for (size_t n = 0; n < a.f[x].size(); ++n) if (!(fabs(a.f[x][n] - b.f[x][n]) <= 1e-9 * m)) R().fail_stop("result", w + fmt(": %s value %zu is %.12g, with one thread %.12g", nm[x], n, b.f[x][n], a.f[x][n])); }
  for (size_t q = 0; q < a.ps.size(); ++q) { if (a.ps[q].size() != b.ps[q].size()) R().fail_stop("result", w + fmt(": list %zu has %zu particles, with one thread %zu", q, b.ps[q].size(), a.ps[q].size())); auto y = b.ps[q].begin(); for (auto &p : a.ps[q]) { double sc[6] = {1e-3, 1, 1e-3, C, C, C}; for (int k = 0; k < 6; ++k) if (p.first != y->first || !(fabs(p.second[k] - y->second[k]) <= 1e-9 * sc[k])) R().fail_stop("result", w + fmt(": particle of list %zu differs from one thread", q)); ++y; } }
}
static void verdict(const string &w) { R().count("accesses", sched_st.accesses); R().count("regions", sched_st.regions); R().count("transitions", 1); R().count("preemptions", sched_st.preemptions); if (sched_st.conflicts) R().fail_stop("race", w + ": " + sched_msg); }
struct Pol { int team; long perm; vector<std::pair<long, int>> pre; };
static string show(const Pol &p) { string o = fmt("%d threads, order %ld", p.team, p.perm); for (auto &x : p.pre) o += fmt(", preempted at %ld by %d", x.first, x.second); return o; }
static void use(const Pol &p) { sched_begin(p.team, p.perm); for (auto &x : p.pre) { sched_pol.pre[sched_pol.npre].at = x.first; sched_pol.pre[sched_pol.npre].to = x.second; sched_pol.npre++; } }
static const char *phase_name[3] = {"fields", "particles", "currents"};
static void phase(Sim &s, int p) { if (p == 0) s.smb->solve_maxvell(); else if (p == 1) s.smb->advance_particles(); else s.smb->solve_current(); }
static vector<Pol> orders(bool thorough) { vector<Pol> v; long f = 1; for (int t = 2; t <= (thorough ? 5 : 4); ++t) { f *= t; for (long p = 0; p < f; ++p) v.push_back({t, p, {}}); } for (int t : {3, 5, 6, 8, 16, 17}) { long last = t <= 17 ? 1 : 0; v.push_back({t, 0, {}}); long rev = 1; for (int k = 2; k <= t; ++k) rev *= k; if (t <= 17 && last) v.push_back({t, rev - 1, {}}); } return v; }

int main(int argc, char **argv) {
  verif::logs().quiet = true; verif::logs().keep = false;
  return R().main(argc, argv, [](Runner &r) {
    auto ords = orders(r.thorough); vector<Case> cs; struct G { int nr, nz; }; vector<G> gs{{8, 8}, {8, 16}}; if (r.thorough) gs = {{8, 8}, {8, 16}, {16, 8}, {12, 12}};
    for (auto g : gs) for (int dr : {1, 2, 4, 6}) for (int dz : {1, 2, 4, 6}) { if (g.nr % dr || g.nz % dz || (dr == 1 && dz == 1)) continue; for (int crowd = 0; crowd < 3; ++crowd) cs.push_back({g.nr, g.nz, dr, dz, crowd, (crowd + dr) % 2 == 1, false}); }
    int steps = r.thorough ? 6 : 3;
#ifndef ENABLE_COULOMB_COLLISIONS
    // every order of the threads: no conflicting accesses, and the result of one thread
    for (auto u : cs) for (size_t part = 0; part < ords.size(); part += 9) R().run(fmt("grid %dx%d domains %dx%d crowd=%d layers=%d schedules %zu..", u.nr, u.nz, u.dr, u.dz, u.crowd, u.pml, part), [=]() {
      vector<Out> ref; { Sim s(spec(u)); init(s, u); for (int st = 0; st < steps; ++st) for (int p = 0; p < 3; ++p) { use({1, 0, {}}); phase(s, p); ref.push_back(observe(s)); } }
      for (size_t n = part; n < std::min(part + 9, ords.size()); ++n) { Sim s(spec(u)); init(s, u); for (int st = 0; st < steps; ++st) for (int p = 0; p < 3; ++p) { string w = fmt("step %d, %s, ", st, phase_name[p]) + show(ords[n]); use(ords[n]); phase(s, p); verdict(w); Out o = observe(s); compare(ref[st * 3 + p], o, w); R().state(Dig()(o.f[F_E])(o.f[F_H])(o.f[F_J])((long)u.dr)((long)u.dz).h); } R().count("schedules", 1); } });
    // hand-over: particles anywhere, also outside of the area; all preemptions at the points, where threads communicate
    for (auto u : cs) { if (u.crowd != 1 || u.nr != 8) continue; for (int shift = 0; shift < 5; ++shift) R().run(fmt("hand-over grid %dx%d domains %dx%d shift=%d", u.nr, u.nz, u.dr, u.dz, shift), [=]() {
      auto start = [&](Sim &s) { init(s, u); long n = 0; s.each([&](Domain *d, int, int) { for (auto sp : d->species_p) for (auto p : sp->particles) { ++n; long a = (n * 7 + shift * 3) % (u.nr + 3), b = (n * 5 + shift) % (u.nz + 3) - 1; p->pos_r = (a + 0.5) * s.g->cell_size[0]; p->pos_z = (b + 0.5) * s.g->cell_size[1]; p->cell_r = (size_t)a; p->cell_z = (size_t)b; } }); };
      Out ref; { Sim s(spec(u)); start(s); use({1, 0, {}}); s.smb->particles_runaway_collector(); ref = observe(s); }
      auto one = [&](const Pol &p) { Sim s(spec(u)); start(s); use(p); s.smb->particles_runaway_collector(); verdict("hand-over, " + show(p)); long k = sched_st.syncs; Out o = observe(s); compare(ref, o, "hand-over, " + show(p)); R().count("schedules", 1); return k; };
      for (int t : {2, 3}) { long k = one({t, 0, {}}); R().count("sync_points", k); long top = r.thorough ? k : std::min(k, 24L); for (long a = 0; a < top; ++a) for (int x = 0; x < t - 1; ++x) { one({t, 0, {{a, x}}}); if (r.thorough && a < 40) for (long b = a + 1; b < std::min(k, a + 12); ++b) one({t, 0, {{a, x}, {b, 0}}}); } }
      R().state(Dig()((long)shift)((long)u.dr)((long)u.dz).h); }); }
#endif
    // conflicts only, where the result is random: initial distribution, beams, collisions
    for (auto u0 : cs) { if (u0.crowd != 1) continue; for (int t : {2, 3, 4, 8, 17}) R().run(fmt("random phases grid %dx%d domains %dx%d threads=%d", u0.nr, u0.nz, u0.dr, u0.dz, t), [=]() { Case u = u0; u.beam = true; Sim s(spec(u)); init(s, u); for (long p : {0L, 1L}) { use({t, p, {}}); s.smb->distribute(); verdict(fmt("distribution, %d threads", t)); for (int st = 0; st < 3; ++st) { use({t, p, {}}); s.smb->inject_beam(); verdict(fmt("injection, %d threads", t)); for (int q = 0; q < 3; ++q) { use({t, p, {}}); phase(s, q); verdict(fmt("%s, %d threads", phase_name[q], t)); } s.t->current += s.t->step; } R().count("schedules", 1); } long n = 0; s.each([&](Domain *d, int, int) { for (auto sp : d->species_p) n += sp->particles.size(); }); if (n < 50) R().fail("vacuous", fmt("%ld particles", n)); R().state(Dig()((long)t)((long)u.dr)((long)u.dz).h); }); }
  });
}
