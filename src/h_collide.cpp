// C22: Coulomb collisions conserve particles, momentum and energy
#define HL_RANDOM
#include "hlib.hpp"
using namespace hl;
typedef long double ld;
static const ld C = constant::LIGHT_VEL;
#ifdef SWITCH_COULOMB_COLLISIONS_TA77S
static const bool REL = false;
#else
static const bool REL = true;
#endif

// ---------------------------------------------------------------- every random number is chosen by the exploration
static vector<double> U{0.3}, A{1.0}, N{0.5}; static vector<int> RND{0}; static size_t nu, na, nn, nr_;
static void draws() { nu = na = nn = nr_ = 0; }
extern "C" {
double __wrap__ZN4math6random7uniformEv() { return U[nu++ % U.size()]; }
double __wrap__ZN4math6random8uniform1Ev() { return U[nu++ % U.size()] * (1 - 1e-11); }
double __wrap__ZN4math6random8uniform2Ev() { return 2 * U[nu++ % U.size()] - 1; }
double __wrap__ZN4math6random13uniform_angleEv() { return A[na++ % A.size()]; }
double __wrap__ZN4math6random6normalEd(double s) { return s * N[nn++ % N.size()]; }
int __wrap_rand() { return RND[nr_++ % RND.size()]; }
void __wrap_srand(unsigned) {}
}

struct Pt { Particle *p; ld m; string sp; double r, z, w, v[3]; };
struct Box {
  Sim s; vector<Pt> pts;
  explicit Box(const Spec &sp) : s(sp) {}
  void clear() { s.each([&](Domain *d, int, int) { for (auto sp : d->species_p) { for (auto p : sp->particles) delete p; sp->particles.clear(); } }); pts.clear(); }
  void add(const string &sp, int i, int k, double w, double vr, double vp, double vz, double fr = 0.5, double fz = 0.5) {
    Pt t; t.sp = sp; t.r = (i + fr) * s.g->cell_size[0]; t.z = (k + fz) * s.g->cell_size[1]; t.w = w; t.v[0] = vr; t.v[1] = vp; t.v[2] = vz; t.p = s.put(sp, t.r, t.z, vr, vp, vz, w);
    t.m = 0; for (auto &x : s.cfg->particle_species) if (x.name == sp) t.m = x.mass; pts.push_back(t);
  }
  void set_v(size_t n, const double *v) { Pt &t = pts[n]; t.v[0] = t.p->vel_r = v[0]; t.v[1] = t.p->vel_phi = v[1]; t.v[2] = t.p->vel_z = v[2]; }
  void go() { draws(); s.each([&](Domain *d, int, int) { d->collide(); }); R().count("transitions", 1); }
  static ld gam(const ld *v) { ld q = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / (C * C); return q < 1 ? 1 / sqrtl(1 - q) : 1; }
  // nothing but velocities has changed
  string intact() {
    size_t n = 0; string e; s.each([&](Domain *d, int, int) { for (auto sp : d->species_p) n += sp->particles.size(); }); if (n != pts.size()) return fmt("%zu particles became %zu", pts.size(), n);
    for (auto &t : pts) { bool f = false; s.each([&](Domain *d, int, int) { for (auto sp : d->species_p) if (sp->name == t.sp) for (auto p : sp->particles) if (p == t.p) f = true; }); if (!f) return t.sp + " particle is lost"; if (t.p->pos_r != t.r || t.p->pos_z != t.z || t.p->pos_phi != 0) return "position of a particle is changed"; if (t.p->weight != t.w) return "weight of a particle is changed"; }
    return "";
  }
  // (key, message) of the first violation; momentum and energy of the particles with numbers [a, b)
  std::pair<string, string> conserved(size_t a, size_t b) {
    ld p0[3] = {0, 0, 0}, p1[3] = {0, 0, 0}, pa = 0, e0 = 0, e1 = 0;
    for (size_t n = a; n < b; ++n) { Pt &t = pts[n]; ld v0[3] = {t.v[0], t.v[1], t.v[2]}, v1[3] = {t.p->vel_r, t.p->vel_phi, t.p->vel_z};
      for (int q = 0; q < 3; ++q) if (!std::isfinite((double)v1[q])) return {"finite", fmt("velocity of %s is not finite", t.sp.c_str())};
      ld s0 = v0[0] * v0[0] + v0[1] * v0[1] + v0[2] * v0[2], s1 = v1[0] * v1[0] + v1[1] * v1[1] + v1[2] * v1[2]; if (s1 >= C * C) return {"superluminal", fmt("%s is faster than light: %.9g c", t.sp.c_str(), (double)(sqrtl(s1) / C))};
      ld g0 = REL ? gam(v0) : 1, g1 = REL ? gam(v1) : 1, m = t.m * t.w;
      e0 += m * (REL ? g0 * g0 / (g0 + 1) * s0 : s0 / 2); e1 += m * (REL ? g1 * g1 / (g1 + 1) * s1 : s1 / 2); pa += m * g0 * sqrtl(s0);
      for (int q = 0; q < 3; ++q) { p0[q] += m * g0 * v0[q]; p1[q] += m * g1 * v1[q]; } }
    for (int q = 0; q < 3; ++q) if (fabsl(p1[q] - p0[q]) > 1e-8L * pa) return {"momentum", fmt("momentum component %d is changed by %.3g of the sum", q, (double)((p1[q] - p0[q]) / pa))};
    if (fabsl(e1 - e0) > 1e-8L * e0) return {"energy", fmt("kinetic energy is changed by %.3g of it", (double)((e1 - e0) / e0))};
    return {"", ""};
  }
  string show() { string o; for (auto &t : pts) o += fmt("%s(%g,%g,%g)>(%g,%g,%g) ", t.sp.c_str(), t.v[0], t.v[1], t.v[2], t.p->vel_r, t.p->vel_phi, t.p->vel_z); return o; }
  bool check(size_t a, size_t b, const string &more = "") { auto c = conserved(a, b); string i = intact(); if (i.empty() && c.first.empty()) return true; R().fail(i.empty() ? c.first : "intact", (i.empty() ? c.second : i) + " " + more + show()); return false; }
};
static Spec spec(int nr = 4, int nz = 4, int dr = 1, int dz = 1) { Spec s; s.nr = nr; s.nz = nz; s.R = nr * 1e-3; s.Z = nz * 1e-3; s.dr = dr; s.dz = dz; s.step = 1e-12; return s; }
static Box &box() { static Box *b = nullptr; static pid_t of = 0; if (!b || of != getpid()) { b = new Box(spec()); of = getpid(); } b->clear(); return *b; }
struct D { double u, u2, a, n; };
static vector<D> all_draws(bool thorough) {
  vector<D> v; vector<double> us{0, 1e-17, 0.3, 0.75, 1 - ldexp(1, -53)}, as{0, constant::PI / 3, constant::PI, 5.0}, ns{-3, -1, -0.1, 0, 1, 4}; if (thorough) { us.push_back(1e-6); us.push_back(0.5); as.push_back(constant::PI / 2); as.push_back(2 * constant::PI); ns.push_back(1e-3); ns.push_back(8); }
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
  for (double u : us) for (double u2 : {0.0, 1 - ldexp(1, -53)}) for (double a : as) v.push_back({u, u2, a, 0});
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
  for (double n : ns) for (double a : as) v.push_back({0.5, 0.5, a, n});
#else
  for (double n : ns) for (double u : {0.0, 0.3}) for (double a : as) v.push_back({u, u, a, n});
#endif
  return v;
}
static void use(const D &d) { U = {d.u, d.u2}; A = {d.a}; N = {d.n}; RND = {0}; }

#ifndef COLLIDE_BASE
int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    vector<double> weights{1e3, 1e9, 1e11, 1e12, 1e14}; vector<double> scales{1e4, 1e6, 2e7}, rels{1e8, 1.7e8};
    auto lat = [](int n, double s, double *v) { v[0] = (n % 3 - 1) * s; v[1] = (n / 3 % 3 - 1) * s; v[2] = (n / 9 - 1) * s; };
    auto drs = all_draws(r.thorough);
    // electron and ion: all velocities of the lattice, all random numbers
    auto pairs = [=](double se, double si, double w, int a) { Box &b = box(); b.add("electrons", 1, 2, w, 0, 0, 0, 0.3, 0.4); b.add("ions", 1, 2, w, 0, 0, 0, 0.7, 0.1); int bad = 0;
      for (int c = 0; c < 27; ++c) { double va[3], vb[3]; lat(a, se, va); lat(c, si, vb); for (auto &d : drs) { use(d); b.set_v(0, va); b.set_v(1, vb); b.go(); if (!b.check(0, 2, fmt("u=%g,%g a=%g n=%g ", d.u, d.u2, d.a, d.n)) && ++bad > 3) return; } R().state(Dig()(se)(si)(w)((long)a)((long)c).h); } };
    for (double w : weights) for (double s : scales) for (double q : {1.0, 0.02}) for (int a = 0; a < 27; ++a) R().run(fmt("pair speeds=%g,%g weight=%g velocity=%d", s, s * q, w, a), [=]() { pairs(s, s * q, w, a); });
    // dense plasmas: strong collisions, up to isotropic scattering
    for (double w : {3e17, 1e19}) for (double s : {1e6, 2e7}) for (int a = 0; a < 27; ++a) R().run(fmt("dense pair speeds=%g,%g weight=%g velocity=%d", s, s * 0.3, w, a), [=]() { pairs(s, s * 0.3, w, a); });
    if (REL) for (double w : weights) for (double s : rels) for (double q : {1.0, 0.3}) for (int a = 0; a < 27; ++a) R().run(fmt("relativistic pair speeds=%g,%g weight=%g velocity=%d", s, s * q, w, a), [=]() { pairs(s, s * q, w, a); });
    // two like particles: all pairs of velocities of the lattice, one particle of the other specie nearby
    for (int q = 0; q < 2; ++q) for (double s : {1e4, 2e7, 1.6e8}) for (double w : {1e9, 1e12}) for (int a = 0; a < 27; ++a) { if (!REL && s > 1e8) continue; R().run(fmt("like pair of %s speed=%g weight=%g velocity=%d", q ? "ions" : "electrons", s, w, a), [=]() { Box &b = box(); const char *n0 = q ? "ions" : "electrons", *n1 = q ? "electrons" : "ions"; b.add(n0, 1, 2, w, 0, 0, 0, 0.3, 0.4); b.add(n0, 1, 2, w, 0, 0, 0, 0.7, 0.1); b.add(n1, 1, 2, w, 0, 0, 0, 0.5, 0.2); double v1[3] = {1e3, -2e3, 5e2}; int bad = 0;
      for (int c = 0; c < 27; ++c) { double va[3], vb[3]; lat(a, s, va); lat(c, s, vb); for (auto &d : drs) { use(d); b.set_v(0, va); b.set_v(1, vb); b.set_v(2, v1); b.go(); if (!b.check(0, 3, fmt("u=%g,%g a=%g n=%g ", d.u, d.u2, d.a, d.n)) && ++bad > 3) return; } R().state(Dig()(s)(w)((long)q)((long)a)((long)c).h); } }); }
    // populations: all assignments of velocities
    int top = r.thorough ? 5 : 4; static const double dir[3][3] = {{0.3, -0.5, 0.8}, {0, 0, 1}, {-1, 0.2, 0}};
    auto pop = [=](int ne, int ni, double s, double w, int pat, int first) { Box &b = box(); for (int i = 0; i < ne; ++i) b.add("electrons", 2, 1, w, 0, 0, 0, 0.1 + 0.1 * i, 0.5); for (int i = 0; i < ni; ++i) b.add("ions", 2, 1, w, 0, 0, 0, 0.15 + 0.1 * i, 0.6); int n = ne + ni, tot = 1; for (int i = 1; i < n; ++i) tot *= 3; int bad = 0;
      for (int v = 0; v < tot; ++v) { int x = v * 3 + first; for (int i = 0; i < n; ++i) { double q[3]; for (int k = 0; k < 3; ++k) q[k] = dir[x % 3][k] * s * (i < ne ? 1 : 0.1); b.set_v(i, q); x /= 3; }
        U = {0.2, 0.9, 0.999, 0.1, 0.5}; A = {0.1, 2.0, 4.0, 6.0}; N = {0.4, -2, 1.5, -0.1, 3}; size_t sh = pat; std::rotate(U.begin(), U.begin() + sh % 5, U.end()); std::rotate(A.begin(), A.begin() + sh % 4, A.end()); std::rotate(N.begin(), N.begin() + sh % 5, N.end()); RND = pat % 2 ? vector<int>{1, 0, 5, 2, 7, 3} : vector<int>{0};
        b.go(); if (!b.check(0, n, fmt("pattern %d ", pat)) && ++bad > 2) return; R().state(Dig()((long)ne)((long)ni)(s)(w)((long)v)((long)first).h); } };
    for (int ne = 1; ne <= top; ++ne) for (int ni = 1; ni <= top; ++ni) for (double s : {1e5, 1e7}) for (double w : {1e10, 1e12}) for (int pat = 0; pat < (r.thorough ? 10 : 3); ++pat) for (int f = 0; f < 3; ++f) R().run(fmt("population %d+%d speed=%g weight=%g pattern=%d first=%d", ne, ni, s, w, pat, f), [=]() { pop(ne, ni, s, w, pat, f); });
    if (REL) for (int ne = 1; ne <= 3; ++ne) for (int ni = 1; ni <= 3; ++ni) for (int pat = 0; pat < 3; ++pat) for (int f = 0; f < 3; ++f) R().run(fmt("relativistic population %d+%d pattern=%d first=%d", ne, ni, pat, f), [=]() { pop(ne, ni, 2.2e8, 1e12, pat, f); });
#ifdef SWITCH_COULOMB_COLLISIONS_TA77S
    // this scheme restores momentum and energy of particles of different weights too
    for (int ne = 1; ne <= top; ++ne) for (int ni = 1; ni <= top; ++ni) for (int pat = 0; pat < 6; ++pat) R().run(fmt("different weights %d+%d pattern=%d", ne, ni, pat), [=]() { int n = ne + ni, tot = 1; for (int i = 0; i < n; ++i) tot *= 3; for (int v = 0; v < tot; ++v) { Box &b = box(); int x = v; for (int i = 0; i < n; ++i) { double s = i < ne ? 1e6 : 2e4; const double *q = dir[(i + pat) % 3]; b.add(i < ne ? "electrons" : "ions", 2, 2, (x % 3 == 0 ? 1e9 : x % 3 == 1 ? 2e9 : 7e10), q[0] * s, q[1] * s + 1e3 * i, q[2] * s, 0.1 + 0.1 * i); x /= 3; }
      U = {0.2, 0.9, 0.999, 0.1, 0.5}; A = {0.1, 2.0, 4.0, 6.0}; N = {0.4, -2, 1.5, -0.1, 3}; RND = pat % 2 ? vector<int>{1, 0, 5, 2, 7, 3} : vector<int>{0}; b.go(); if (!b.check(0, n)) return; R().state(Dig()((long)ne)((long)ni)((long)v)((long)pat).h); } });
#endif
    // nobody is left without a partner: species with different velocities, like particles of one specie with the same ones
    int most = r.thorough ? 24 : 13;
    for (int ne = 1; ne <= most; ++ne) for (int ni = 1; ni <= most; ++ni) for (int pat = 0; pat < 2; ++pat) R().run(fmt("partners %d+%d pattern=%d", ne, ni, pat), [=]() { Box &b = box(); for (int i = 0; i < ne; ++i) b.add("electrons", 1, 3, 1e11, 3e5, -1e5, 2e5, 0.02 + 0.03 * i); for (int i = 0; i < ni; ++i) b.add("ions", 1, 3, 1e11, 2e3, 1e3, 0, 0.03 + 0.03 * i); U = {0.3, 0.6}; A = {1, 2.5, 4}; N = {0.5, -0.8, 1.1}; RND = pat ? vector<int>{1, 0, 5, 2, 7, 3} : vector<int>{0}; b.go(); if (!b.check(0, ne + ni)) return; R().state(Dig()((long)ne)((long)ni)((long)pat).h);
      if ((int)na < std::max(ne, ni)) { R().fail("partners", fmt("%zu collisions of electrons with ions", na)); return; }
#ifndef SWITCH_COULOMB_COLLISIONS_TA77S
      for (auto &t : b.pts) if (t.p->vel_r == t.v[0] && t.p->vel_phi == t.v[1] && t.p->vel_z == t.v[2]) { R().fail("partners", "a particle of " + t.sp + " has not collided"); return; }
#endif
    });
    // like particles collide too
    for (int n = 2; n <= 5; ++n) for (int q = 0; q < 2; ++q) for (double s : {1e5, 1e7}) for (int pat = 0; pat < 3; ++pat) R().run(fmt("like particles %d of %s speed=%g pattern=%d", n, q ? "ions" : "electrons", s, pat), [=]() { Box &b = box(); for (int i = 0; i < n; ++i) { double v = s * (q ? 0.01 : 1); b.add(q ? "ions" : "electrons", 1, 1, 1e11, v * (1 + i), v * 0.3 * (i % 3), -v * 0.2 * (i * i), 0.1 + 0.1 * i); } b.add(q ? "electrons" : "ions", 1, 1, 1e11, 0, 1e3, 0, 0.9); U = {0.3, 0.6}; A = {1, 2.5, 4}; N = {0.5, -0.8, 1.1}; std::rotate(A.begin(), A.begin() + pat, A.end()); RND = pat ? vector<int>{1, 0, 5, 2, 7, 3} : vector<int>{0}; b.go(); if (!b.check(0, n + 1)) return; int like = n % 2 ? 3 + (n - 3) / 2 : n / 2; if ((int)na < like + n) R().fail("partners", fmt("%zu collisions, there should be %d of like particles and %d others", na, like, n)); });
    // populations without a partner are not touched
    for (int ne = 0; ne <= 4; ++ne) for (int ni = 0; ni <= 4; ++ni) if (!(ne && ni)) R().run(fmt("population %d+%d", ne, ni), [=]() { Box &b = box(); for (int i = 0; i < ne; ++i) b.add("electrons", 0, 0, 1e12, dir[i % 3][0] * 1e6, 0, 1e5 * i); for (int i = 0; i < ni; ++i) b.add("ions", 0, 0, 1e12, dir[i % 3][0] * 1e4, 0, 1e3 * i); b.go(); b.check(0, ne + ni); });
    // the outcome in a cell depends on its contents only: all cells, all decompositions, all surroundings
    struct Gd { int nr, nz, dr, dz; }; vector<Gd> gs{{4, 6, 1, 1}, {4, 6, 2, 2}, {4, 8, 1, 4}, {8, 4, 4, 1}}; if (r.thorough) { gs.push_back({8, 8, 4, 4}); gs.push_back({6, 6, 2, 2}); }
    for (auto g : gs) for (int i = 0; i < g.nr; ++i) for (int k = 0; k < g.nz; ++k) R().run(fmt("cell (%d,%d) of grid %dx%d domains %dx%d", i, k, g.nr, g.nz, g.dr, g.dz), [=]() {
      U = {0.4}; A = {1.0}; N = {0.7}; RND = {0}; vector<double> ref; Box one(spec(g.nr, g.nz, 1, 1)), many(spec(g.nr, g.nz, g.dr, g.dz));
      for (int sur = 0; sur < 6; ++sur) for (Box *b : {&one, &many}) { b->clear(); for (int n = 0; n < 3; ++n) b->add("electrons", i, k, 3e10, 1e5 * (n + 1), -2e5 * n, 1e5, 0.2 + 0.2 * n, 0.5); for (int n = 0; n < 2; ++n) b->add("ions", i, k, 3e10, 2e3 * n, 1e3, -1e3, 0.3 + 0.2 * n, 0.3); size_t own = b->pts.size();
        for (int x = 0; x < g.nr; ++x) for (int y = 0; y < g.nz; ++y) { if (x == i && y == k) continue; bool el = sur == 1 || sur == 3 || sur == 4 || (sur == 5 && (x + y) % 2), io = sur == 2 || sur == 3 || (sur == 4 && y < k) || (sur == 5 && (x + y) % 2 == 0); if (el) for (int n = 0; n < 1 + (x + y) % 3; ++n) b->add("electrons", x, y, 2e10, 3e5, 1e5 * n, 1e4); if (io) for (int n = 0; n < 1 + x % 2; ++n) b->add("ions", x, y, 2e10, 1e3, -2e3 * n, 1e2); }
        b->go(); if (!b->check(0, own)) return; vector<double> v; for (size_t n = 0; n < own; ++n) { v.push_back(b->pts[n].p->vel_r); v.push_back(b->pts[n].p->vel_phi); v.push_back(b->pts[n].p->vel_z); }
        if (ref.empty()) { ref = v; bool moved = false; for (size_t n = 0; n < own; ++n) if (v[3 * n] != b->pts[n].v[0]) moved = true; if (!moved) { R().fail("none", "there were no collisions"); return; } }
        for (size_t n = 0; n < v.size(); ++n) if (!hl::close(v[n], ref[n], 1e-9, 1e-3)) { R().fail("cell", fmt("surroundings %d, %s: component %zu of velocity is %.12g, alone in the undivided grid %.12g", sur, b == &one ? "one domain" : "many domains", n, v[n], ref[n])); return; }
        if (sur == 1 || sur == 2) for (size_t n = own; n < b->pts.size(); ++n) if (b->pts[n].p->vel_r != b->pts[n].v[0] || b->pts[n].p->vel_phi != b->pts[n].v[1] || b->pts[n].p->vel_z != b->pts[n].v[2]) { R().fail("foreign", "particles of another cell are changed"); return; }
        if (sur == 3) for (size_t n = own; n < b->pts.size();) { size_t m = n; auto cell = [&](size_t q) { return std::make_pair((int)(b->pts[q].r * 1e3), (int)(b->pts[q].z * 1e3)); }; while (m < b->pts.size() && cell(m) == cell(n)) ++m; if (!b->check(n, m, "other cell ")) return; n = m; }
        R().state(Dig()((long)i)((long)k)((long)sur)((long)g.nr)((long)g.dr)((long)(b == &one)).h); } });
    // accepted names of species, further species, beams
    vector<std::pair<string, string>> names{{"electrons", "ions"}, {"Electrons", "Ions"}, {"electron", "ion"}, {"Electron", "Ion"}, {"negative", "ions"}, {"electrons", "ion"}};
    for (auto nm : names) for (int order = 0; order < 2; ++order) R().run(fmt("names %s,%s order=%d", nm.first.c_str(), nm.second.c_str(), order), [=]() { Spec s = spec(); s.species[0].name = nm.first; s.species[1].name = nm.second; if (order) std::swap(s.species[0], s.species[1]); U = {0.4}; A = {1}; N = {0.7}; RND = {0}; Box b(s); for (int n = 0; n < 2; ++n) { b.add(nm.first, 1, 1, 1e12, 1e5, 2e5 * n, 1e5 + n); b.add(nm.second, 1, 1, 1e12, 1e3 * n, 1e3, 0); } b.go(); if (!b.check(0, b.pts.size())) return; for (auto &t : b.pts) if (t.p->vel_r != t.v[0]) return; R().fail("none", "there were no collisions"); });
    for (double mass : {1.0, 10.0, 1836.0, 7344.0}) for (double q : {-1.0, 1.0, 2.0}) for (int ne = 0; ne <= 2; ++ne) for (int ni = 0; ni <= 2; ++ni) for (int nx = 1; nx <= 3; ++nx) R().run(fmt("third specie mass=%g charge=%g population %d+%d+%d", mass, q, ne, ni, nx), [=]() { Spec s = spec(); s.species.push_back(Specie{"third", q, mass, 1e14, 1}); U = {0.4, 0.9, 0.1}; A = {1, 3}; N = {0.7, -1.2}; RND = {0}; Box b(s); for (int n = 0; n < ne; ++n) b.add("electrons", 1, 1, 1e12, 1e5, 2e5 * n, 1e5 + n); for (int n = 0; n < ni; ++n) b.add("ions", 1, 1, 1e12, 1e3 * n, 1e3, 7); for (int n = 0; n < nx; ++n) b.add("third", 1, 1, 1e12, -1e5 / mass, 3e4 * n / mass, 2e5 / mass); b.go(); b.check(0, b.pts.size()); });
  });
}
#endif
