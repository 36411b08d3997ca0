// C05: current deposition
#include "hlib.hpp"
using namespace hl;
static const double PI_ = 3.14159265358979323846;
struct Move { double r0, z0, r1, z1; }; // in cells
struct Env { double dr, dz, dt; int nr, nz; };

// reference: charge assigned to the nodes by a particle (fractions)
static void charge(const Env &e, double r, double z, double w, vector<double> &q) {
  int i = (int)floor(r), k = (int)floor(z); double fz = z - k;
#ifdef SWITCH_CCS_ZIGZAG
  double f = 1 - (r - i);
#else
  double f = ((i + .5) * (i + .5) - (r - .5) * (r - .5)) / (2 * r); // share of the ring [r-1/2, r+1/2] below i+1/2
#endif
  auto add = [&](int a, int b, double v) { if (a < e.nr + 2 && b < e.nz + 2) q[a * (e.nz + 2) + b] += v; };
  add(i, k, w * f * (1 - fz)); add(i + 1, k, w * (1 - f) * (1 - fz)); add(i, k + 1, w * f * fz); add(i + 1, k + 1, w * (1 - f) * fz);
}
static void check(const Env &e, const vector<double> &J, const vector<Move> &ms, const vector<double> &q, const vector<double> &vphi, const string &what) {
  vector<double> a((e.nr + 2) * (e.nz + 2)), b(a.size()); double scale = 0;
  for (size_t n = 0; n < ms.size(); ++n) { charge(e, ms[n].r0, ms[n].z0, q[n], a); charge(e, ms[n].r1, ms[n].z1, q[n], b); scale += fabs(q[n]); }
  auto j = [&](int c, int i, int k) { return i < 0 || k < 0 || i >= e.nr || k >= e.nz ? 0. : J[(c * e.nr + i) * e.nz + k]; };
#ifdef SWITCH_CCS_ZIGZAG
  // common volume of the particle (one particle only)
  double V = PI_ * e.dz * e.dr * e.dr * (2. * floor((ms[0].r0 + ms[0].r1) / 2) + 1);
  auto fr = [&](int i, int k) { return j(0, i, k) * V / e.dr; };
  auto fz = [&](int i, int k) { return j(2, i, k) * V / e.dz; };
#else
  auto fr = [&](int i, int k) { return i < 0 ? 0. : j(0, i, k) * 2 * PI_ * (i + .5) * e.dr * e.dz; };
  auto fz = [&](int i, int k) { return j(2, i, k) * (i == 0 ? PI_ * e.dr * e.dr / 4 : 2 * PI_ * i * e.dr * e.dr); };
#endif
  for (int i = 0; i < e.nr; ++i) for (int k = 0; k < e.nz; ++k) {
    double div = fr(i, k) - fr(i - 1, k) + fz(i, k) - fz(i, k - 1), dq = (b[i * (e.nz + 2) + k] - a[i * (e.nz + 2) + k]) / e.dt;
    if (!(fabs(div + dq) <= 1e-9 * scale / e.dt)) R().fail_stop("continuity", what + fmt(": node (%d,%d): divergence of the current %.9g, change of the charge %.9g (of %.3g)", i, k, div * e.dt, -dq * e.dt, scale)); }
  // azimuthal current: volume weighting of the middle of the move
  vector<double> p(e.nr * e.nz, 0.); double ps = 0;
  for (size_t n = 0; n < ms.size(); ++n) {
#ifdef SWITCH_CCS_ZIGZAG
    int i1 = (int)floor(ms[n].r1), k1 = (int)floor(ms[n].z1); double rr = floor(ms[n].r0) == i1 ? (ms[n].r0 + ms[n].r1) / 2 : std::max(floor(ms[n].r0), (double)i1), zr = floor(ms[n].z0) == k1 ? (ms[n].z0 + ms[n].z1) / 2 : std::max(floor(ms[n].z0), (double)k1);
    double wr = (ms[n].r1 + rr) / 2 - i1, wz = (ms[n].z1 + zr) / 2 - k1; double f = q[n] * vphi[n] / V; double s[4] = {(1 - wr) * (1 - wz), wr * (1 - wz), (1 - wr) * wz, wr * wz}; int i = i1, k = k1;
#else
    double r = (ms[n].r0 + ms[n].r1) / 2, z = (ms[n].z0 + ms[n].z1) / 2; int i = (int)floor(r), k = (int)floor(z); double fl = ((i + .5) * (i + .5) - (r - .5) * (r - .5)) / (2 * r), wz = z - k;
    double v1 = PI_ * e.dz * e.dr * e.dr * (2 * i + 1), v2 = PI_ * e.dz * e.dr * e.dr * (2 * i + 2); double f = q[n] * vphi[n]; double s[4] = {fl / v1 * (1 - wz), (1 - fl) / v2 * (1 - wz), fl / v1 * wz, (1 - fl) / v2 * wz};
#endif
    for (int c = 0; c < 4; ++c) { int a = i + (c & 1), b = k + (c >> 1); if (a < e.nr && b < e.nz) p[a * e.nz + b] += f * s[c]; ps += fabs(f * s[c]); } }
  for (int i = 0; i < e.nr; ++i) for (int k = 0; k < e.nz; ++k) if (!(fabs(j(1, i, k) - p[i * e.nz + k]) <= 1e-9 * ps))
    R().fail_stop("azimuthal", what + fmt(": node (%d,%d): azimuthal current %.9g, expected %.9g", i, k, j(1, i, k), p[i * e.nz + k]));
}
static void clear(Sim &s) { s.each([](Domain *d, int, int) { for (auto sp : d->species_p) { for (auto p : sp->particles) delete p; sp->particles.clear(); } }); }
static void put(Sim &s, const Env &e, const Move &m, const char *sp, double w, double vphi) {
  double dt = s.t->step; Particle *p = s.put(sp, m.r1 * e.dr, m.z1 * e.dz, (m.r1 - m.r0) * e.dr / dt, vphi, (m.z1 - m.z0) * e.dz / dt, w);
  if (!p) R().fail_stop("harness", "particle is out of the area"); p->pos_old_r = m.r0 * e.dr; p->pos_old_z = m.z0 * e.dz;
}
static string str(const Move &m) { return fmt("(%.6g,%.6g)->(%.6g,%.6g)", m.r0, m.z0, m.r1, m.z1); }
static Spec spec(int d, double cr, double cz) { Spec s; s.nr = s.nz = 8; s.dr = s.dz = d; s.R = 8 * cr; s.Z = 8 * cz; s.step = 0x1p-40; s.species.push_back(Specie{"triple", 3, 5, 1e10, 1}); return s; }

int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    vector<double> F{0, .125, .5, .75, .984375}, D{0, .015625, -.015625, .25, -.25, .5, -.5, .75, -.75, .984375, -.984375}; vector<int> I{0, 1, 3, 6}, K{1, 3, 5};
    if (r.thorough) { F = {0, .0078125, .125, .25, .375, .5, .625, .75, .875, .984375}; D = {0, .0078125, -.0078125, .125, -.125, .25, -.25, .375, -.375, .5, -.5, .625, -.625, .75, -.75, .875, -.875, .984375, -.984375}; I = {0, 1, 2, 3, 4, 6}; K = {0, 1, 3, 4, 6}; }
    D.insert(D.end(), {1e-4, -1e-6, 1e-9, -1e-11, 2e-12, -3e-13}); // nearly straight moves
    for (int d : {1, 2, 4}) for (int i : I) for (double fr : F) for (int geo = 0; geo < 2; ++geo) {
      if (i + fr < .5) continue;
      R().run(fmt("domains=%dx%d r0=%g geometry=%d", d, d, i + fr, geo), [=]() {
        // geometry 0: dyadic cells, exact borders; 1: decimal cells, borders avoided
        double off = geo ? 0.003 : 0; Sim s(spec(d, geo ? 1.1e-3 : 0x1p-10, geo ? 0.7e-3 : 0x1p-9)); Env e{s.g->cell_size[0], s.g->cell_size[1], s.t->step, 8, 8}; long n = 0;
        double ec = s.specie(s.d(0, 0), "electrons")->charge;
        for (double a : D) for (int k : K) for (double fz : F) for (double b : D) {
          Move m{i + fr + off, k + fz + off, i + fr + a + off, k + fz + b + off}; if (m.r1 < .5 || m.r1 >= 7.5 || m.z1 < .5 || m.z1 >= 7.5 || m.z0 < .5) continue;
          double vp = (n % 3 - 1) * 1e7; ++n;
          put(s, e, m, "electrons", 3e5, vp); s.smb->solve_current(); R().count("transitions", 1);
          vector<double> J = global(s, F_J); check(e, J, {m}, {ec * 3e5}, {vp}, str(m));
          if (a != 0 || b != 0) { R().state(Dig()(J).h); }
          clear(s); }
        R().sample(fmt("%ld moves from r=%g cells", n, i + fr));
      }); }
    // species charge, weight, and several particles at once
    vector<Move> ms; for (double a : {0., .5, -.5, .9}) for (double b : {0., .5, -.5, .9}) for (double z : {3.75, 4.}) ms.push_back(Move{3.25, z, 3.25 + a, z + b});
    for (int d : {1, 2, 4}) for (size_t x = 0; x < ms.size(); ++x) R().run(fmt("pairs domains=%dx%d first=%zu", d, d, x), [=]() {
      Sim s(spec(d, 0x1p-10, 0x1p-9)); Env e{s.g->cell_size[0], s.g->cell_size[1], s.t->step, 8, 8};
      auto one = [&](const Move &m, const char *sp, double w, double v) { put(s, e, m, sp, w, v); s.smb->solve_current(); vector<double> J = global(s, F_J); clear(s); R().count("transitions", 1); return J; };
      vector<double> base = one(ms[x], "electrons", 2, 1e6);
      for (int sp = 0; sp < 3; ++sp) for (double w : {1., 8., 1e6}) { const char *nm[3] = {"electrons", "ions", "triple"}; double f[3] = {1, -1, -3}; vector<double> J = one(ms[x], nm[sp], w, 1e6), E(base); for (double &v : E) v *= f[sp] * w / 2; double m = maxabs(E);
        for (size_t n = 0; n < J.size(); ++n) if (!(fabs(J[n] - E[n]) <= 1e-12 * m)) R().fail_stop("proportional", fmt("%s weight %g %s: %g instead of %g", nm[sp], w, str(ms[x]).c_str(), J[n], E[n])); }
      for (size_t y = 0; y < ms.size(); ++y) for (int same = 0; same < 2; ++same) { vector<double> J2 = one(ms[y], same ? "electrons" : "triple", 5, -2e6);
        put(s, e, ms[x], "electrons", 2, 1e6); put(s, e, ms[y], same ? "electrons" : "triple", 5, -2e6); s.smb->solve_current(); R().count("transitions", 1); vector<double> J = global(s, F_J); clear(s); R().state(Dig()(J).h);
        double m = std::max(maxabs(base), maxabs(J2)); for (size_t n = 0; n < J.size(); ++n) if (!(fabs(J[n] - base[n] - J2[n]) <= 1e-12 * m)) R().fail_stop("additive", str(ms[x]) + " and " + str(ms[y]) + fmt(": %g instead of %g + %g", J[n], base[n], J2[n])); }
    });
  });
}
