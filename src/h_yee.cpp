// C06: discrete Maxwell equations; C07 (--pml): absorbing layers
#include "hlib.hpp"
using namespace hl;
static const double MU = constant::MAGN_CONST, EPS = constant::EPSILON0;
struct Ref { // independent update of the global staggered grid
  int nr, nz; double dr, dz, dt; vector<double> E[3], H[3], Hm[3], J[3], sg;
  Ref(int a, int b, double c, double d, double t) : nr(a), nz(b), dr(c), dz(d), dt(t), sg(a * b, 0.) { for (int q = 0; q < 3; ++q) { E[q].assign(a * b, 0.); H[q] = Hm[q] = J[q] = E[q]; } }
  double at(const vector<double> &v, int i, int k) const { return i < 0 || k < 0 || i >= nr || k >= nz ? 0. : v[i * nz + k]; }
  void step() {
    vector<double> N[3] = {E[0], E[1], E[2]};
    for (int i = 0; i < nr - 1; ++i) for (int k = 0; k < nz - 1; ++k) { // conducting outer and right walls: never updated there
      double s = sg[i * nz + k], a = (2 * EPS - s * dt) / (2 * EPS + s * dt), b = 2 * dt / (2 * EPS + s * dt); int n = i * nz + k;
      double curl_r = -(at(H[1], i, k) - at(H[1], i, k - 1)) / dz;
      double curl_p = (at(H[0], i, k) - at(H[0], i, k - 1)) / dz - (at(H[2], i, k) - at(H[2], i - 1, k)) / dr;
      double curl_z = i == 0 ? 4 / dr * at(H[1], 0, k) : ((i + .5) * at(H[1], i, k) - (i - .5) * at(H[1], i - 1, k)) / (i * dr);
      if (k > 0) N[0][n] = a * E[0][n] + b * (curl_r - J[0][n]);
      if (k > 0 && i > 0) N[1][n] = a * E[1][n] + b * (curl_p - J[1][n]);
      if (k > 0 || i > 0) N[2][n] = a * E[2][n] + b * (curl_z - J[2][n]);
    }
    for (int q = 0; q < 3; ++q) E[q] = N[q];
    for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k) { int n = i * nz + k;
      double d[3] = {(at(E[1], i, k + 1) - at(E[1], i, k)) / dz, (at(E[2], i + 1, k) - at(E[2], i, k)) / dr - (at(E[0], i, k + 1) - at(E[0], i, k)) / dz, -((i + 1) * at(E[1], i + 1, k) - i * at(E[1], i, k)) / ((i + .5) * dr)};
      for (int q = 0; q < 3; ++q) { double h = d[q] * dt / MU; Hm[q][n] = H[q][n] + h / 2; H[q][n] += h; } }
  }
};
static void setg(Sim &s, int w, int c, int gi, int gk, double v) { s.each([&](Domain *d, int, int) { int i = gi - (int)d->geometry.cell_dims[0], k = gk - (int)d->geometry.cell_dims[1]; if (i >= -2 && k >= -2 && i < (int)d->geometry.cell_amount[0] + 2 && k < (int)d->geometry.cell_amount[1] + 2) field(d, w)[c].set(i, k, v); }); }
static void zero(Sim &s) { s.each([&](Domain *d, int, int) { for (int w = 0; w < 4; ++w) for (int c = 0; c < 3; ++c) for (int i = -2; i < (int)d->geometry.cell_amount[0] + 2; ++i) for (int k = -2; k < (int)d->geometry.cell_amount[1] + 2; ++k) field(d, w)[c].set(i, k, 0.); }); }
static void compare(Sim &s, Ref &r, const string &what, double tol, bool corner) {
  const char *nm[3] = {"E", "H (full step)", "H (half step)"}; int ws[3] = {F_E, F_H, F_HET};
  for (int x = 0; x < 3; ++x) { vector<double> g = global(s, ws[x]); auto &ref = x == 0 ? r.E : x == 1 ? r.Hm : r.H; double m = 0; for (int c = 0; c < 3; ++c) m = std::max(m, maxabs(ref[c]));
    if (m == 0) m = maxabs(g) * 1e-3;
    for (int c = 0; c < 3; ++c) for (int i = 0; i < r.nr; ++i) for (int k = 0; k < r.nz; ++k) { double a = g[(c * r.nr + i) * r.nz + k], b = ref[c][i * r.nz + k];
      if (!(fabs(a - b) <= tol * m)) R().fail_stop("maxwell", what + fmt(": %s component %d node (%d,%d) is %.12g, expected %.12g", nm[x], c, i, k, a, b)); } }
}
static double divh(const Ref &r, const vector<double> &g, int i, int k) { auto at = [&](int c, int a, int b) { return g[(c * r.nr + a) * r.nz + b]; };
  return ((i + 1) * at(0, i + 1, k) - i * at(0, i, k)) / ((i + .5) * r.dr) + (at(2, i, k + 1) - at(2, i, k)) / r.dz; }

static void maxwell(Runner &r) {
  struct G { int nr, nz, dr, dz; double cr, cz; };
  vector<G> gs; for (int a : {1, 2, 4}) for (int b : {1, 2, 4}) { gs.push_back({8, 8, a, b, 1e-3, 1.3e-3}); if (r.thorough) gs.push_back({12, 16, a, b, 2e-3, 1e-3}); }
  gs.push_back({5, 7, 1, 1, 1e-3, 1e-3}); gs.push_back({6, 10, 2, 2, 1e-3, 0.5e-3}); gs.push_back({6, 10, 1, 2, 1e-3, 0.5e-3});
  for (auto &g : gs) { string nm = fmt("grid=%dx%d domains=%dx%d", g.nr, g.nz, g.dr, g.dz);
    auto mk = [g]() { Spec sp; sp.nr = g.nr; sp.nz = g.nz; sp.dr = g.dr; sp.dz = g.dz; sp.R = g.nr * g.cr; sp.Z = g.nz * g.cz; sp.step = 1e-12; return sp; };
    for (int w : {F_E, F_HET, F_J}) for (int c = 0; c < 3; ++c) R().run(nm + fmt(" impulses of field %d component %d", w, c), [=]() {
      Sim s(mk()); int n = 0;
      for (int i = 0; i < g.nr; ++i) for (int k = 0; k < g.nz; ++k) {
        if (w == F_E && (i == g.nr - 1 || k == g.nz - 1 || (k == 0 && c != 2) || (i == 0 && c == 1))) continue; // conducting walls hold no tangential field
        if (i == 0 && k == 0) continue;
        zero(s); Ref ref(g.nr, g.nz, s.g->cell_size[0], s.g->cell_size[1], s.t->step); double v = w == F_E ? 1e3 : w == F_J ? 10 : 1; setg(s, w, c, i, k, v); (w == F_E ? ref.E : w == F_J ? ref.J : ref.H)[c][i * g.nz + k] = v;
        for (int st = 0; st < 2; ++st) { s.smb->solve_maxvell(); ref.step(); R().count("transitions", 1); compare(s, ref, fmt("impulse at (%d,%d), step %d", i, k, st), 1e-10, false); }
        R().state(Dig()(global(s, F_E))(global(s, F_H)).h); ++n; }
      R().sample(fmt("%d impulses", n)); });
    // superposition: a full filling, several steps, conservation of div H
    R().run(nm + " filled", [=]() {
      Sim s(mk()); zero(s); Ref ref(g.nr, g.nz, s.g->cell_size[0], s.g->cell_size[1], s.t->step);
      for (int w : {F_E, F_HET, F_J}) for (int c = 0; c < 3; ++c) for (int i = 0; i < g.nr; ++i) for (int k = 0; k < g.nz; ++k) { if (w == F_E && (i == g.nr - 1 || k == g.nz - 1 || (k == 0 && c != 2) || (i == 0 && c == 1))) continue; if (i == 0 && k == 0) continue;
        double v = sin(1 + i * 1.7 + k * 2.9 + c + w) * (w == F_E ? 1e3 : w == F_J ? 10 : 1); setg(s, w, c, i, k, v); (w == F_E ? ref.E : w == F_J ? ref.J : ref.H)[c][i * g.nz + k] = v; }
      vector<double> h0 = global(s, F_HET);
      for (int st = 0; st < 8; ++st) { s.smb->solve_maxvell(); ref.step(); R().count("transitions", 1); compare(s, ref, fmt("filled, step %d", st), 1e-10, true); R().state(Dig()(global(s, F_E)).h);
        vector<double> h = global(s, F_HET); double m = maxabs(h) / std::min(ref.dr, ref.dz); for (int i = 0; i < g.nr - 1; ++i) for (int k = 0; k < g.nz - 1; ++k) if (!(fabs(divh(ref, h, i, k) - divh(ref, h0, i, k)) <= 1e-9 * m)) R().fail_stop("divergence", fmt("step %d: divergence of H changed at (%d,%d): %g -> %g", st, i, k, divh(ref, h0, i, k), divh(ref, h, i, k))); }
    }); }
}

static void pml(Runner &r) {
  struct G { int nr, nz; double R, Z; }; vector<G> gs{{8, 8, 8e-3, 8e-3}, {16, 32, 0.2, 1.6}, {20, 40, 0.07, 0.3}, {8, 64, 0.07, 0.3}}; if (r.thorough) { gs.push_back({24, 48, 0.1, 0.7}); gs.push_back({64, 128, 0.25, 2.}); }
  vector<double> fr{0, .125, .3, .5}; 
  for (auto &g : gs) for (double l : fr) for (double rt : fr) for (double o : fr) for (int dom = 0; dom < 4; ++dom) { static const int dd[4][2] = {{1, 1}, {2, 4}, {4, 2}, {4, 4}};
    R().run(fmt("grid=%dx%d layers left=%g right=%g outer=%g domains=%dx%d", g.nr, g.nz, l, rt, o, dd[dom][0], dd[dom][1]), [=]() {
      Spec sp; sp.nr = g.nr; sp.nz = g.nz; sp.R = g.R; sp.Z = g.Z; sp.dr = dd[dom][0]; sp.dz = dd[dom][1]; sp.pml_left = l; sp.pml_right = rt; sp.pml_outer = o; sp.s1 = 2e-4; sp.s2 = 3e-2; sp.step = 1e-11;
      Sim s(sp); double dt = s.t->step; int nl = (int)floor(l * g.nz + 1e-9), nrr = (int)floor(rt * g.nz + 1e-9), no = (int)floor(o * g.nr + 1e-9);
      zero(s); for (int c = 0; c < 3; ++c) for (int i = 0; i < g.nr; ++i) for (int k = 0; k < g.nz; ++k) setg(s, F_E, c, i, k, 1.);
      s.each([](Domain *d, int, int) { d->weight_field_e(); }); R().count("transitions", 1);
      vector<double> e = global(s, F_E); R().state(Dig()(e).h); long inside = 0;
      for (int c = 0; c < 3; ++c) for (int i = 0; i < g.nr - 1; ++i) for (int k = 0; k < g.nz - 1; ++k) { // interior nodes: ratio is the decay of the node
        if ((c != 2 && k == 0) || (c == 1 && i == 0) || (k == 0 && i == 0)) continue;
        double q = e[(c * g.nr + i) * g.nz + k], sg = 0;
        auto layer = [&](double depth, int n) { sg += sp.s1 + (sp.s2 - sp.s1) * (depth / n) * (depth / n); }; // depth in cells, from the inner edge
        if (k < nl) layer(nl - k, nl); if (g.nz - k < nrr) layer(k + 1 - g.nz + nrr, nrr); if (g.nr - i < no) layer(i + 1 - g.nr + no, no);
        double x = sg * dt / (2 * EPS), want = (1 - x) / (1 + x); if (sg > 0) ++inside;
        if (!(fabs(q - want) <= 1e-9)) R().fail_stop(sg == 0 ? "outside-layer" : "layer", fmt("component %d node (%d,%d): decay factor %.12g, expected %.12g", c, i, k, q, want));
        if (fabs(q) > 1) R().fail_stop("amplified", fmt("node (%d,%d) factor %g", i, k, q)); }
      R().count("absorbing_nodes", inside);
      R().sample(fmt("%ld absorbing node components", inside));
    }); }
  // energy never grows through a layer: a pulse is only damped, compared with the reference
  for (int dom = 0; dom < 4; ++dom) for (double f : {.25, .5}) R().run(fmt("pulse layers=%g domains=%d", f, dom), [=]() { static const int dd[4][2] = {{1, 1}, {2, 4}, {4, 2}, {4, 4}};
    Spec sp; sp.nr = 16; sp.nz = 16; sp.R = 16e-3; sp.Z = 16e-3; sp.dr = dd[dom][0]; sp.dz = dd[dom][1]; sp.pml_left = sp.pml_right = sp.pml_outer = f; sp.s1 = 1e-2; sp.s2 = 2; sp.step = 1e-12; Sim s(sp); zero(s); Ref ref(16, 16, s.g->cell_size[0], s.g->cell_size[1], s.t->step); int n = (int)(f * 16);
    for (int i = 0; i < 16; ++i) for (int k = 0; k < 16; ++k) { double sg = 0; auto layer = [&](double d) { sg += sp.s1 + (sp.s2 - sp.s1) * d * d / n / n; }; if (k < n) layer(n - k); if (16 - k < n) layer(k + 1 - 16 + n); if (16 - i < n) layer(i + 1 - 16 + n); ref.sg[i * 16 + k] = sg; }
    for (int c = 0; c < 3; ++c) { setg(s, F_E, c, 7, 7, 1e3); ref.E[c][7 * 16 + 7] = 1e3; }
    for (int st = 0; st < 20; ++st) { s.smb->solve_maxvell(); ref.step(); R().count("transitions", 1); compare(s, ref, fmt("pulse step %d", st), 1e-9, true); R().state(Dig()(global(s, F_E)).h); } });
}
int main(int argc, char **argv) {
  verif::logs().quiet = true; bool p = false; for (int i = 1; i < argc; ++i) if (string(argv[i]) == "--pml") p = true;
  return R().main(argc, argv, [p](Runner &r) { if (p) pml(r); else maxwell(r); });
}
