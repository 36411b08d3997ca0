// C04: halo exchange. Linear operators are decided by all unit impulses, plus full distinct fillings,
// for all decompositions in the bound.
#include "hlib.hpp"
using namespace hl;

static const int OS = 2;
static double val(int which, int c, int i, int k) { return 1 + ((which * 7 + c) * 131 + i) * 137 + k; }

// is the local position a node of the simulation area?
static bool inside(Sim &s, Domain *d, int i, int k) {
  int gi = (int)d->geometry.cell_dims[0] + i, gk = (int)d->geometry.cell_dims[1] + k;
  return gi >= 0 && gk >= 0 && gi < (int)s.g->cell_amount[0] && gk < (int)s.g->cell_amount[1];
}
static void zero(Sim &s, int w) { s.each([&](Domain *d, int, int) { auto &f = field(d, w); for (int c = 0; c < 3; ++c) for (int i = -OS; i < (int)d->geometry.cell_amount[0] + OS; ++i) for (int k = -OS; k < (int)d->geometry.cell_amount[1] + OS; ++k) f[c].set(i, k, 0.); }); }
static void exchange(Sim &s, int w) { if (w == F_J) s.smb->current_overlay(); else if (w == F_E) s.smb->field_e_overlay(); else s.smb->field_h_overlay(); R().count("transitions", 1); }

// one exchange of currents: expect[owner nodes]
static void check_sum(Sim &s, const vector<double> &expect, const string &what) {
  vector<double> got = global(s, F_J); int nr = s.g->cell_amount[0], nz = s.g->cell_amount[1];
  for (size_t n = 0; n < got.size(); ++n) if (got[n] != expect[n])
    R().fail_stop("current-sum", what + fmt(": component %d node (%d,%d) holds %g, deposited %g", (int)(n / (nr * nz)), (int)(n / nz % nr), (int)(n % nz), got[n], expect[n]));
}
static void check_halo(Sim &s, int w, const vector<double> &owned, const string &what) {
  int nr = s.g->cell_amount[0], nz = s.g->cell_amount[1];
  s.each([&](Domain *d, int di, int dj) { auto &f = field(d, w); for (int c = 0; c < 3; ++c) for (int i = -OS; i < (int)d->geometry.cell_amount[0] + OS; ++i) for (int k = -OS; k < (int)d->geometry.cell_amount[1] + OS; ++k) {
    if (!inside(s, d, i, k)) continue;
    int gi = d->geometry.cell_dims[0] + i, gk = d->geometry.cell_dims[1] + k; double e = owned[(c * nr + gi) * nz + gk];
    bool own = i >= 0 && k >= 0 && i < (int)d->geometry.cell_amount[0] && k < (int)d->geometry.cell_amount[1];
    if (f[c](i, k) != e) R().fail_stop(own ? "owned-changed" : "halo", what + fmt(": field %d component %d domain (%d,%d) local (%d,%d) holds %g, owner has %g", w, c, di, dj, i, k, f[c](i, k), e)); } });
}

int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    vector<int> doms = r.thorough ? vector<int>{1, 2, 4, 6} : vector<int>{1, 2, 4};
    vector<int> locs = r.thorough ? vector<int>{2, 3, 4, 5, 7} : vector<int>{2, 3, 5};
    for (int dr : doms) for (int dz : doms) for (int lr : locs) for (int lz : locs) {
      if (dr == 1 && dz == 1) continue;
      auto mk = [=]() { Spec sp; sp.dr = dr; sp.dz = dz; sp.nr = dr * lr; sp.nz = dz * lz; sp.R = sp.nr; sp.Z = sp.nz; return Sim(sp); };
      string base = fmt("domains=%dx%d cells=%dx%d", dr, dz, lr, lz);
      R().run(base + " currents", [=]() {
        Sim s = mk(); int nr = s.g->cell_amount[0], nz = s.g->cell_amount[1];
        // everything at once, distinct values
        vector<double> e(3 * nr * nz, 0.);
        zero(s, F_J);
        s.each([&](Domain *d, int di, int dj) { for (int c = 0; c < 3; ++c) for (int i = -OS; i < lr + OS; ++i) for (int k = -OS; k < lz + OS; ++k) {
          double v = val(di * 5 + dj, c, i + OS, k + OS); field(d, F_J)[c].set(i, k, v);
          if (inside(s, d, i, k)) e[(c * nr + d->geometry.cell_dims[0] + i) * nz + d->geometry.cell_dims[1] + k] += v; } });
        exchange(s, F_J); check_sum(s, e, "all deposits at once"); R().state(Dig()(e).h);
        // a second step must start from clean currents
        s.smb->solve_current(); R().count("transitions", 1); std::fill(e.begin(), e.end(), 0.); check_sum(s, e, "next step without particles");
        // impulses: components are symmetric in turn
        int n = 0;
        s.each([&](Domain *d, int di, int dj) { for (int i = -OS; i < lr + OS; ++i) for (int k = -OS; k < lz + OS; ++k) {
          if (i >= OS && i < lr - OS && k >= OS && k < lz - OS && (i + k) % 3) continue;
          int c = (n++) % 3; zero(s, F_J); field(d, F_J)[c].set(i, k, 1.); std::fill(e.begin(), e.end(), 0.);
          if (inside(s, d, i, k)) e[(c * nr + d->geometry.cell_dims[0] + i) * nz + d->geometry.cell_dims[1] + k] = 1;
          exchange(s, F_J); check_sum(s, e, fmt("impulse in domain (%d,%d) local (%d,%d) component %d", di, dj, i, k, c)); R().state(Dig()((long)di)((long)dj)((long)i)((long)k)(base).h); } });
        R().sample(fmt("%d current impulses exchanged one by one", n));
      });
      R().run(base + " fields", [=]() {
        Sim s = mk(); int nr = s.g->cell_amount[0], nz = s.g->cell_amount[1];
        for (int w : {F_E, F_H, F_HET}) {
          for (int x : {F_E, F_H, F_HET}) zero(s, x);
          vector<double> e(3 * nr * nz);
          for (int c = 0; c < 3; ++c) for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k) e[(c * nr + i) * nz + k] = val(w, c, i, k);
          s.each([&](Domain *d, int, int) { for (int c = 0; c < 3; ++c) for (int i = 0; i < lr; ++i) for (int k = 0; k < lz; ++k) field(d, w)[c].set(i, k, e[(c * nr + d->geometry.cell_dims[0] + i) * nz + d->geometry.cell_dims[1] + k]); });
          exchange(s, w); check_halo(s, w, e, "exchange"); R().state(Dig()(e)(base).h);
          for (int x : {F_E, F_H, F_HET}) if (x != w) check_halo(s, x, vector<double>(3 * nr * nz, 0.), "other field");
        }
      });
      // halos stay equal to their owners through real field steps, whatever the halos held before
      R().run(base + " steps", [=]() {
        Sim s = mk(); s.each([&](Domain *d, int di, int dj) { for (int w : {F_E, F_H, F_HET}) for (int c = 0; c < 3; ++c) for (int i = 0; i < lr; ++i) for (int k = 0; k < lz; ++k) field(d, w)[c].set(i, k, 1e-3 * sin(1. + val(w, c, i + di * lr, k + dj * lz))); });
        for (int w : {F_E, F_HET, F_H}) if (w != F_H) exchange(s, w);
        for (int st = 0; st < 3; ++st) { s.smb->solve_maxvell(); R().count("transitions", 1);
          for (int w : {F_E, F_H, F_HET}) { vector<double> g = global(s, w); R().state(Dig()(g).h); if (!std::isfinite(maxabs(g))) R().fail_stop("not-finite", "field"); check_halo(s, w, g, fmt("step %d", st)); } }
      });
    }
  });
}
