// C08: field acting on a particle
#include "hlib.hpp"
using namespace hl;
// weight of a node at (rn, zn) (cells) for a particle at (r, z): overlap of the particle ring with the
// ring of the node over the node volume used by the scheme
static double weight(double r, double z, double rn, double zn) {
  double lo = std::max(r - .5, rn - .5), hi = std::min(r + .5, rn + .5), dz = 1 - fabs(z - zn);
  if (hi <= lo || dz <= 0) return 0; return (hi * hi - lo * lo) * dz / (2 * rn + 1);
}
static const double offr[2][3] = {{.5, 0, 0}, {0, .5, .5}}, offz[2][3] = {{0, 0, .5}, {.5, .5, 0}}; // E: r phi z; H: r phi z
int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    vector<double> F = r.thorough ? vector<double>{0, .03125, .125, .25, .375, .5, .625, .75, .875, .96875} : vector<double>{0, .125, .5, .625, .96875};
    for (int geo = 0; geo < 2; ++geo) for (int d : {1, 2, 4}) for (int ci = 0; ci < 8; ++ci) for (double fr : F) { if (ci + fr < .5 || ci + fr >= 7.5) continue;
      R().run(fmt("geometry=%d domains=%dx%d r=%g", geo, d, d, ci + fr), [=]() {
        Spec sp; sp.nr = sp.nz = 8; sp.dr = sp.dz = d; sp.R = geo ? 8 * 1.1e-3 : 8 * 0x1p-10; sp.Z = geo ? 8 * 0.7e-3 : 8 * 0x1p-9; Sim s(sp); double off = geo ? 0.003 : 0, cr = s.g->cell_size[0], cz = s.g->cell_size[1]; long n = 0;
        auto get = [&](int f, double pr, double pz) { Domain *o = s.owner((int)floor(pr), (int)floor(pz)); R().count("transitions", 1); return f ? o->maxwell_solver->get_field_h(pr * cr, pz * cz) : o->maxwell_solver->get_field_e(pr * cr, pz * cz); };
        auto setn = [&](int f, int c, int gi, int gk, double v) { s.each([&](Domain *dm, int, int) { int i = gi - (int)dm->geometry.cell_dims[0], k = gk - (int)dm->geometry.cell_dims[1]; if (i >= -2 && k >= -2 && i < (int)dm->geometry.cell_amount[0] + 2 && k < (int)dm->geometry.cell_amount[1] + 2) field(dm, f ? F_H : F_E)[c].set(i, k, v); }); };
        for (int ck = 0; ck < 8; ++ck) for (double fz : F) { double pr = ci + fr + off, pz = ck + fz + off; if (pz < .5 || pz >= 7.5) continue;
          for (int f = 0; f < 2; ++f) for (int c = 0; c < 3; ++c) {
            vector3d<double> sum; // superposition of everything
            double want = 0, scale = 0;
            for (int i = ci - 2; i <= ci + 3; ++i) for (int k = ck - 2; k <= ck + 3; ++k) { if (i < 0 || k < 0 || i >= 8 || k >= 8) continue;
              setn(f, c, i, k, 1); auto e = get(0, pr, pz), h = get(1, pr, pz); setn(f, c, i, k, 0); ++n;
              double w = weight(pr, pz, i + offr[f][c], k + offz[f][c]);
              for (int q = 0; q < 3; ++q) { double ee = f == 0 && q == c ? w : 0, hh = f == 1 && q == c ? w : 0;
                if (!(fabs(e[q] - ee) <= 1e-10) || !(fabs(h[q] - hh) <= 1e-10)) R().fail_stop("weight", fmt("particle at (%g,%g): %s_%d at node (%d,%d) contributes %.9g to E_%d and %.9g to H_%d, expected %.9g, %.9g", pr, pz, f ? "H" : "E", c, i, k, e[q], q, h[q], q, ee, hh)); }
              double v = 3 + i - 2. * k; want += v * w; scale += fabs(v); }
            for (int i = 0; i < 8; ++i) for (int k = 0; k < 8; ++k) setn(f, c, i, k, 3 + i - 2. * k);
            double got = get(f, pr, pz)[c]; for (int i = 0; i < 8; ++i) for (int k = 0; k < 8; ++k) setn(f, c, i, k, 0);
            if (!(fabs(got - want) <= 1e-10 * scale)) R().fail_stop("linear", fmt("particle at (%g,%g): %s_%d is %.9g, expected %.9g", pr, pz, f ? "H" : "E", c, got, want)); R().state(Dig()(got)(pr)(pz)((long)c)((long)f).h); } }
        R().sample(fmt("%ld impulses", n));
      }); }
  });
}
