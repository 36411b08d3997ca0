// C23: external fields act on particles as configured, in any decomposition
#include "hlib.hpp"
using namespace hl;
int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    struct P { const char *n; vector<double> a; };
    vector<P> es{{"none", {10, 20, 30}}, {"none", {}}, {"const_z", {1e5}}, {"const_z", {-3e3, 7}}, {"const_z", {0}}, {"const_z", {4e7}}}, ms{{"none", {1e8}}, {"none", {}}, {"const_z", {1e8}}, {"const_z", {-2e5, 3}}, {"const_z", {0}}};
    struct Gd { int nr, nz; }; vector<Gd> gs{{8, 8}, {8, 12}}; if (r.thorough) { gs.push_back({12, 8}); gs.push_back({16, 16}); }
    for (auto g : gs) for (int dr : {1, 2, 4}) for (int dz : {1, 2, 4}) for (size_t x = 0; x < es.size(); ++x) for (size_t y = 0; y < ms.size(); ++y) for (int self = 0; self < 2; ++self) for (int pml = 0; pml < 2; ++pml) {
      R().run(fmt("grid %dx%d domains %dx%d electric=%zu magnetic=%zu self=%d layers=%d", g.nr, g.nz, dr, dz, x, y, self, pml), [=]() {
        Spec sp; sp.nr = g.nr; sp.nz = g.nz; sp.R = g.nr * 1e-3; sp.Z = g.nz * 2e-3; if (pml) sp.pml_left = sp.pml_right = sp.pml_outer = 0.13; Spec sa = sp; sa.dr = dr; sa.dz = dz; sa.el = es[x].n; sa.elp = es[x].a; sa.magn = ms[y].n; sa.magnp = ms[y].a; Sim a(sa), b(sp); // b has no external fields, but the same field as its own one
        double e0 = sa.el == "none" ? 0 : sa.elp[0], h0 = sa.magn == "none" ? 0 : sa.magnp[0]; vector<std::pair<Particle *, Particle *>> ps; static const double off[] = {0, 0.2, 0.5, 0.75};
        static const double vel[3][3] = {{0, 0, 0}, {1e6, -3e5, 2e6}, {-1e8, 5e7, 1e8}}; int n = 0;
        for (int i = 1; i < g.nr - 1; ++i) for (int k = 1; k < g.nz - 1; ++k) for (double fr : off) for (double fz : off) { double pr = i + fr, pz = k + fz; if (pr < 1.5 || pz < 1.5 || pr > g.nr - 2.5 || pz > g.nz - 2.5) continue; const double *v = vel[n % 3]; string s = n++ / 3 % 2 ? "ions" : "electrons"; pr *= a.g->cell_size[0]; pz *= a.g->cell_size[1]; ps.push_back({a.put(s, pr, pz, v[0], v[1], v[2], 1), b.put(s, pr, pz, v[0], v[1], v[2], 1)}); }
        auto fill = [&](Sim &s, double e, double h) { s.each([&](Domain *d, int, int) { auto &c = d->geometry.cell_dims; for (int i = -2; i < (int)d->geometry.cell_amount[0] + 2; ++i) for (int k = -2; k < (int)d->geometry.cell_amount[1] + 2; ++k) for (int q = 0; q < 3; ++q) { int gi = i + (int)c[0], gk = k + (int)c[1]; double own = self ? 100. * (q + 1) * (gi - 2 * gk) + 17 * (gi * gk % 5) : 0; field(d, F_E)[q].set(i, k, own * 50 + (q == 2 ? e : 0)); field(d, F_H)[q].set(i, k, own + (q == 2 ? h : 0)); } }); };
        for (int step = 0; step < 3; ++step) {
          a.smb->solve_maxvell(); b.smb->solve_maxvell(); fill(a, 0, 0); fill(b, e0, h0); for (Sim *s : {&a, &b}) s->each([](Domain *d, int, int) { d->push_particles(); }); R().count("transitions", 2);
          for (auto &p : ps) { double v[2][3] = {{p.first->vel_r, p.first->vel_phi, p.first->vel_z}, {p.second->vel_r, p.second->vel_phi, p.second->vel_z}}; double sc = fabs(v[1][0]) + fabs(v[1][1]) + fabs(v[1][2]);
            for (int q = 0; q < 3; ++q) if (!(fabs(v[0][q] - v[1][q]) <= 1e-9 * sc + 1e-12)) { R().fail("field", fmt("electric %s(%g) magnetic %s(%g): particle at (%g,%g) cells, step %d: component %d of velocity %.12g, expected %.12g", sa.el.c_str(), e0, sa.magn.c_str(), h0, p.first->pos_r / a.g->cell_size[0], p.first->pos_z / a.g->cell_size[1], step, q, v[0][q], v[1][q])); return; } }
          R().state(Dig()(ps.front().first->vel_z)(ps.back().first->vel_r)((long)step)((long)dr)((long)dz)((long)pml).h); }
        if (!self) for (auto &p : ps) if (p.first == ps[0].first && e0 && p.first->vel_z == 0) R().fail("field", "electric field does nothing");
      }); }
    for (string bad : {"None", "const", "uniform", ""}) for (int f = 0; f < 2; ++f) R().run(fmt("unknown profile '%s' of %s field", bad.c_str(), f ? "magnetic" : "electric"), [=]() { Spec sp; (f ? sp.magn : sp.el) = bad; try { Sim s(sp); } catch (verif::Fatal &) { return; } R().fail("unknown", "unknown profile is accepted"); });
  });
}
