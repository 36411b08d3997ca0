// C03: the same initial state stepped in the undivided area and in every division of it
#include "hlib.hpp"
using namespace hl;
struct P0 { double cr, cz, br, bp, bz; int sp; };
static const double C = 299792458.;

struct Setup { int nr, nz; bool pml; int field; vector<P0> ps; double w; };
static Spec spec(const Setup &u, int dr, int dz) {
  Spec s; s.nr = u.nr; s.nz = u.nz; s.dr = dr; s.dz = dz; s.R = u.nr * 1e-3; s.Z = u.nz * 1.25e-3; s.step = 0.35e-3 / C; s.t_end = 1e-9;
  if (u.pml) { s.pml_left = s.pml_right = s.pml_outer = 0.3; s.s1 = 1e-3; s.s2 = 5; }
  s.species.push_back(Specie{"positrons", 1, 1, 1e15, 1});
  return s;
}
static void init(Sim &s, const Setup &u) {
  int nr = u.nr, nz = u.nz;
  s.each([&](Domain *d, int, int) { auto &cd = d->geometry.cell_dims;
    for (int w : {F_E, F_HET, F_H}) for (int c = 0; c < 3; ++c) for (int i = -2; i < (int)d->geometry.cell_amount[0] + 2; ++i) for (int k = -2; k < (int)d->geometry.cell_amount[1] + 2; ++k) {
      int gi = i + (int)cd[0], gk = k + (int)cd[1]; double v = 0;
      if (gi >= 0 && gk >= 0 && gi < nr && gk < nz) {
        if (u.field == 1) v = sin(0.7 + gi * 1.3 + c) * cos(0.4 + gk * 0.9 + w) * (w == F_E ? 1e5 : 300);
        else if (u.field == 2) v = (gi == nr / 2 && gk == nz / 2 && c == 1) ? (w == F_E ? 1e5 : 300) : 0;
        else if (u.field == 3) v = (gi == nr / 2 - 1 && gk == nz / 2 && c != 1) ? (w == F_E ? 1e5 : 300) : 0;
        if (gi == nr - 1 || gk == nz - 1 || gk == 0) v = 0; // consistent with the walls
      }
      field(d, w)[c].set(i, k, v); } });
  double n = 0;
  for (auto &p : u.ps) { n += 1; s.put(p.sp == 0 ? "electrons" : p.sp == 1 ? "ions" : "positrons", p.cr * s.g->cell_size[0], p.cz * s.g->cell_size[1], p.br * C, p.bp * C, p.bz * C, u.w * (1 + n / 16)); }
}
struct Out { vector<double> f[4]; std::map<double, std::array<double, 7>> ps; long dup = 0; bool misplaced = false; };
static Out observe(Sim &s) {
  Out o; for (int w = 0; w < 4; ++w) o.f[w] = global(s, w);
  s.each([&](Domain *d, int, int) { int n = 0; for (auto sp : d->species_p) { ++n; for (auto p : sp->particles) { auto r = o.ps.insert({p->weight, {(double)n, p->pos_r, p->pos_z, p->vel_r, p->vel_phi, p->vel_z, p->weight}}); if (!r.second) o.dup++;
    if (s.owner((int)floor(p->pos_r / s.g->cell_size[0]), (int)floor(p->pos_z / s.g->cell_size[1])) != d) o.misplaced = true; } } });
  return o;
}
static void compare(const Out &a, const Out &b, int step, const Setup &u, double tol) {
  const char *nm[4] = {"electric field", "magnetic field", "magnetic field at half step", "current"};
  for (int w = 0; w < 4; ++w) { double m = std::max(maxabs(a.f[w]), maxabs(b.f[w])); if (!std::isfinite(m)) R().fail_stop("not-finite", nm[w]);
    for (size_t n = 0; n < a.f[w].size(); ++n) if (std::fabs(a.f[w][n] - b.f[w][n]) > tol * m)
      R().fail_stop("field", fmt("step %d: %s component %d node (%d,%d): %.12g undivided, %.12g divided", step, nm[w], (int)(n / (u.nr * u.nz)), (int)(n / u.nz % u.nr), (int)(n % u.nz), a.f[w][n], b.f[w][n])); }
  if (b.dup || a.ps.size() != b.ps.size()) R().fail_stop("particles", fmt("step %d: %zu particles undivided, %zu divided", step, a.ps.size(), b.ps.size() + b.dup));
  double sc[7] = {1, u.nr * 1e-3, u.nz * 1.25e-3, C, C, C, 1};
  for (auto &p : a.ps) { auto q = b.ps.find(p.first); if (q == b.ps.end()) R().fail_stop("particles", fmt("step %d: particle lost", step));
    for (int k = 0; k < 6; ++k) if (!(std::fabs(p.second[k] - q->second[k]) <= tol * sc[k])) R().fail_stop("particle", fmt("step %d: particle value %d: %.12g undivided, %.12g divided", step, k, p.second[k], q->second[k])); }
  if (b.misplaced) R().fail_stop("misplaced", fmt("step %d: particle is not in its owner domain", step));
}
int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    int steps = r.thorough ? 12 : 6;
    vector<std::pair<string, Setup>> setups;
    // fields only: waves through all of the boundaries
    for (int f = 1; f <= 3; ++f) for (int pml = 0; pml < 2; ++pml) setups.push_back({fmt("field=%d pml=%d", f, pml), Setup{8, 8, (bool)pml, f, {}, 1}});
    for (int f = 1; f <= 2; ++f) for (int pml = 0; pml < 2; ++pml) setups.push_back({fmt("field=%d pml=%d 8x16", f, pml), Setup{8, 16, (bool)pml, f, {}, 1}});
    setups.push_back({"field=1 16x8", Setup{16, 8, true, 1, {}, 1}});
    // one particle near every node of the decomposition lattice, moving in every direction
    vector<double> starts = r.thorough ? vector<double>{0.57, 1.3, 1.9, 2.1, 3.05, 3.45, 3.93, 4.07, 4.6, 5.9, 6.1, 7.2} : vector<double>{0.57, 1.9, 2.1, 3.93, 4.07, 6.1};
    for (double cr : starts) for (double cz : starts) for (int dirr = -1; dirr <= 1; ++dirr) for (int dirz = -1; dirz <= 1; ++dirz) for (int dp = 0; dp <= 1; ++dp) {
      if (!dirr && !dirz && !dp) continue; if (!r.thorough && dp && (dirr || dirz) && (int(cr * 10) + int(cz * 10)) % 2) continue;
      setups.push_back({fmt("particle at %.2f,%.2f dir %d,%d,%d", cr, cz, dirr, dp, dirz), Setup{8, 8, false, (dirr + dirz) & 1 ? 1 : 0, {P0{cr, cz + 0.03, 0.62 * dirr, 0.4 * dp, 0.66 * dirz, 0}}, 2e7}}); }
    // a crowd: several species meeting at the domain corners
    for (int k = 0; k < (r.thorough ? 12 : 4); ++k) { Setup u{8, 8, (bool)(k & 1), 1, {}, 2e7}; for (int n = 0; n < 12; ++n) u.ps.push_back(P0{fmod(0.31 + 2.17 * n + 0.5 * k, 6.8) + 0.56, fmod(0.47 + 1.73 * n + 0.3 * k, 6.8) + 0.56, 0.5 * sin(n + k), 0.4 * cos(2. * n), 0.5 * cos(n * 1.5 + k), n % 3}); setups.push_back({fmt("crowd %d", k), u}); }
    for (auto &su : setups) { Setup u = su.second; string nm = su.first;
      R().run(nm, [=]() {
        Sim ref(spec(u, 1, 1)); init(ref, u); vector<Out> outs; for (int st = 0; st < steps; ++st) { ref.step(); outs.push_back(observe(ref)); }
        if (!u.ps.empty() && maxabs(outs[0].f[F_J]) == 0) R().fail_stop("vacuous", "no current in the undivided area");
        for (int dr : {1, 2, 4}) for (int dz : {1, 2, 4}) { if (dr == 1 && dz == 1) continue;
          Sim s(spec(u, dr, dz)); init(s, u);
          for (int st = 0; st < steps; ++st) { s.step(); R().count("transitions", 1); Out o = observe(s); try { compare(outs[st], o, st, u, 1e-9); } catch (Runner::StopCase &) { R().fail("where", fmt("domains %dx%d", dr, dz)); throw; }
            R().state(Dig()(o.f[F_E])(o.f[F_H])(o.f[F_J])((long)dr)((long)dz).h); } }
        R().sample(fmt("8 divisions, %d steps agree; max E %.3g V/m, %zu particles", steps, maxabs(outs[steps - 1].f[F_E]), outs[steps - 1].ps.size()));
      }); }
  });
}
