// C12: initial plasma
#define HL_RANDOM
#include "hlib.hpp"
using namespace hl;
static const double C = constant::LIGHT_VEL, PI_ = 3.14159265358979323846;
using constant::EL_MASS; using constant::EL_CHARGE;

struct Loaded : Sim { explicit Loaded(const Spec &s, double slope) { cfg = new Cfg(write_cfg(s.json())); for (auto &p : cfg->particle_species) p.right_density = p.left_density * slope; g = cfg->geometry; t = cfg->time; smb = new SMB(cfg, g, t, 0, 1); } };

static void check_domain(Loaded &s, Domain *d, SpecieP *sp, const Cfg *, unsigned macro_cfg, double left, double slope, double temp_j, double mass, bool stat) {
  auto &cd = d->geometry.cell_dims; auto &wl = d->geometry.walls; double dr = s.g->cell_size[0], dz = s.g->cell_size[1]; string w = fmt("domain at (%zu,%zu) %s", cd[0], cd[1], sp->name.c_str());
  long n = sp->particles.size(); unsigned ndom = s.smb->r_domains * s.smb->z_domains; long want = macro_cfg / s.smb->r_domains / s.smb->z_domains; (void)ndom;
  double rc = cd[2] - cd[0], zc = cd[3] - cd[1], re = rc - wl[2], ze = zc - wl[3];
#if defined(SWITCH_PLASMA_SPATIAL_CENTERED)
  long corr = (long)(ceil(want / (rc * zc)) * rc * zc + .5), pc = (long)floor(corr / (re * ze)); want = (long)(pc * re * ze + .5);
  std::map<std::pair<long, long>, long> per; for (auto p : sp->particles) per[{(long)floor(p->pos_r / dr), (long)floor(p->pos_z / dz)}]++;
  if (pc > 0 && (long)per.size() != (long)(re * ze + .5)) R().fail_stop("cells", w + fmt(": %zu cells are filled of %g", per.size(), re * ze));
  for (auto &c : per) if (c.second != pc) R().fail_stop("cells", w + fmt(": cell has %ld of %ld particles", c.second, pc));
  for (auto p : sp->particles) if (!(fabs(p->pos_r / dr - floor(p->pos_r / dr) - .5) <= 1e-6) || !(fabs(p->pos_z / dz - floor(p->pos_z / dz) - .5) <= 1e-6)) R().fail_stop("centre", w + fmt(": particle at (%.9g,%.9g) cells", p->pos_r / dr, p->pos_z / dz));
  if (n != want) R().fail_stop("amount", w + fmt(": %ld macroparticles, expected %ld", n, want));
#elif defined(SWITCH_PLASMA_SPATIAL_REGULAR)
  double corr = ceil(want / (rc * zc) - 1e-9) * rc * zc, rm = sqrt(corr * rc * dr / (zc * dz)), zm = sqrt(corr * zc * dz / (rc * dr)); // lattice of rm x zm over the domain
  double r_in = rm * re / rc, z_in = zm * ze / zc; long lo = (long)(std::max(0., floor(r_in) - 1) * std::max(0., floor(z_in) - 1)), hi = (long)(ceil(r_in) * ceil(z_in));
  if (n < lo || n > hi) R().fail_stop("amount", w + fmt(": %ld macroparticles, expected %ld..%ld", n, lo, hi));
  std::set<long> rs, zs; for (auto p : sp->particles) { rs.insert(lround(p->pos_r / dr * 1e6)); zs.insert(lround(p->pos_z / dz * 1e6)); } if ((long)(rs.size() * zs.size()) != n) R().fail_stop("lattice", w + fmt(": %ld particles are not a lattice %zux%zu", n, rs.size(), zs.size()));
  for (auto *q : {&rs, &zs}) { double st = q == &rs ? rc / rm : zc / zm; long prev = -1; for (long x : *q) { if (prev >= 0 && fabs((x - prev) * 1e-6 - st) > 3e-6 * (1 + st)) R().fail_stop("lattice", w + fmt(": interval %g cells, expected %g", (x - prev) * 1e-6, st)); prev = x; } }
#else
  if (n != want) R().fail_stop("amount", w + fmt(": %ld macroparticles, expected %ld", n, want));
#endif
  double sum = 0, ratio = -1; long q[4][4] = {{0}}; double v2 = 0, cm[3] = {0}, c2[3] = {0}, rbar = 0;
  for (auto p : sp->particles) { R().count("transitions", 1);
    double r = p->pos_r / dr, z = p->pos_z / dz; if (!(r >= cd[0] + .5 - 1e-9 && r <= cd[0] + .5 + re + 1e-9 && z >= cd[1] + .5 - 1e-9 && z <= cd[1] + .5 + ze + 1e-9)) R().fail_stop("place", w + fmt(": particle at (%.9g,%.9g) cells", r, z));
    if (!(r <= s.g->cell_amount[0] - .5 + 1e-9) || !(z <= s.g->cell_amount[1] - .5 + 1e-9)) R().fail_stop("wall", w + fmt(": particle at (%.9g,%.9g) cells", r, z));
    if ((long)p->cell_r != (long)floor(p->pos_r / dr) || (long)p->cell_z != (long)floor(p->pos_z / dz)) R().fail_stop("cell-number", w + fmt(": particle at (%.9g,%.9g) is in the cell (%ld,%ld)", r, z, (long)p->cell_r, (long)p->cell_z));
    if (p->pos_phi != 0) R().fail_stop("plane", w); if (p->specie_id != sp->id) R().fail_stop("identity", w);
    if (!(p->weight > 0) || !std::isfinite(p->weight)) R().fail_stop("weight", w + fmt(": weight %g", p->weight)); double k = p->weight / p->pos_r; if (ratio < 0) ratio = k; if (!hl::close(k, ratio, 1e-6)) R().fail_stop("weight-profile", w + fmt(": weight is not proportional to the radius: %g and %g", k, ratio));
    sum += p->weight; int a = std::min(3, (int)((r - cd[0] - .5) / re * 4)), b = std::min(3, (int)((z - cd[1] - .5) / ze * 4)); q[std::max(0, a)][std::max(0, b)]++; rbar += r;
    double v[3] = {p->vel_r, p->vel_phi, p->vel_z}, vv = 0; for (int m = 0; m < 3; ++m) { vv += v[m] * v[m]; cm[m] += v[m]; c2[m] += v[m] * v[m]; } v2 += vv; if (!(vv < C * C)) { R().fail("superluminal", w + fmt(": speed is %g of c", sqrt(vv) / C)); return; } }
  // local densities at the ends of the domain
  double nz = s.g->cell_amount[1], n0 = left * (1 + (slope - 1) * cd[1] / nz), n1 = left * (1 + (slope - 1) * cd[3] / nz); double top = cd[2] - (wl[2] ? 1. : 0), vol = PI_ * dr * dr * (top * top - (double)cd[0] * cd[0]) * ze * dz, N = (n0 + n1) / 2 * vol;
  if (n > 0 && !hl::close(sum, N, 1e-6)) R().fail_stop("density", w + fmt(": stands for %.9g particles, density times volume is %.9g", sum, N));
#if defined(SWITCH_PLASMA_SPATIAL_FLAT) || defined(SWITCH_PLASMA_SPATIAL_RANDOM)
  if (stat && n >= 200) { for (int a = 0; a < 4; ++a) { long x = 0, y = 0; for (int b = 0; b < 4; ++b) { x += q[a][b]; y += q[b][a]; } double f0 = a / 4., f1 = (a + 1) / 4., fz = ((f1 - f0) * n0 + (f1 * f1 - f0 * f0) / 2 * (n1 - n0)) / ((n0 + n1) / 2), tol = 5 * sqrt(n * .25) + 3;
      if (fabs(x - n / 4.) > tol) R().fail_stop("uniform-r", w + fmt(": quarter %d of the radius has %ld of %ld", a, x, n)); if (fabs(y - n * fz) > tol) R().fail_stop("uniform-z", w + fmt(": quarter %d of the longitude has %ld of %ld, expected %g", a, y, n, n * fz)); }
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { long x = q[2 * a][2 * b] + q[2 * a][2 * b + 1] + q[2 * a + 1][2 * b] + q[2 * a + 1][2 * b + 1]; double fz = (.5 * n0 + (b ? .375 : .125) * (n1 - n0)) / ((n0 + n1) / 2) * .5; if (fabs(x - n * fz) > 6 * sqrt(n * .25) + 3) R().fail_stop("uniform-rz", w + fmt(": quarter (%d,%d) of the domain has %ld of %ld", a, b, x, n)); } }
#endif
  if (n > 0 && temp_j > 0) { double K = v2 / n * mass / temp_j;
    if (getenv("SHOW")) fprintf(stderr, "K %g n %ld T %g aniso %g %g %g\n", K, n, temp_j / EL_CHARGE, c2[0] / v2, c2[1] / v2, c2[2] / v2);
    if (stat && n >= 200 && temp_j < 1e3 * EL_CHARGE) {
#if defined(SWITCH_PLASMA_VELOCITY_RECTANGULAR)
      double want_K = 2, tol = .2; bool iso = true;
#elif defined(SWITCH_PLASMA_VELOCITY_EIGEN)
      double want_K = 6, tol = 1e-5; bool iso = false;
#else
      double want_K = 3, tol = .2; bool iso = true;
#endif
      if (!(fabs(K / want_K - 1) <= tol)) R().fail_stop("temperature", w + fmt(": mean square velocity is %g of T/m, expected %g", K, want_K));
      for (int m = 0; m < 3; ++m) if (iso) { if (!(fabs(c2[m] / v2 - 1 / 3.) <= .12)) R().fail_stop("isotropy", w + fmt(": component %d has %g of the energy", m, c2[m] / v2)); if (!(fabs(cm[m]) <= 6 * sqrt(c2[m]))) R().fail_stop("drift", w + fmt(": mean velocity of component %d is not zero", m)); } else if (!hl::close(c2[m] / v2, 1 / 3., 1e-9)) R().fail_stop("isotropy", w); } }
  R().state(Dig()(sum)((long)n)(rbar)(v2).h);
}

static void load(const Spec &sp, double slope, bool stat, bool single) {
  Loaded s(sp, slope); s.smb->distribute();
  auto one = [&](Loaded &x, Domain *d) { for (size_t k = 0; k < x.cfg->particle_species.size(); ++k) { auto &c = x.cfg->particle_species[k]; check_domain(x, d, x.specie(d, c.name), x.cfg, c.macro_amount, c.left_density, slope, c.temperature * EL_CHARGE, c.mass * EL_MASS, stat); } for (auto p : d->species_p) if (p->name.find("beam_") == 0 && !p->particles.empty()) R().fail_stop("beam", "beam has particles before injection"); };
  s.each([&](Domain *d, int, int) { one(s, d); });
  if (single) { Loaded u(sp, slope); for (unsigned i = 0; i < u.smb->r_domains; ++i) for (unsigned j = 0; j < u.smb->z_domains; ++j) { // loads one by one: nothing else may change
      std::map<SpecieP *, size_t> before; u.each([&](Domain *d, int, int) { for (auto p : d->species_p) before[p] = p->particles.size(); }); u.d(i, j)->distribute();
      u.each([&](Domain *d, int a, int b) { for (auto p : d->species_p) if ((a != (int)i || b != (int)j) && before[p] != p->particles.size()) R().fail_stop("isolation", fmt("loading of the domain (%u,%u) changed (%d,%d)", i, j, a, b)); }); one(u, u.d(i, j)); } }
  R().sample(fmt("%zu species, %u domains", s.cfg->particle_species.size(), s.smb->r_domains * s.smb->z_domains));
}

int main(int argc, char **argv) {
  verif::logs().quiet = true; R().per_child = 1; R().case_timeout = 60;
  return R().main(argc, argv, [](Runner &r) {
    struct G { int nr, nz; double cr, cz; }; vector<G> gs{{8, 8, 0x1p-10, 0x1p-10}, {8, 16, 1e-3, 3e-4}, {12, 8, 7e-4, 1e-3}, {12, 10, 7e-4, 7e-4}}; if (r.thorough) gs.insert(gs.end(), {{20, 12, 1.1e-3, .9e-3}, {24, 8, .3e-3, .3e-3}, {12, 36, .1e-3, .7e-3}, {36, 12, .7e-3, .1e-3}});
    vector<int> dms{1, 2, 4}; vector<double> macros{100, 1000, 5000}; if (r.thorough) macros = {100, 137, 1000, 3333, 5000, 20000};
    vector<unsigned> seeds{1, 2}; if (r.thorough) seeds = {1, 2, 3, 4, 5, 6};
    for (auto &g : gs) for (int a : dms) for (int b : dms) { if (g.nr % a || g.nz % b) continue; for (double m : macros) for (double slope : {1., 3., .25}) for (unsigned sd : seeds) {
      if (sd > 1 && slope != 1) continue;
      R().run(fmt("load grid=%dx%d cell=%gx%g domains=%dx%d macro=%g slope=%g seed=%u", g.nr, g.nz, g.cr, g.cz, a, b, m, slope, sd), [=]() { hl::seed() = sd * 7919; Spec sp; sp.nr = g.nr; sp.nz = g.nz; sp.R = g.nr * g.cr; sp.Z = g.nz * g.cz; sp.dr = a; sp.dz = b; sp.macro_amount = m; sp.step = 1e-13; sp.species = {Specie{"electrons", -1, 1, 1e15, 1}, Specie{"ions", 1, 1836, 7e14, 25}}; Beam bm; sp.beams.push_back(bm); load(sp, slope, true, sd == 1 && slope == 1); }); } }
    for (double T : {.01, 1., 100., 1e3, 1e4, 2e4, 4e4, 1e5, 1e6}) for (unsigned sd : seeds) R().run(fmt("temperature T=%g seed=%u", T, sd), [=]() { hl::seed() = sd * 104729; Spec sp; sp.nr = sp.nz = 8; sp.R = sp.Z = 8e-3; sp.dr = sp.dz = 2; sp.macro_amount = 8000; sp.species = {Specie{"electrons", -1, 1, 1e15, T}, Specie{"ions", 1, 1836, 1e15, T}}; load(sp, 1, true, false); });
  });
}
