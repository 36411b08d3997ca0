// C13: injection of beams
#define HL_RANDOM
#include "hlib.hpp"
using namespace hl;
static const double PI_ = 3.14159265358979323846;

struct Seen { long n = 0, steps = 0; vector<double> r; vector<long> per_bunch; vector<long> bunch_steps; };

static void inject(const Spec &sp, bool restart) {
  Sim s(sp); double dt = s.t->step, dr = s.g->cell_size[0], dz = s.g->cell_size[1]; size_t nb = sp.beams.size(); double last = 0; for (auto &b : sp.beams) last = std::max(last, b.start_time + (b.length * b.amount + b.distance * (b.amount - 1)) / b.velocity);
  int dr_n = s.smb->r_domains, dz_n = s.smb->z_domains; std::map<std::pair<int, int>, vector<Seen>> seen; long steps = (long)(last / dt) + 12; if (restart) s.t->current = 0;
  auto beamP = [&](Domain *d, size_t b) -> SpecieP * { for (auto q : d->species_p) if (q->id == s.cfg->particle_beams[b].id) return q; return nullptr; };
  s.each([&](Domain *, int i, int j) { seen[{i, j}].resize(nb); for (size_t b = 0; b < nb; ++b) { seen[{i, j}][b].per_bunch.assign((size_t)sp.beams[b].amount, 0); seen[{i, j}][b].bunch_steps.assign((size_t)sp.beams[b].amount, 0); } });
  for (long st = 0; st < steps; ++st) { double t = s.t->current; s.smb->inject_beam(); R().count("transitions", 1);
    s.each([&](Domain *d, int i, int j) {
      for (auto q : d->species_p) { bool is_beam = false; for (size_t b = 0; b < nb; ++b) if (q == beamP(d, b)) is_beam = true; if (!is_beam && !q->particles.empty()) R().fail_stop("other-specie", q->name + " got particles"); }
      for (size_t b = 0; b < nb; ++b) { auto &bm = sp.beams[b]; SpecieP *q = beamP(d, b); if (!q) R().fail_stop("no-beam", fmt("domain (%d,%d) has no beam %zu", i, j, b)); Seen &se = seen[{i, j}][b]; auto &c = d->geometry.cell_dims; double bot = c[0] * dr, top = c[2] * dr;
        double share = j > 0 ? 0 : std::max(0., std::min(bm.radius, top) - bot) / bm.radius; long macro = s.cfg->particle_beams[b].macro_amount; double per = (double)macro / bm.amount * share * bm.velocity * dt / bm.length;
        int in = -1; bool edge = false; for (int k = 0; k < (int)bm.amount; ++k) { double b0 = bm.start_time + (bm.length + bm.distance) / bm.velocity * k, b1 = b0 + bm.length / bm.velocity; if (t >= b0 && t < b1) in = k; if (fabs(t - b0) < 1e-6 * dt || fabs(t - b1) < 1e-6 * dt) edge = true; }
        long n = q->particles.size(); string w = fmt("beam %zu, step %ld, domain (%d,%d)", b, st, i, j);
        if (n > 0 && share <= 0) R().fail_stop("domain", w + fmt(": %ld particles injected outside of the bunch or not at the left wall", n));
        if (n > 0 && in < 0 && !edge) R().fail_stop("timing", w + fmt(": %ld particles injected at t=%.9g, out of bunches", n, t));
        if (in >= 0 && !edge && share > 0 && (n < (long)floor(per - 1e-6) || n > (long)ceil(per + 1e-6))) R().fail_stop("rate", w + fmt(": %ld particles injected, %g expected", n, per));
        if (in >= 0) se.bunch_steps[in]++; if (n) { int k = in; if (k < 0) { double best = 1e300; for (int m = 0; m < (int)bm.amount; ++m) { double e = bm.start_time + (bm.length + bm.distance) / bm.velocity * m + bm.length / bm.velocity / 2; if (fabs(t - e) < best) { best = fabs(t - e); k = m; } } } se.per_bunch[k] += n; }
        se.n += n; double Ntot = PI_ * bm.radius * bm.radius * bm.length * bm.amount * bm.density;
        for (auto p : q->particles) { R().count("particles", 1); double lo = bot + dr / 2, hi = lo + std::min(bm.radius, top) - bot;
          if (!(p->pos_r >= lo - 1e-9 * dr && p->pos_r <= hi + 1e-9 * dr)) R().fail_stop("radius", w + fmt(": particle at r=%.9g cells, bunch part is %.9g..%.9g", p->pos_r / dr, lo / dr, hi / dr));
          if (!(p->pos_z >= dz / 2 * (1 - 1e-9) && p->pos_z <= dz / 2 + bm.velocity * dt * (1 + 1e-9))) R().fail_stop("place", w + fmt(": particle at z=%.9g cells", p->pos_z / dz));
          if (p->vel_r != 0 || p->vel_phi != 0 || !hl::close(p->vel_z, bm.velocity, 1e-12)) R().fail_stop("velocity", w + fmt(": velocity (%g,%g,%g)", p->vel_r, p->vel_phi, p->vel_z));
          if ((long)p->cell_r != (long)floor(p->pos_r / dr) || (long)p->cell_z != (long)floor(p->pos_z / dz)) R().fail_stop("cell-number", w + fmt(": particle at (%.9g,%.9g) has cell (%ld,%ld)", p->pos_r / dr, p->pos_z / dz, (long)p->cell_r, (long)p->cell_z));
          if (p->pos_phi != 0 || p->specie_id != q->id) R().fail_stop("identity", w); double want = Ntot / macro * 2 * p->pos_r / bm.radius; if (!hl::close(p->weight, want, 1e-9)) R().fail_stop("weight", w + fmt(": weight %.9g, expected %.9g", p->weight, want));
          se.r.push_back((p->pos_r - lo) / (hi - lo)); delete p; }
        q->particles.clear(); R().state(Dig()((long)b)((long)n)((long)in)(share)(per).h); } });
    s.t->current += dt; }
  for (size_t b = 0; b < nb; ++b) { auto &bm = sp.beams[b]; long macro = s.cfg->particle_beams[b].macro_amount, tot = 0; vector<long> per_b((size_t)bm.amount, 0); double per_step = (double)macro / bm.amount * bm.velocity * dt / bm.length; int doms = 0;
    for (int i = 0; i < dr_n; ++i) for (int j = 0; j < dz_n; ++j) { Seen &se = seen[{i, j}][b]; tot += se.n; if (se.n) ++doms; for (size_t k = 0; k < per_b.size(); ++k) per_b[k] += se.per_bunch[k]; long n = se.r.size(); if (n >= 200) { long q[4] = {0}; for (double x : se.r) q[std::max(0, std::min(3, (int)(x * 4)))]++; for (int a = 0; a < 4; ++a) if (fabs(q[a] - n / 4.) > 5 * sqrt(n * .25) + 3) R().fail_stop("uniform", fmt("beam %zu domain (%d,%d): quarter %d of the radius has %ld of %ld", b, i, j, a, q[a], n)); } }
    double ratio = bm.length / (bm.velocity * dt); bool whole = fabs(ratio - lround(ratio)) < 1e-9; double tol = dr_n + 1 + (whole ? 0 : per_step); double edge_tol = per_step; // the first or the last step of a bunch can slip by rounding
    for (size_t k = 0; k < per_b.size(); ++k) if (!(fabs(per_b[k] - macro / bm.amount) <= tol + edge_tol)) R().fail_stop("bunch", fmt("beam %zu: bunch %zu has %ld macroparticles, expected %g", b, k, per_b[k], macro / bm.amount));
    if (!(fabs(tot - macro) <= dr_n + 1 + per_step * bm.amount)) R().fail_stop("total", fmt("beam %zu: %ld macroparticles of %ld", b, tot, macro));
    R().sample(fmt("beam %zu: %ld of %ld macroparticles injected to %d domains in %zu bunches", b, tot, macro, doms, per_b.size())); }
}

int main(int argc, char **argv) {
  verif::logs().quiet = true; R().per_child = 1; R().case_timeout = 60;
  return R().main(argc, argv, [](Runner &r) {
    double cell = 1e-3, v0 = 1e8; vector<double> radii{1, 2, 2.5, 4, 6.3}, starts{0, 2.5, 7}, lens{4, 5.5, 16}, dists{0, 3, 6.7}; vector<int> amounts{1, 2, 3}, dms{1, 2, 4}; if (r.thorough) { radii = {.4, 1, 2, 2.5, 4, 5.9, 6.3}; starts = {0, .3, 2.5, 7, 20}; lens = {2, 4, 5.5, 16, 40}; amounts = {1, 2, 3, 5}; }
    // a step is 1/4 of the cell for this velocity
    for (double dtk : {.25, .1}) for (int a : dms) for (int b : dms) for (double rad : radii) for (int am : amounts) for (double ln : lens) { if (!r.thorough && (b == 4 && a != 4)) continue;
      R().run(fmt("one step=%g domains=%dx%d radius=%g bunches=%d length=%g", dtk, a, b, rad, am, ln), [=]() { int n = 0; for (double st : starts) for (double ds : dists) { Spec sp; sp.nr = sp.nz = 8; sp.R = sp.Z = 8 * cell; sp.dr = a; sp.dz = b; sp.step = dtk * cell / v0; sp.t_end = 1e-7; sp.macro_amount = n % 2 ? 3000 : 20000; Beam bm; bm.velocity = v0; bm.start_time = st * sp.step; bm.radius = rad * cell; bm.amount = am; bm.length = ln * v0 * sp.step; bm.distance = ds * v0 * sp.step; sp.beams = {bm}; hl::seed() = 77 + n++; inject(sp, false); } }); }
    for (int a : dms) for (int b : dms) for (double st : {0., 5.}) for (int same = 0; same < 2; ++same) R().run(fmt("two domains=%dx%d second starts at %g same=%d", a, b, st, same), [=]() { hl::seed() = 5; Spec sp; sp.nr = sp.nz = 8; sp.R = sp.Z = 8 * cell; sp.dr = a; sp.dz = b; sp.step = .25 * cell / v0; sp.macro_amount = 9000; sp.ratio = 2; Beam x, y; x.velocity = v0; x.radius = 3.5 * cell; x.amount = 2; x.length = 8 * v0 * sp.step; x.distance = 4 * v0 * sp.step; x.density = 1e14; y = x; y.name = "ions"; y.charge = 1; y.mass = 1836; y.start_time = st * sp.step; if (!same) { y.velocity = v0 / 2; y.radius = 6 * cell; y.amount = 3; y.density = 3e13; } sp.beams = {x, y}; inject(sp, false); });
  });
}
