// C10: free motion; C11 (--walls): reflection
#include "hlib.hpp"
using namespace hl;
static const double C = 299792458.;
static Particle *only(Sim &s, const string &sp, int *count = nullptr) { Particle *r = nullptr; int n = 0; s.each([&](Domain *d, int, int) { for (auto p : s.specie(d, sp)->particles) { r = p; ++n; } }); if (count) *count = n; return r; }
static void clear(Sim &s) { s.each([](Domain *d, int, int) { for (auto sp : d->species_p) { for (auto p : sp->particles) delete p; sp->particles.clear(); } }); }

static void motion(Runner &r) {
  // mover and both rotations, no walls involved: everything in units of the cell
  vector<double> rs{1e-9, .25, 1, 2.75, 31}, vs{0, 1e-6, .1, .5, 1, -1e-6, -.1, -.5, -1, -.25}; if (r.thorough) { rs = {0, 1e-12, 1e-9, .125, .25, .5, 1, 1.5, 2.75, 7, 31}; vs.insert(vs.end(), {.25, .75, -.75, 2, -2, 1e-3, -1e-3}); }
  for (double r0 : rs) for (double a : vs) R().run(fmt("free r=%g vr=%g", r0, a), [=]() {
    Spec sp; sp.nr = sp.nz = 64; sp.R = 64 * 0x1p-10; sp.Z = 64 * 0x1p-10; sp.step = 0x1p-40; Sim s(sp); double cell = 0x1p-10, dt = s.t->step, u = cell / dt; Domain *d = s.d(0, 0); SpecieP *e = s.specie(d, "electrons"); int steps = R().thorough ? 8 : 5;
    for (double b : vs) for (double c : {0., .3, -.7}) {
      Particle *p = s.put_to(e, r0 * cell, 20 * cell, a * u, b * u, c * u, 7); Particle *q = s.put_to(e, 9 * cell, 9 * cell, 0, 0, 0, 1); // a bystander
      double L = r0 * b, v2 = a * a + b * b;
      for (int n = 1; n <= steps; ++n) { d->dump_particle_positions_to_old(); double o = p->pos_r, oz = p->pos_z; d->update_particles_coords(); d->particles_back_position_to_rz(); d->particles_back_velocity_to_rz(); R().count("transitions", 1);
        double x = r0 + a * n, y = b * n, rr = sqrt(x * x + y * y); double tol = 1e-11 * (r0 + (fabs(a) + fabs(b)) * n + 1e-9);
        string w = fmt("vphi=%g vz=%g step %d", b, c, n);
        if (!(fabs(p->pos_r / cell - rr) <= tol) || p->pos_r < 0) R().fail_stop("radius", w + fmt(": radius %.15g, straight line %.15g", p->pos_r / cell, rr));
        if (!(fabs(p->pos_z / cell - 20 - c * n) <= 1e-10)) R().fail_stop("longitude", w);
        if (p->pos_phi != 0) R().fail_stop("plane", w + ": particle left the rz plane");
        double vr = p->vel_r / u, vp = p->vel_phi / u;
        if (!(fabs(vr * vr + vp * vp - v2) <= 1e-11 * (v2 + 1e-30))) R().fail_stop("speed", w + fmt(": v^2 %.15g, was %.15g", vr * vr + vp * vp, v2));
        if (p->vel_z != c * u) R().fail_stop("vz", w);
        if (!(fabs(p->pos_r / cell * vp - L) <= 1e-10 * (fabs(L) + sqrt(v2) * (r0 + sqrt(v2) * n)))) R().fail_stop("angular-momentum", w + fmt(": %.12g, was %.12g", p->pos_r / cell * vp, L));
        // the sign of the radial velocity follows the straight line
        double want_vr = rr > 0 ? (x * a + y * b) / rr : 0; if (rr > 1e-6 && !(fabs(vr - want_vr) <= 1e-8 * sqrt(v2) * (1 + sqrt(v2) / rr))) R().fail_stop("direction", w + fmt(": radial velocity %.12g, straight line %.12g", vr, want_vr));
        if (p->pos_old_r != o || p->pos_old_z != oz || p->weight != 7) R().fail_stop("old-position", w); if (q->pos_r != 9 * cell || q->vel_r != 0) R().fail_stop("bystander", w);
        R().state(Dig()(p->pos_r)(p->vel_r)(p->vel_phi)(p->pos_z).h); }
      clear(s); }
    R().sample(fmt("all v_phi, v_z, %d steps each", steps)); });
  // the complete particle step (push without field, hand-over between domains)
  for (int dm : {1, 2, 4}) for (double r0 : {2.3, 7.9, 8.1, 11.9}) for (double a : {-.4, -.1, 0., .3}) R().run(fmt("step domains=%dx%d r=%g vr=%g", dm, dm, r0, a), [=]() {
    Spec sp; sp.nr = sp.nz = 16; sp.R = 16e-3; sp.Z = 16e-3; sp.dr = sp.dz = dm; sp.step = 1e-3 / C; Sim s(sp); double cell = 1e-3;
    for (double b : {-.5, 0., .2, .6}) for (double c : {-.5, 0., .55}) { s.put("ions", r0 * cell, 8.05 * cell, a * C, b * C, c * C, 3);
      for (int n = 1; n <= 5; ++n) { s.smb->advance_particles(); R().count("transitions", 1); double x = r0 + a * n, y = b * n, rr = sqrt(x * x + y * y); if (rr > 15 || rr < 1) break; int cnt; Particle *p = only(s, "ions", &cnt); string w = fmt("vphi=%g vz=%g step %d", b, c, n);
        if (cnt != 1) R().fail_stop("lost", w); if (!(fabs(p->pos_r / cell - rr) <= 1e-9) || !(fabs(p->pos_z / cell - 8.05 - c * n) <= 1e-9)) R().fail_stop("position", w + fmt(": (%.12g,%.12g), straight line (%.12g,%.12g)", p->pos_r / cell, p->pos_z / cell, rr, 8.05 + c * n));
        if (!(fabs(p->pos_r / cell * p->vel_phi / C - r0 * b) <= 1e-8)) R().fail_stop("angular-momentum", w); if (!(fabs(p->vel_z - c * C) <= 1e-9 * C)) R().fail_stop("vz", w); R().state(Dig()(p->pos_r)(p->pos_z).h); }
      clear(s); } });
}

static double fold(double x, bool lo, bool hi, double a, double b, int &n) { n = 0; while ((lo && x < a) || (hi && x > b)) { if (lo && x < a) x = 2 * a - x; else x = 2 * b - x; ++n; } return x; }

static void walls(Runner &r) {
  vector<double> P{-9, -4.25, -1, -.25, 0, .25, .5, .75, 3.5, 4, 4.5, 7, 7.5, 7.75, 8, 8.5, 11, 16.25, 23}; if (r.thorough) for (double x : {-14.5, -7., -.5, .49609375, .50390625, 1., 2., 6., 7.25, 7.49609375, 7.50390625, 9.5, 30.}) P.push_back(x);
  for (int dr : {1, 2, 4}) for (int dz : {1, 2, 4}) for (double pr : P) R().run(fmt("reflect domains=%dx%d r=%g", dr, dz, pr), [=]() {
    Spec sp; sp.nr = sp.nz = 8; sp.R = 8 * 0x1p-10; sp.Z = 8 * 0x1p-9; sp.dr = dr; sp.dz = dz; Beam bm; sp.beams.push_back(bm); Sim s(sp); double cr = 0x1p-10, cz = 0x1p-9; long n = 0;
    s.each([&](Domain *d, int di, int dj) { auto &g = d->geometry; bool w[4] = {di == 0, dj == 0, di == dr - 1, dj == dz - 1};
      for (double pz : P) for (int sgn = 0; sgn < 4; ++sgn) for (int k = 0; k < 2; ++k) { SpecieP *e = d->species_p[k]; double vr = sgn & 1 ? 3e6 : -3e6, vz = sgn & 2 ? 2e6 : -2e6;
        Particle *p = s.put_to(e, pr * cr, pz * cz, vr, 5e5, vz, 4); Particle *q = s.put_to(e, 4 * cr, 4 * cz, 1, 2, 3, 1); p->pos_old_r = (g.cell_dims[0] + .75) * cr; p->pos_old_z = (g.cell_dims[1] + .75) * cz;
        int a, b; double er = fold(pr, w[0], w[2], .5, 7.5, a), ez = fold(pz, w[1], w[3], .5, 7.5, b);
        d->reflect(); R().count("transitions", 1); ++n; string t = fmt("domain (%d,%d) %s at z=%g v=(%g,%g)", di, dj, e->name.c_str(), pz, vr, vz);
        if (!(fabs(p->pos_r / cr - er) <= 1e-11) || !(fabs(p->pos_z / cz - ez) <= 1e-11)) R().fail_stop("mirror", t + fmt(": placed to (%.12g,%.12g), expected (%.12g,%.12g)", p->pos_r / cr, p->pos_z / cz, er, ez));
        if (p->vel_r != (a & 1 ? -vr : vr) || p->vel_z != (b & 1 ? -vz : vz) || p->vel_phi != 5e5) R().fail_stop("velocity", t + fmt(": velocity (%g,%g,%g) after %d and %d reflections", p->vel_r, p->vel_phi, p->vel_z, a, b));
        if (p->weight != 4 || q->pos_r != 4 * cr || q->pos_z != 4 * cz || q->vel_r != 1 || q->vel_phi != 2 || q->vel_z != 3) R().fail_stop("other", t + ": weight or another particle changed");
        R().state(Dig()(p->pos_r)(p->pos_z)(p->vel_r)(p->vel_z)((long)di)((long)dj).h); delete p; delete q; e->particles.clear(); }
      // beams: mirrored at the axis only
      if (pr > -4) for (double pz : P) { SpecieP *e = d->species_p[2]; Particle *p = s.put_to(e, pr * cr, pz * cz, -1e6, 2e6, 3e6, 1); d->reflect(); R().count("transitions", 1); double er = w[0] && pr < .5 ? 1 - pr : pr;
        if (!(fabs(p->pos_r / cr - er) <= 1e-11) || p->pos_z != pz * cz || p->vel_z != 3e6 || p->vel_phi != 2e6 || p->vel_r != (er != pr ? 1e6 : -1e6)) R().fail_stop("beam", fmt("domain (%d,%d) beam particle at (%g,%g): placed to (%g,%g)", di, dj, pr, pz, p->pos_r / cr, p->pos_z / cz)); delete p; e->particles.clear(); } });
    R().sample(fmt("%ld reflections", n)); });
  // through the complete particle step: straight line, then mirror
  for (int dm : {1, 2, 4}) for (double r0 : {.55, .9, 1.4, 6.9, 7.3}) for (double z0 : {.6, 1.2, 4.1, 6.8, 7.4}) R().run(fmt("step domains=%dx%d from (%g,%g)", dm, dm, r0, z0), [=]() {
    Spec sp; sp.nr = sp.nz = 8; sp.R = 8e-3; sp.Z = 8e-3; sp.dr = sp.dz = dm; sp.step = 1e-3 / C; Sim s(sp); double cell = 1e-3;
    for (double a : {-.65, -.3, 0., .4, .65}) for (double b : {-.5, 0., .3}) for (double c : {-.5, 0., .5}) { s.put("electrons", r0 * cell, z0 * cell, a * C, b * C, c * C, 2); double x = r0, z = z0, vr = a, vp = b, vz = c;
      for (int n = 1; n <= 4; ++n) { double X = x + vr, Y = vp, rr = sqrt(X * X + Y * Y), nr = (X * vr + Y * vp) / rr, np = (X * vp - Y * vr) / rr; { bool tie = false; for (double w : {.5, 7.5}) if (fabs(rr - w) < 1e-8 || fabs(z + vz - w) < 1e-8) tie = true; if (tie) break; } /* exactly at the wall: both are right */ int f, h; x = fold(rr, true, true, .5, 7.5, f); z = fold(z + vz, true, true, .5, 7.5, h); vr = f & 1 ? -nr : nr; vp = np; if (h & 1) vz = -vz;
        s.smb->advance_particles(); R().count("transitions", 1); int cnt; Particle *p = only(s, "electrons", &cnt); string w = fmt("v=(%g,%g,%g) step %d", a, b, c, n); if (cnt != 1) R().fail_stop("lost", w);
        if (!(fabs(p->pos_r / cell - x) <= 1e-9) || !(fabs(p->pos_z / cell - z) <= 1e-9)) R().fail_stop("position", w + fmt(": (%.12g,%.12g), expected (%.12g,%.12g)", p->pos_r / cell, p->pos_z / cell, x, z));
        if (!(fabs(p->vel_r / C - vr) <= 1e-9) || !(fabs(p->vel_phi / C - vp) <= 1e-9) || !(fabs(p->vel_z / C - vz) <= 1e-9)) R().fail_stop("velocity", w + fmt(": (%.12g,%.12g,%.12g), expected (%.12g,%.12g,%.12g)", p->vel_r / C, p->vel_phi / C, p->vel_z / C, vr, vp, vz)); R().state(Dig()(p->pos_r)(p->pos_z)(p->vel_r).h); }
      clear(s); } });
}
int main(int argc, char **argv) {
  verif::logs().quiet = true; bool w = false; for (int i = 1; i < argc; ++i) if (string(argv[i]) == "--walls") w = true;
  return R().main(argc, argv, [w](Runner &r) { if (w) walls(r); else motion(r); });
}
