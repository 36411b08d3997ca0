// C09: particle pushers against their published schemes
#include "hlib.hpp"
using namespace hl;
typedef long double ld; typedef std::array<ld, 3> V;
static V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V operator*(V a, ld k) { return {a[0] * k, a[1] * k, a[2] * k}; }
static ld dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V cross(V a, V b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static const ld C2 = (ld)constant::LIGHT_VEL * constant::LIGHT_VEL;
static V rotate(V u, V t) { V up = u + cross(u, t); return u + cross(up, t) * (2 / (1 + dot(t, t))); } // Boris rotation by the half-angle tangent t

static V reference(V v, V E, V B, ld q, ld m, ld dt) {
  ld h = q * dt / (2 * m); V e = E * h, b = B * h; (void)e;
#if defined(SWITCH_PUSHER_BORIS)
  return rotate(v + e, b) + e;
#elif defined(SWITCH_PUSHER_VAY)
  ld g = 1 / sqrtl(1 - dot(v, v) / C2); V u = v * g;
  V up = u + e * 2 + cross(v, b); ld g2 = 1 + dot(up, up) / C2, s = g2 - dot(b, b), ps = dot(up, b); ld gn = sqrtl((s + sqrtl(s * s + 4 * (dot(b, b) + ps * ps / C2))) / 2);
  V t = b * (1 / gn); V un = (up + t * dot(up, t) + cross(up, t)) * (1 / (1 + dot(t, t))); return un * (1 / sqrtl(1 + dot(un, un) / C2));
#elif defined(SWITCH_PUSHER_HC)
  ld g = 1 / sqrtl(1 - dot(v, v) / C2); V um = v * g + e; ld g2 = 1 + dot(um, um) / C2, s = g2 - dot(b, b), us = dot(um, b); ld gn = sqrtl((s + sqrtl(s * s + 4 * (dot(b, b) + us * us / C2))) / 2);
  V un = rotate(um, b * (1 / gn)) + e; return un * (1 / sqrtl(1 + dot(un, un) / C2));
#else
#ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
  if (dot(v, v) <= (ld)REL_LIMIT * REL_LIMIT) return rotate(v + e, b) + e;
#endif
  ld g = 1 / sqrtl(1 - dot(v, v) / C2); V um = v * g + e; V un = rotate(um, b * (1 / sqrtl(1 + dot(um, um) / C2))) + e; return un * (1 / sqrtl(1 + dot(un, un) / C2));
#endif
}
#if defined(SWITCH_PUSHER_BORIS)
static const bool relat = false;
#else
static const bool relat = true;
#endif

int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    vector<V> dirs; for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) for (int c = -1; c <= 1; ++c) if (a || b || c) dirs.push_back(V{(ld)a, (ld)b, (ld)c} * (1 / sqrtl(a * a + b * b + c * c)));
    const ld c = constant::LIGHT_VEL; vector<ld> speeds{0, 1e3, 1e6, 4.99e7L, 5.01e7L, 1e8, 0.9L * c, 0.999L * c, 0.9999999L * c};
    vector<V> es{{0, 0, 0}}, hs{{0, 0, 0}};
    vector<V> fd = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {.6L, -.5L, .7L}, {-.4L, .8L, .3L}}; if (r.thorough) fd = dirs;
    for (ld m : r.thorough ? vector<ld>{1, 1e3, 1e6, 1e8, 1e9} : vector<ld>{1e3, 1e6, 1e9}) for (auto &d : fd) es.push_back(d * m);
    for (ld m : r.thorough ? vector<ld>{1, 1e3, 1e5, 1e6, 1e7} : vector<ld>{1e3, 1e6, 1e7}) for (auto &d : fd) hs.push_back(d * m);
    for (size_t x = 0; x < es.size(); ++x) for (int d : {1, 2}) for (double dt : {1e-12, 3e-14}) R().run(fmt("E=(%Lg,%Lg,%Lg) domains=%dx%d dt=%g", es[x][0], es[x][1], es[x][2], d, d, dt), [=]() {
      Spec sp; sp.nr = sp.nz = 8; sp.R = 8e-3; sp.Z = 8e-3; sp.dr = sp.dz = d; sp.step = dt; sp.species.push_back(Specie{"heavy", 2, 7000, 1e14, 1}); Sim s(sp);
      double pr = 5.3e-3, pz = 2.4e-3; Domain *o = s.owner(5, 2); V ge, gh; // gathered value of unit fields
      auto fill = [&](int w, int cc, double v) { for (int i = -2; i < (int)o->geometry.cell_amount[0] + 2; ++i) for (int k = -2; k < (int)o->geometry.cell_amount[1] + 2; ++k) field(o, w)[cc].set(i, k, v); };
      for (int q = 0; q < 3; ++q) { fill(F_E, q, 1); fill(F_H, q, 1); ge[q] = o->maxwell_solver->get_field_e(pr, pz)[q]; gh[q] = o->maxwell_solver->get_field_h(pr, pz)[q]; }
      for (int q = 0; q < 3; ++q) fill(F_E, q, (double)(es[x][q] / ge[q]));
      long n = 0, moved = 0;
      for (auto &h : hs) { for (int q = 0; q < 3; ++q) fill(F_H, q, (double)(h[q] / gh[q]));
        for (auto sp2 : o->species_p) { for (auto p : sp2->particles) delete p; sp2->particles.clear(); }
        struct Rec { SpecieP *s; V v; double w; }; vector<Rec> recs; int k = 0;
        for (auto sp2 : o->species_p) for (ld u : speeds) for (auto &dd : dirs) { ++k; V v = dd * u; s.put_to(sp2, pr, pz, (double)v[0], (double)v[1], (double)v[2], 1 + k % 5); recs.push_back({sp2, V{(ld)(double)v[0], (ld)(double)v[1], (ld)(double)v[2]}, 1. + k % 5}); if (u == 0) break; }
        o->push_particles(); R().count("transitions", 1);
        std::map<SpecieP *, size_t> at; V B = h * (ld)constant::MAGN_CONST; Dig dg;
        for (auto &rc : recs) { size_t i = at[rc.s]++; if (i >= rc.s->particles.size()) R().fail_stop("lost", "particle"); Particle *p = rc.s->particles[i];
          V want = reference(rc.v, es[x], B, rc.s->charge, rc.s->mass, dt); V got{p->vel_r, p->vel_phi, p->vel_z}; ld v2 = std::max(dot(rc.v, rc.v), relat ? dot(want, want) : 0) / C2; ld gam2 = relat ? 1 / std::max(1 - v2, (ld)1e-14) : 1;
          ld sc = std::max(sqrtl(dot(want, want)), sqrtl(dot(rc.v, rc.v))), tol = std::max(sc, sqrtl(dot(es[x], es[x])) * fabsl(rc.s->charge) * dt / rc.s->mass * (relat ? 0 : 1)) * 1e-12L * std::max((ld)1, gam2) + 1e-12L; 
          for (int q = 0; q < 3; ++q) if (!(fabsl(want[q] - got[q]) <= tol)) R().fail_stop("velocity", fmt("%s v=(%Lg,%Lg,%Lg) H=(%Lg,%Lg,%Lg): component %d is %.15Lg, expected %.15Lg (tolerance %Lg)", rc.s->name.c_str(), rc.v[0], rc.v[1], rc.v[2], h[0], h[1], h[2], q, got[q], want[q], tol));
          if (relat && dot(rc.v, rc.v) > 2.6e15L && !(dot(got, got) <= C2)) R().fail_stop("superluminal", "speed reached the speed of light");
          if (p->pos_r != pr || p->pos_z != pz || p->weight != rc.w || p->pos_phi != 0) R().fail_stop("position", "pusher changed position or weight");
          ++n; if (fabsl(got[0] - rc.v[0]) + fabsl(got[1] - rc.v[1]) + fabsl(got[2] - rc.v[2]) > 0) ++moved; dg((double)got[0])((double)got[1])((double)got[2]); }
        R().state(dg.h); }
      R().count("pushed_particles", n); R().count("deflected_particles", moved);
      R().sample(fmt("%ld pushes, %ld of them changed the velocity", n, moved));
    });
  });
}
