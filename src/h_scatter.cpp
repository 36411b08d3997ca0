// C26: Coulomb collisions scatter particles by the law of the scheme, in every frame of reference
#define COLLIDE_BASE
#include "h_collide.cpp"
typedef std::array<ld, 3> V3;
static V3 sub(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static ld dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static ld len(V3 a) { return sqrtl(dot(a, a)); }
static V3 mul(V3 a, ld k) { return {a[0] * k, a[1] * k, a[2] * k}; }
static const ld PI_ = 3.14159265358979323846264338327950288L, EPS = constant::EPSILON0, QE = constant::EL_CHARGE, HBAR = constant::PLANK_BAR_CONST, ME = constant::EL_MASS;
// everything about a pair before a collision: momentum of particle a in the frame of the center of mass (TA77S: half of the relative velocity)
struct Kin { V3 p; ld u, ga, gb, gas, gbs, gcm, pa, pstar, grel, vas, vbs; };
static Kin kin(ld ma, V3 va, ld mb, V3 vb) {
  Kin k; if (!REL) { k.p = sub(va, vb); k.u = len(k.p); ld mab = ma * mb / (ma + mb); k.pstar = mab * k.u; k.ga = k.gb = k.gas = k.gbs = k.gcm = k.grel = 1; k.pa = ma * len(va); k.vas = k.u * mb / (ma + mb); k.vbs = k.u - k.vas; return k; }
  auto g = [](V3 v) { return 1 / sqrtl(1 - dot(v, v) / (C * C)); }; k.ga = g(va); k.gb = g(vb); V3 pa = mul(va, k.ga * ma), pb = mul(vb, k.gb * mb); ld ea = k.ga * ma * C, eb = k.gb * mb * C;
  V3 b; for (int i = 0; i < 3; ++i) b[i] = (pa[i] + pb[i]) / (ea + eb); ld b2 = dot(b, b), gc = 1 / sqrtl(1 - b2); ld f = gc * gc / (gc + 1) * dot(b, pa) - gc * ea; for (int i = 0; i < 3; ++i) k.p[i] = pa[i] + b[i] * f;
  k.gcm = gc; k.pa = len(pa); k.pstar = len(k.p); k.gas = sqrtl(1 + powl(k.pstar / (ma * C), 2)); k.gbs = sqrtl(1 + powl(k.pstar / (mb * C), 2)); k.vas = k.pstar / (ma * k.gas); k.vbs = k.pstar / (mb * k.gbs);
  k.u = (k.vas + k.vbs) / (1 + k.vas * k.vbs / (C * C)); k.grel = k.gas * k.gbs * (1 + k.vas * k.vbs / (C * C)); return k;
}
static ld angle(V3 a, V3 b) { return atan2l(len(cross(a, b)), dot(a, b)); }
struct Law { ld ma, mb, qa, qb, n, dt, debye, na, nb; Kin k; };
static ld lambda(const Law &l) { ld d = l.debye; ld mab = l.ma * l.mb / (l.ma + l.mb); return std::max((ld)2, logl(d * mab * l.k.u / HBAR)); }
// expected angle in the frame of the center of mass for the Coulomb logarithm L
static vector<ld> theta(const Law &l, ld L, const D &d) {
  const Kin &k = l.k; ld q4 = powl(l.qa * l.qb, 2); vector<ld> r;
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
  ld mab = l.ma * l.mb / (l.ma + l.mb), nr = q4 * l.n * L * l.dt / (4 * PI_ * powl(EPS * mab, 2) * powl(k.u, 3));
  ld re = q4 * l.n * L * l.dt / (4 * PI_ * powl(EPS * C * C, 2) * l.ma * k.ga * l.mb * k.gb) * k.gcm * k.pstar / (l.ma * k.ga + l.mb * k.gb) * powl(l.ma * k.gas * l.mb * k.gbs * C * C / (k.pstar * k.pstar) + 1, 2);
  ld cap = powl(4 * PI_ / 3, 1 / 3.0L) * l.n * l.dt * (l.ma + l.mb) / std::max(l.ma * powl(l.na, 2 / 3.0L), l.mb * powl(l.nb, 2 / 3.0L)) * k.u;
  for (ld s0 : {nr, re}) for (ld s : {s0, std::min(s0, cap)}) {
    if (s0 == nr && fabsl(nr / re - 1) > 0.03L) continue; // this is the same for slow particles only
    ld c, U = d.u; if (s < 0.1L) c = 1 + s * logl(U); else if (s < 3) { ld ai = 0.0056958L + 0.9560202L * s - 0.508139L * s * s + 0.47913906L * powl(s, 3) - 0.12788975L * powl(s, 4) + 0.02389567L * powl(s, 5), a = 1 / ai; c = ai * logl(expl(-a) + 2 * U * sinhl(a)); } else if (s < 6) { ld a = 3 * expl(-s); c = logl(expl(-a) + 2 * U * sinhl(a)) / a; } else c = 2 * U - 1;
    r.push_back(acosl(std::max((ld)-1, std::min((ld)1, c)))); }
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
  // angle in the frame of one of particles, and then in the frame of the center of mass
  for (int o = 0; o < 2; ++o) { ld m = o ? l.ma : l.mb, gs = o ? k.gbs : k.gas, v = o ? k.vbs : k.vas; ld p = k.grel * m * k.u, dl = d.n * sqrtl(q4 * l.n * L * l.dt / (8 * PI_ * EPS * EPS * p * p * k.u)); ld sn = 2 * fabsl(dl) / (1 + dl * dl), cs = (1 - dl * dl) / (1 + dl * dl); r.push_back(atan2l(sn, gs * (cs - v / k.u))); }
#else
  ld dl = d.n * sqrtl(q4 * l.n * L * l.dt / (8 * PI_ * EPS * EPS * k.pstar * k.pstar * k.u)); r.push_back(2 * atanl(fabsl(dl)));
#endif
  return r;
}
static V3 before(Box &b, int i) { return {b.pts[i].v[0], b.pts[i].v[1], b.pts[i].v[2]}; }
static V3 after(Box &b, int i) { return {b.pts[i].p->vel_r, b.pts[i].p->vel_phi, b.pts[i].p->vel_z}; }
static ld volume(Box &b, int i) { ld dr = b.s.g->cell_size[0], dz = b.s.g->cell_size[1]; return PI_ * dz * dr * dr * (2 * i + 1); }
static Law law(Box &b, int x, int y, ld n, ld debye) { Law l; auto q = [&](int i) { for (auto &s : b.s.cfg->particle_species) if (s.name == b.pts[i].sp) return QE * s.charge; return (ld)0; }; l.ma = b.pts[x].m * ME; l.mb = b.pts[y].m * ME; l.qa = q(x); l.qb = q(y); l.n = l.na = l.nb = n; l.dt = b.s.t->step; l.debye = debye; l.k = kin(l.ma, before(b, x), l.mb, before(b, y)); if (REL) { ld v2 = std::max(dot(before(b, x), before(b, x)), dot(before(b, y), before(b, y))); if (v2 > 1e15L) l.debye *= l.k.grel; } return l; }
static ld debye(ld ne, ld te, ld ni, ld ti) { return 1 / sqrtl(QE * QE / EPS * (ne / te + ni / ti)); } // temperatures in joules
static ld energy(ld m, V3 v) { return m * ME * dot(v, v) / 2; } // the way temperature is defined affects the logarithm slightly
// the angle is one of those for Coulomb logarithms near of the expected one
static bool fits(const Law &l, const D &d, ld th, ld noise, string &why) {
  ld L = lambda(l), lo = std::max((ld)2, L - 0.7L), hi = std::max((ld)2, L + 0.7L); vector<ld> a = theta(l, lo, d), b = theta(l, hi, d); why = fmt("angle of scattering is %.9Lg, expected", th);
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
  noise += 5e-16L / std::max(th, (ld)2e-8); // the scheme keeps the cosine
#endif
  for (size_t i = 0; i < a.size(); ++i) { ld x = std::min(a[i], b[i]), y = std::max(a[i], b[i]); why += fmt(" %.9Lg..%.9Lg", x, y);
    if (th >= x * (1 - 1e-5L) - noise && th <= y * (1 + 1e-5L) + noise) return true; }
  return false;
}

int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    struct Sp { double q, m; }; static const double FR[4][3] = {{0, 0, 0}, {0.7, -0.4, 0.5}, {-1.3, 0.2, 0}, {0, 0, -2}};
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
    vector<D> ds; for (double u : {0.75, 0.3, 0.05, 1e-6}) ds.push_back({u, u, 0, 0});
#else
    vector<D> ds; for (double n : {0.1, 1.0, -1.0, -3.0, 8.0}) ds.push_back({0.3, 0.3, 0, n});
#endif
    vector<double> speeds{3e5, 2e6, 2e7}; if (REL) { speeds.push_back(9e7); speeds.push_back(2.4e8); }
    vector<double> weights{1e4, 1e8, 1e11, 1e13, 1e15, 1e17}; if (r.thorough) { weights.push_back(1e6); weights.push_back(1e10); weights.push_back(1e12); weights.push_back(1e19); }
    static const double DIR[5][3] = {{0, 0, 1}, {1, 0, 0}, {0, -1, 0}, {0.6, 0, 0.8}, {-0.48, 0.6, 0.64}}; vector<Sp> sps{{1, 1836}, {2, 7344}, {-1, 1}, {1, 12}};
    int I = 1, K = 2; auto deb = [=](Box &b, vector<int> el, vector<int> io) { ld V = volume(b, I), ne = 0, ni = 0, te = 0, ti = 0; for (int e : el) { ne += b.pts[e].w / V; te += energy(b.pts[e].m, before(b, e)) / el.size(); } for (int e : io) { ni += b.pts[e].w / V; ti += energy(b.pts[e].m, before(b, e)) / io.size(); } return debye(ne, te, ni, ti); };
    // isolated electron and ion: angle, azimuth, both particles, all frames of reference, two time steps
    for (auto sp : sps) for (double v : speeds) for (double w : weights) for (int dir = 0; dir < 5; ++dir) for (int fr = 0; fr < 4; ++fr) R().run(fmt("pair ion=%g,%g speed=%g weight=%g direction=%d frame=%d", sp.q, sp.m, v, w, dir, fr), [=]() {
      Spec s0 = spec(); s0.species[1].charge = sp.q; s0.species[1].mass = sp.m; if (fr == 3 && sp.m == 1) return;
      ld first = -1; for (double step : {1e-13, 4e-13}) { s0.step = step; Box b(s0); b.add("electrons", I, K, w, 0, 0, 0, 0.3, 0.4); b.add("ions", I, K, w, 0, 0, 0, 0.7, 0.1);
        double f = v > 5e7 ? std::min(v * 0.3, 9e7 - v * 0.3) : v; double va[3], vb[3]; for (int i = 0; i < 3; ++i) { va[i] = DIR[dir][i] * v + FR[fr][i] * f; vb[i] = FR[fr][i] * f; if (fr == 0) vb[i] = DIR[(dir + 1) % 5][i] * 1e2; }
        if (va[0] * va[0] + va[1] * va[1] + va[2] * va[2] > 0.9 * C * C) return;
        for (auto d : ds) { V3 e0, ref; int sense = 0; vector<double> az{0, 1.0, constant::PI, 5.0}; for (size_t a = 0; a < az.size(); ++a) { d.a = az[a]; use(d); b.set_v(0, va); b.set_v(1, vb); Law l = law(b, 0, 1, w / volume(b, I), deb(b, {0}, {1})); b.go(); if (!b.check(0, 2)) return;
            V3 p1 = kin(l.ma, after(b, 0), l.mb, after(b, 1)).p, p0 = l.k.p; ld th = angle(p0, p1), noise = 2e-15L * (len(before(b, 0)) + len(before(b, 1))) / std::min(l.k.vas, l.k.u) * 4 + (REL ? 3e-16L * C / l.k.vas : 0); 
            string why; if (!fits(l, d, th, noise + (th > 3 ? 1e-5L : 0), why)) { R().fail("angle", why + fmt(" (random %g, step %g) ", REL && d.n == 0 ? d.u : d.n, step) + b.show()); return; }
            // the azimuth follows the random angle, all of them are possible
            V3 e = sub(p1, mul(p0, dot(p1, p0) / dot(p0, p0))); if (th > 1e-4L && th < PI_ - 1e-4L && len(e) > 0) { e = mul(e, 1 / len(e)); if (a == 0) { e0 = e; ref = mul(cross(p0, e0), 1 / len(p0)); } else { ld phi = atan2l(dot(e, ref), dot(e, e0)); ld tol = 1e-5L + 1e3L * noise / th; auto off = [&](ld x) { return fabsl(remainderl(phi - x, 2 * PI_)); }; if (a == 1) sense = off(az[a] - az[0]) < tol ? 1 : -1; if (off(sense * (az[a] - az[0])) > tol) { R().fail("azimuth", fmt("azimuth differs by %.9Lg, random angles by %g ", phi, az[a] - az[0]) + b.show()); return; } } }
#if !defined(SWITCH_COULOMB_COLLISIONS_P12)
            // the square of tangent of the half of the angle is proportional to the time step (for small angles in SK98)
            if (a == 0 && d.n == 1.0) { ld t = tanl(th / 2); if (step < 2e-13) first = t; else if (first > noise * 1e4L && (!REL || t < 0.01L) && fabsl(t / first - 2) > 2 * (1e-4L + (REL ? t * t * 10 : 0))) { R().fail("step", fmt("tangent of the half of angle is %.9Lg for the time step and %.9Lg for 4 steps ", first, t) + b.show()); return; } }
#else
            if (a == 0 && d.u == 0.75) { ld t = 1 - cosl(th); if (step < 2e-13) first = t; else if (first > noise && t < 0.02L && sinl(th / 2) > 1e4L * noise && fabsl(t / first - 4) > 1e-15L / first + 1e-3L + 1e3L * noise / th) { R().fail("step", fmt("1 - cosine of angle is %.9Lg for the time step and %.9Lg for 4 steps ", first, t) + b.show()); return; } }
#endif
            R().state(Dig()(sp.q)(sp.m)(v)(w)((long)dir)((long)fr)((long)a)(d.u)(d.n)(step).h); } } } });
    // like particles: in a cell with n of them and one other exactly one collision is made visible by the random numbers.
    // Particles collide with one like particle for the time step, three of an odd number of them: with two for the half of it
    for (auto sp : sps) for (int q = 0; q < 2; ++q) for (int n = 2; n <= 5; ++n) for (double v : speeds) for (double w : weights) for (int dir = 0; dir < 5; dir += n == 2 ? 1 : 2) R().run(fmt("like %d %s ion=%g,%g speed=%g weight=%g direction=%d", n, q ? "ions" : "electrons", sp.q, sp.m, v, w, dir), [=]() {
      Spec s0 = spec(); s0.species[1].charge = sp.q; s0.species[1].mass = sp.m; s0.step = 1e-13; Box b(s0); const char *x = q ? "ions" : "electrons", *y = q ? "electrons" : "ions"; vector<int> xs, ys{n}; for (int i = 0; i < n; ++i) { b.add(x, I, K, w, 0, 0, 0, 0.1 + 0.15 * i, 0.4); xs.push_back(i); } b.add(y, I, K, w, 0, 0, 0, 0.5, 0.2);
      static const double SC[5] = {1, 0.4, 0.7, -0.5, 0.2}; double k = v > 5e7 ? 0.3 : 1, vv[6][3]; for (int e = 0; e <= n; ++e) for (int i = 0; i < 3; ++i) vv[e][i] = e == n ? DIR[(dir + 1) % 5][i] * v * 0.5 : DIR[(dir + 2 * e) % 5][i] * v * SC[e] * (e ? k : 1);
      ld V = volume(b, I); for (auto d : ds) { int full = 0, half = 0, other = 0; int top = 2 * (2 * n + 1); d.a = 1.0; for (int pos = 0; pos < top; ++pos) { use(d);
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
          U.assign(top, 1 - ldexp(1, -53)); U[pos] = d.u;
#else
          N.assign(top, 0); N[pos] = d.n;
#endif
          for (int e = 0; e <= n; ++e) b.set_v(e, vv[e]); ld dd = q ? deb(b, ys, xs) : deb(b, xs, ys), sum = 0; for (int e = 0; e <= n; ++e) sum += len(before(b, e)); b.go(); if (!b.check(0, n + 1)) return;
          vector<int> ch; for (int e = 0; e <= n; ++e) if (len(sub(after(b, e), before(b, e))) > 1e-13L * sum * (REL ? std::max((ld)1, 0.03L * C / v) : 1)) ch.push_back(e); R().state(Dig()(sp.q)(sp.m)((long)q)((long)n)(v)(w)((long)dir)(d.u)(d.n)((long)pos).h);
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
          { vector<int> c2; for (int e = 0; e <= n; ++e) { ld a = 0; for (int f = 0; f <= n; ++f) if (f != e) a = std::max(a, angle(kin(b.pts[e].m, before(b, e), b.pts[f].m, before(b, f)).p, kin(b.pts[e].m, after(b, e), b.pts[f].m, after(b, f)).p)); if (a > 2e-6L) c2.push_back(e); } if (c2.size() < 2) continue; } // the random number next to 1 gives small angles too
          { vector<std::pair<ld, int>> o; for (int e = 0; e <= n; ++e) o.push_back({-b.pts[e].m * len(sub(after(b, e), before(b, e))), e}); std::sort(o.begin(), o.end()); if (-o[2].first > 1e-4L * -o[1].first) { R().count("unclear", 1); continue; } ch = {std::min(o[0].second, o[1].second), std::max(o[0].second, o[1].second)}; }
#endif
          if (ch.size() != 2) continue; bool lk = ch[1] != n; Law l = law(b, ch[0], ch[1], lk ? n * w / V : w / V, dd); if (!lk) l.na = n * w / V;
          V3 p1 = kin(l.ma, after(b, ch[0]), l.mb, after(b, ch[1])).p; ld th = angle(l.k.p, p1), noise = 1e-13L * sum / std::min(l.k.u, l.k.vas) / 4 + (REL ? 3e-15L * C / l.k.vas : 0) + (th > 3 ? 1e-5L : 0); string w1, w2; Law h = l; h.dt /= 2; bool f1 = fits(l, d, th, noise, w1), f2 = fits(h, d, th, noise, w2); bool odd = lk && n % 2;
          if (!(odd && n == 3 ? f2 : odd ? f1 || f2 : f1)) { R().fail(lk ? "like" : "unlike", (odd && n == 3 ? w2 : w1) + fmt(" (random %g, particles %d and %d) ", REL && d.n == 0 ? d.u : d.n, ch[0], ch[1]) + b.show()); return; }
          if (!lk) ++other; else if (f1 && !f2) ++full; else if (f2 && !f1) ++half; else ++full, ++half; }
        int need = n / 2; if (n % 2) need = 3 + (n - 3) / 2; if (full + half < need) { R().count("collisions too weak", 1); continue; } if (n == 5 && (full > 4 || half < 3 || full < 1)) { R().fail("share", fmt("%d collisions for the time step and %d for the half of it", full, half)); return; } R().count("like collisions seen", full + half); R().count("other collisions seen", other); } });
    // every cell uses its own volume: the same density gives the same angle
    struct Gd { int nr, nz, dr, dz; }; vector<Gd> gs{{4, 4, 1, 1}, {8, 4, 4, 2}, {6, 6, 2, 2}}; for (auto g : gs) for (int i = 0; i < g.nr; ++i) for (int k = 0; k < g.nz; ++k) R().run(fmt("volume of cell (%d,%d) of %dx%d domains %dx%d", i, k, g.nr, g.nz, g.dr, g.dz), [=]() { Box b(spec(g.nr, g.nz, g.dr, g.dz)); for (double n : {1e17, 1e21, 1e24}) { b.clear(); double w = n * (double)volume(b, i); b.add("electrons", i, k, w, 2e6, 1e6, -3e6); b.add("ions", i, k, w, 1e4, 0, 2e4); D d{0.3, 0.3, 1.0, 1.0}; use(d); ld te = energy(b.pts[0].m, before(b, 0)), ti = energy(b.pts[1].m, before(b, 1)); Law l = law(b, 0, 1, n, debye(n, te, n, ti)); b.go(); if (!b.check(0, 2)) return; ld th = angle(l.k.p, kin(l.ma, after(b, 0), l.mb, after(b, 1)).p); string why; if (!fits(l, d, th, 1e-12L, why)) { R().fail("volume", why + " " + b.show()); return; } R().state(Dig()((long)i)((long)k)((long)g.nr)((long)g.dr)(n).h); } });
  });
}
