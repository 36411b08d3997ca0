// C14 --schedule, C15 --regions, C16 --maps: what the output controller puts into the data file
#include "hlib.hpp"
using namespace hl;

struct Out {
  Sim s; HighFive::File *f; OutController *oc; h5stub::FileData *d;
  explicit Out(const Spec &sp) : s(sp) {
    h5stub::world().reset(); f = new HighFive::File("data.h5", HighFive::File::ReadWrite | HighFive::File::Create | HighFive::File::Excl);
    oc = new OutController(f, s.g, s.t, s.cfg->probes, s.smb, s.cfg->cfg2value(), false); d = h5stub::world().files["data.h5"];
  }
  void operator()() { (*oc)(); R().count("transitions", 1); }
  void next() { s.t->current += s.t->step; }
  h5stub::Dataset &ds(const Probe &p) { string k = path(p); if (!d->datasets.count(k)) R().fail_stop("missing", "there is no dataset " + k); return d->datasets[k]; }
  static bool by_specie(const string &c) { return c == "density" || c == "temperature" || c == "energy" || c.compare(0, 8, "momentum") == 0; }
  static string path(const Probe &p) {
    string k = p.component + "/"; if (by_specie(p.component)) k += p.specie + "/"; k += p.shape + "/";
    if (p.shape == "rec") return k + fmt("%d-%d_%d-%d", p.r0, p.r1, p.z0, p.z1);
    if (p.shape == "col") return k + fmt("%d", p.z0);
    if (p.shape == "row") return k + fmt("%d", p.r0);
    return k + fmt("%d_%d", p.r0, p.z0);
  }
  // nodes of the probe, in the order of the dataset
  vector<std::pair<int, int>> nodes(const Probe &p) {
    vector<std::pair<int, int>> v; int nr = s.g->cell_amount[0], nz = s.g->cell_amount[1];
    if (p.shape == "rec") for (int i = p.r0; i < p.r1; ++i) for (int k = p.z0; k < p.z1; ++k) v.push_back({i, k});
    else if (p.shape == "col") for (int i = 0; i < nr; ++i) v.push_back({i, p.z0});
    else if (p.shape == "row") for (int k = 0; k < nz; ++k) v.push_back({p.r0, k});
    else v.push_back({p.r0, p.z0});
    return v;
  }
  vector<size_t> shape(const Probe &p) { if (p.shape == "rec") return {(size_t)(p.r1 - p.r0), (size_t)(p.z1 - p.z0)}; return {nodes(p).size()}; }
  void check_dims(const Probe &p, size_t frames) {
    auto &x = ds(p); vector<size_t> e = shape(p); e.insert(e.begin(), frames); if (x.dims == e) return;
    string a, b; for (size_t q : x.dims) a += fmt("%zu ", q); for (size_t q : e) b += fmt("%zu ", q);
    R().fail_stop("dims", path(p) + fmt(": size of the dataset is %s, expected %s", a.c_str(), b.c_str()));
  }
  void check_frame(const Probe &p, size_t frame, const std::function<double(int, int)> &val, double rel = 0, const std::function<double(int, int)> &abs = nullptr, unsigned writes = 1) {
    auto &x = ds(p); auto n = nodes(p); size_t at = frame * n.size();
    for (auto &q : n) { double e = val(q.first, q.second), g = x.data[at];
      if (x.writes[at] != writes) R().fail_stop("writes", path(p) + fmt(": frame %zu node (%d,%d) was written %u times", frame, q.first, q.second, x.writes[at]));
      if (!(g == e || hl::close(g, e, rel, abs ? abs(q.first, q.second) : 0))) R().fail_stop("value", path(p) + fmt(": frame %zu node (%d,%d) holds %.12g, expected %.12g", frame, q.first, q.second, g, e));
      ++at; }
  }
  void only(const vector<Probe> &ps) { std::set<string> k; for (auto &p : ps) k.insert(path(p)); for (auto &x : d->datasets) if (!k.count(x.first)) R().fail_stop("extra", "unexpected dataset " + x.first); }
};
static const char *COMP[9] = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z"};
static void fill(Sim &s, const std::function<double(int, int, int)> &v) { // field component, node; halos hold junk
  s.each([&](Domain *d, int, int) { auto &c = d->geometry.cell_dims; int lr = c[2] - c[0], lz = c[3] - c[1];
    for (int w = 0; w < 4; ++w) for (int q = 0; q < 3; ++q) for (int i = -2; i < lr + 2; ++i) for (int k = -2; k < lz + 2; ++k) {
      bool own = i >= 0 && k >= 0 && i < lr && k < lz; int id = w == F_E ? q : w == F_HET ? 3 + q : w == F_J ? 6 + q : 9 + q;
      field(d, w)[q].set(i, k, own ? v(id, c[0] + i, c[1] + k) : -1e9 - i * 100 - k); } });
}
static Probe P(const string &comp, const string &shape, int sched, int r0, int z0, int r1 = 0, int z1 = 0, const string &sp = "electrons") { Probe p; p.component = comp; p.shape = shape; p.schedule = sched; p.r0 = r0; p.z0 = z0; p.r1 = r1; p.z1 = z1; p.specie = sp; p.with_specie = Out::by_specie(comp); return p; }

// ------------------------------------------------------------------ C14
static void schedule_case(Spec sp, vector<Probe> ps, int steps) {
  sp.probes = ps; Out o(sp); auto val = [](int step, int c, int i, int k) { return step * 1000. + c * 100 + i * 10 + k; };
  auto ci = [](const string &c) { for (int i = 0; i < 9; ++i) if (c == COMP[i]) return i; return -1; };
  for (int st = 0; st < steps; ++st) {
    fill(o.s, [&](int c, int i, int k) { return val(st, c, i, k); });
    o(); R().state(Dig()((long)st)(sp.step)((long)ps.size()).h);
    for (auto &p : ps) { size_t fr = st / p.schedule; o.check_dims(p, fr + 1); int c = ci(p.component); o.check_frame(p, fr, [&](int i, int k) { return val((int)fr * p.schedule, c, i, k); }); }
    o.next();
  }
  for (auto &p : ps) { int c = ci(p.component); for (size_t fr = 0; fr <= (size_t)(steps - 1) / p.schedule; ++fr) o.check_frame(p, fr, [&](int i, int k) { return val((int)fr * p.schedule, c, i, k); }); }
  o.only(ps); if (!h5stub::world().errors.empty()) R().fail("file", h5stub::world().errors[0]);
  R().sample(fmt("%d steps of %g s, %zu probes, all frames compared", steps, sp.step, ps.size()));
}
// many frames: beyond 16 bit counters
static void long_case(Spec sp, int n, long steps) {
  vector<Probe> ps{P("E/r", "dot", 1, 1, 1), P("E/z", "dot", n, 2, 3)}; sp.probes = ps; Out o(sp); auto d1 = o.s.owner(1, 1), d2 = o.s.owner(2, 3);
  auto put = [](Domain *d, int c, int i, int k, double v) { d->maxwell_solver->field_e[c].set(i - (int)d->geometry.cell_dims[0], k - (int)d->geometry.cell_dims[1], v); };
  for (long st = 0; st < steps; ++st) { put(d1, 0, 1, 1, st + 0.5); put(d2, 2, 2, 3, -st - 0.5); (*o.oc)(); o.next(); }
  R().count("transitions", steps); o.check_dims(ps[0], steps); o.check_dims(ps[1], (steps - 1) / n + 1);
  for (long f = 0; f < steps; ++f) o.check_frame(ps[0], f, [&](int, int) { return f + 0.5; }); for (long f = 0; f <= (steps - 1) / n; ++f) o.check_frame(ps[1], f, [&](int, int) { return -f * n - 0.5; });
  if (!h5stub::world().errors.empty()) R().fail("file", h5stub::world().errors[0]); R().state(Dig()(sp.step)((long)n)(steps).h); R().sample(fmt("%ld steps of %g s", steps, sp.step));
}
static void schedules(Runner &r) {
  vector<double> dts{1e-12, 1e-13, 3e-13, 0.7e-12, 1e-12 / 3, 5e-14, 1.1e-11, ldexp(1, -40), 1e-9, 2.3e-13};
  vector<int> sch{1, 2, 3, 4, 5, 6, 7, 10, 13, 100, 255, 256, 300}; int steps = r.thorough ? 1500 : 320; vector<std::pair<int, int>> divs{{1, 1}, {2, 2}};
  if (r.thorough) { sch.push_back(512); sch.push_back(1000); dts.push_back(1e-15); dts.push_back(9.99e-13); dts.push_back(0.1); dts.push_back(1); }
  for (double dt : dts) for (auto dv : divs) {
    Spec sp; sp.nr = sp.nz = 4; sp.R = sp.Z = 4; sp.dr = dv.first; sp.dz = dv.second; sp.step = dt; sp.t_end = dt * 1e6; string base = fmt("step=%.17g domains=%dx%d ", dt, dv.first, dv.second);
    // long runs
    if (dt == dts[0] || dt == dts[2] || dt == dts[3] || r.thorough) R().run(base + "long run", [=]() { long_case(sp, dv.first == 1 ? 7 : 1000, r.thorough ? 300000 : 70000); });
    // every schedule, all shapes
    for (int n : sch) R().run(base + fmt("schedule=%d", n), [=]() { schedule_case(sp, {P("E/r", "rec", n, 1, 1, 4, 3), P("H/phi", "col", n, 0, 2), P("J/z", "row", n, 3, 0), P("E/z", "dot", n, 2, 1)}, steps); });
    // pairs of schedules of the same component, in both orders
    if (dv.first == 2 || dt == dts[0]) for (int a : sch) for (int b : sch) if (a != b && (dt == dts[0] || dt == dts[2] || (r.thorough && dt == dts[4]))) R().run(base + fmt("schedules=%d,%d", a, b), [=]() { schedule_case(sp, {P("E/r", "dot", a, 1, 1), P("E/r", "dot", b, 2, 3)}, std::max(a, b) * 2 + 12); });
    // all at once
    R().run(base + "all schedules", [=]() { vector<Probe> ps; int at = 0; for (int n : sch) { ps.push_back(P(COMP[at % 9], "dot", n, at % 4, at / 4)); ++at; } ps.push_back(P("E/phi", "rec", 3, 0, 0, 4, 4)); ps.push_back(P("E/phi", "col", 4, 0, 3)); ps.push_back(P("H/r", "row", 9, 1, 0)); schedule_case(sp, ps, steps); });
  }
  // probes that would share a dataset are refused
  R().run("repeated probes", [=]() { for (auto &s : {"rec", "col", "row", "dot"}) for (int b : {1, 5}) { Spec sp; sp.nr = sp.nz = 4; sp.probes = {P("E/r", s, 1, 1, 1, 2, 2), P("E/r", s, b, 1, 1, 2, 2)}; R().count("transitions", 1); bool refused = false; try { Sim x(sp); } catch (verif::Fatal &) { refused = true; } if (!refused) R().fail("repeated", fmt("two %s probes of the same region (schedules 1 and %d) share a dataset", s, b)); } });
}

// ------------------------------------------------------------------ C15
static void regions(Runner &r) {
  struct Gd { int nr, nz, dr, dz; }; vector<Gd> gs{{4, 6, 1, 1}, {4, 6, 2, 1}, {4, 6, 1, 2}, {4, 6, 2, 2}, {8, 4, 4, 2}, {4, 8, 2, 4}};
  if (r.thorough) { gs.push_back({8, 8, 4, 4}); gs.push_back({8, 8, 2, 2}); gs.push_back({6, 12, 2, 4}); gs.push_back({12, 6, 6, 1}); }
  auto val = [](int fr, int c, int i, int k) { return fr * 1e6 + c * 1e4 + i * 100 + k + 0.5; };
  for (auto g : gs) {
    Spec sp; sp.nr = g.nr; sp.nz = g.nz; sp.R = g.nr * 0.1; sp.Z = g.nz * 0.3; sp.dr = g.dr; sp.dz = g.dz; string base = fmt("grid=%dx%d domains=%dx%d ", g.nr, g.nz, g.dr, g.dz);
    auto all = [=](const string &c) { vector<Probe> v; for (int a = 0; a < g.nr; ++a) for (int b = a + 1; b <= g.nr; ++b) for (int e = 0; e < g.nz; ++e) for (int f = e + 1; f <= g.nz; ++f) v.push_back(P(c, "rec", 1, a, e, b, f));
      for (int k = 0; k < g.nz; ++k) v.push_back(P(c, "col", 1, 0, k)); for (int i = 0; i < g.nr; ++i) v.push_back(P(c, "row", 1, i, 0)); for (int i = 0; i < g.nr; ++i) for (int k = 0; k < g.nz; ++k) v.push_back(P(c, "dot", 1, i, k)); return v; };
    auto go = [=](const vector<Probe> &ps) { Spec q = sp; q.probes = ps; Out o(q); for (int fr = 0; fr < 2; ++fr) { fill(o.s, [&](int c, int i, int k) { return val(fr, c, i, k); }); o(); o.next(); }
      for (auto &p : ps) { o.check_dims(p, 2); int c = -1; for (int i = 0; i < 9; ++i) if (p.component == COMP[i]) c = i; for (int fr = 0; fr < 2; ++fr) o.check_frame(p, fr, [&](int i, int k) { return val(fr, c, i, k); }); R().count("probes", 1); R().state(Dig()(Out::path(p))(base).h); }
      o.only(ps); if (!h5stub::world().errors.empty()) R().fail("file", h5stub::world().errors[0]); };
    for (int c = 0; c < 9; ++c) R().run(base + COMP[c] + " all regions together", [=]() { auto v = all(COMP[c]); go(v); R().sample(fmt("%zu regions recorded together", v.size())); });
    { auto v = all("E/r"); for (size_t n = 0; n < v.size(); ++n) { Probe p = v[n]; p.component = COMP[n % 9]; R().run(base + Out::path(p) + " alone", [=]() { go({p}); }); } }
    R().run(base + "all components of a region", [=]() { for (auto &p : all("E/r")) { if (p.shape == "rec" && (p.r0 + p.z0 + p.r1 + p.z1) % 7) continue; vector<Probe> v; for (int c = 0; c < 9; ++c) { v.push_back(p); v.back().component = COMP[c]; } go(v); std::reverse(v.begin(), v.end()); go(v); } });
    R().run(base + "no probes", [=]() { go({}); });
  }
  // a component or shape that does not exist is refused, an absent specie records nothing
  R().run("unknown component", [=]() { for (auto c : {"E/x", "velocity", "E_r", ""}) { Spec sp; sp.probes = {P(c, "dot", 1, 1, 1)}; bool refused = false; try { Out o(sp); } catch (verif::Fatal &) { refused = true; } R().count("transitions", 1); if (!refused) R().fail("unknown", string("unknown component ") + c + " is not refused"); } });
}

// ------------------------------------------------------------------ C16
struct Pt { string sp; double r, z, vr, vp, vz, w; };
static const char *MAPS[6] = {"density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};
typedef vector<vector<double>> Mat;
// volume weighting to the four nodes around
static void scatter(Mat &m, double r, double z, double dr, double dz, double v) {
  const double PI_ = 3.14159265358979323846; int i = (int)floor(r / dr), k = (int)floor(z / dz); double u = PI_ * dz * dr * dr, v1 = u * (2. * i + 1), v2 = u * (2. * i + 2), v0 = 2 * PI_ * dz * dr * r;
  double rb = (i + 0.5) * dr, lo = r - dr / 2, hi = r + dr / 2, below = PI_ * (rb * rb - lo * lo);
  if (r <= dr / 2) { v0 = PI_ * dz * (2 * r * r + dr * dr / 2); below = PI_ * (dr * dr / 2 - r * dr + r * r); i = 0; }
  else if (r <= dr) v1 = u;
  double above = PI_ * (hi * hi - rb * rb), zl = (k + 1) * dz - z, zr = z - k * dz;
  auto add = [&](int a, int b, double x) { if (a < (int)m.size() && b < (int)m[0].size()) m[a][b] += v / v0 * x; };
  add(i, k, below * zl / v1); add(i + 1, k, above * zl / v2); add(i, k + 1, below * zr / v1); add(i + 1, k + 1, above * zr / v2);
}
struct Maps { Mat m[6]; Mat tol, soft; }; // soft: weight of the node is rounding noise, its average is not defined
static Maps reference(Sim &s, const string &spn, const vector<Pt> &pts) {
  const double c = constant::LIGHT_VEL, e = constant::EL_CHARGE; int nr = s.g->cell_amount[0], nz = s.g->cell_amount[1]; double dr = s.g->cell_size[0], dz = s.g->cell_size[1]; Mat zero(nr, vector<double>(nz, 0.));
  Maps M; for (auto &x : M.m) x = zero; M.tol = M.soft = zero; double mass = 0; for (auto q : s.d(0, 0)->species_p) if (q->name == spn) mass = q->mass;
  std::map<Domain *, Mat[5]> per; s.each([&](Domain *d, int, int) { for (auto &x : per[d]) x = zero; });
  for (auto &p : pts) if (p.sp == spn) { Domain *d = s.owner((int)floor(p.r / dr), (int)floor(p.z / dz)); double v2 = p.vr * p.vr + p.vp * p.vp + p.vz * p.vz, ga = sqrt(v2) > REL_LIMIT ? 1 / sqrt(1 - v2 / c / c) : 1, q = mass * p.w * ga;
    scatter(M.m[0], p.r, p.z, dr, dz, p.w); double vals[5] = {p.w, q * sqrt(v2), q * p.vr, q * p.vp, q * p.vz}; for (int n = 0; n < 5; ++n) scatter(per[d][n], p.r, p.z, dr, dz, vals[n]); }
  auto en = [&](double p2) { return (p2 > (double)REL_LIMIT * REL_LIMIT * mass * mass ? sqrt(p2 * c * c + mass * c * c * mass * c * c) - mass * c * c : p2 / 2 / mass) / e; };
  s.each([&](Domain *d, int, int) { auto &cd = d->geometry.cell_dims; Mat *a = per[d]; for (size_t i = cd[0]; i < cd[2]; ++i) for (size_t k = cd[1]; k < cd[3]; ++k) { double n = a[0][i][k]; double near = 0; for (auto &p : pts) if (p.sp == spn && s.owner((int)floor(p.r / dr), (int)floor(p.z / dz)) == d && fabs(p.r / dr - i) < 1 + 1e-9 && fabs(p.z / dz - k) < 1 + 1e-9) near = std::max(near, p.w / (2 * 3.14159 * dr * dz * std::max(p.r, dr / 4) * (2. * i + 2) * 3.14159 * dz * dr * dr) * 3.14159 * dz * dr * dr);
    if (n < near * 1e-9) { M.soft[i][k] = 1e300; continue; } if (n == 0) continue;
    double pa = a[1][i][k] / n, x = a[2][i][k] / n, y = a[3][i][k] / n, z = a[4][i][k] / n; M.m[2][i][k] = en(pa * pa); double t = pa * pa - x * x - y * y - z * z; M.m[1][i][k] = en(t); M.tol[i][k] = 1e-9 * pa * pa / 2 / mass / e; M.m[3][i][k] = x; M.m[4][i][k] = y; M.m[5][i][k] = z; } });
  return M;
}
static void place(Sim &s, const vector<Pt> &pts) { s.each([&](Domain *d, int, int) { for (auto q : d->species_p) { for (auto p : q->particles) delete p; q->particles.clear(); } }); for (auto &p : pts) if (!s.put(p.sp, p.r, p.z, p.vr, p.vp, p.vz, p.w)) throw std::runtime_error("harness: particle out of area"); }
static void maps_check(Out &o, const vector<Probe> &ps, const vector<Pt> &pts, size_t step) {
  std::map<string, Maps> ref;
  for (auto &p : ps) { if (step % p.schedule) continue; if (!ref.count(p.specie)) ref[p.specie] = reference(o.s, p.specie, pts); Maps &M = ref[p.specie]; int c = 0; while (p.component != MAPS[c]) ++c; double mx = 0; for (auto &x : M.m[c]) for (double y : x) mx = std::max(mx, fabs(y));
    o.check_dims(p, step / p.schedule + 1); o.check_frame(p, step / p.schedule, [&](int i, int k) { return M.m[c][i][k]; }, 1e-9, [&](int i, int k) { return c && M.soft[i][k] ? M.soft[i][k] : c == 1 ? M.tol[i][k] : c >= 3 ? mx * 1e-12 : c == 0 ? mx * 1e-13 : 0.; }); R().count("maps", 1); }
}
static vector<Pt> crowd(int kind, const Spec &sp) {
  vector<Pt> v; double dr = sp.R / sp.nr, dz = sp.Z / sp.nz; const char *names[3] = {"electrons", "ions", "beam_b"}; double speeds[4] = {1e6, 4.9e7, 5.1e7, 2.9e8}; unsigned h = 17 + kind * 101; auto rnd = [&]() { h = h * 1664525u + 1013904223u; return (h >> 8) / double(1 << 24); };
  int n = kind == 0 ? 0 : kind == 1 ? 2 : 40; for (int i = 0; i < n; ++i) { double a = rnd() * 6.28, b = rnd() * 6.28, u = speeds[kind == 2 ? 0 : i % 4]; v.push_back({names[i % (kind == 1 ? 1 : 3)], (0.01 + rnd() * 0.97 * (sp.nr - 0.02)) * dr, (0.01 + rnd() * 0.97 * (sp.nz - 0.02)) * dz, u * cos(a) * cos(b), u * sin(a) * cos(b), u * sin(b), 1 + (double)(i % 5) * 1e6}); }
  if (kind >= 3) for (int i = 0; i < 6; ++i) { Pt p = v[i]; p.vr = -p.vr; p.w *= 3; v.push_back(p); } // opposite streams at the same place
  return v;
}
static void maps(Runner &r) {
  struct Gd { int dr, dz; double cr, cz; }; vector<Gd> gs{{1, 1, 1, 1}, {2, 2, 1, 1}, {4, 4, 1, 1}, {1, 4, 0.1, 0.3}, {4, 1, 0.001, 0.0007}, {4, 2, 0.1, 0.3}};
  vector<double> fr = r.thorough ? vector<double>{0, 1e-6, 0.125, 0.3, 0.5, 0.625, 0.75, 0.9, 1 - 1e-6} : vector<double>{0, 0.25, 0.5, 0.75, 1 - 1e-6};
  vector<std::array<double, 3>> vs{{1e6, 0, 0}, {0, -3e6, 4e6}, {4.9e7, 0, 0}, {3e7, 3e7, -3e7}, {0, 1e8, 2.7e8}, {0, 0, 0}};
  for (auto g : gs) {
    Spec sp; sp.R = g.cr * 8; sp.Z = g.cz * 8; sp.dr = g.dr; sp.dz = g.dz; sp.species.push_back(Specie{"gas", 0, 7000, 1e14, 1}); sp.beams.push_back(Beam()); sp.beams[0].name = "b"; sp.beams[0].radius = sp.R / 4; sp.beams[0].length = sp.Z / 2; string base = fmt("domains=%dx%d cell=%gx%g ", g.dr, g.dz, g.cr, g.cz);
    vector<Probe> six; for (auto c : MAPS) six.push_back(P(c, "rec", 1, 0, 0, 8, 8));
    // one particle everywhere
    for (int ci = 0; ci < 8; ++ci) for (double fi : fr) R().run(base + fmt("particle row=%d+%g", ci, fi), [=]() { Spec q = sp; q.probes = six; Out o(q); size_t st = 0;
      for (int ck = 0; ck < 8; ++ck) for (double fk : fr) { auto &v = vs[(st + ci) % vs.size()]; vector<Pt> pts{{"electrons", (ci + fi) * g.cr, (ck + fk) * g.cz, v[0], v[1], v[2], 1 + (double)(st % 3) * 1e7}}; if (floor(pts[0].r / o.s.g->cell_size[0]) > 7 || floor(pts[0].z / o.s.g->cell_size[1]) > 7) continue;
        place(o.s, pts); o(); maps_check(o, q.probes, pts, st); R().state(Dig()(pts[0].r)(pts[0].z)(base).h); o.next(); ++st; } R().sample(fmt("%zu places, all six maps compared with the reference", st)); });
    // crowds: every subset of the maps, every order of two, several species, schedules and regions
    for (int kind = 0; kind < (r.thorough ? 12 : 5); ++kind) {
      R().run(base + fmt("crowd=%d subsets", kind), [=]() { auto pts = crowd(kind, sp); for (int mask = 1; mask < 64; ++mask) for (int rev = 0; rev < 2; ++rev) { Spec q = sp; for (int n = 0; n < 6; ++n) if (mask >> n & 1) q.probes.push_back(six[n]); if (rev) std::reverse(q.probes.begin(), q.probes.end()); Out o(q); for (size_t st = 0; st < 2; ++st) { place(o.s, pts); o(); maps_check(o, q.probes, pts, st); o.next(); } o.only(q.probes); R().state(Dig()((long)mask)((long)rev)((long)kind)(base).h); } });
      R().run(base + fmt("crowd=%d pairs of species and schedules", kind), [=]() { for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int s2 = 1; s2 <= 3; ++s2) for (auto spn : {"electrons", "ions", "beam_b", "gas"}) { Spec q = sp; Probe x = six[a], y = six[b]; y.schedule = s2; y.specie = spn; if (x.component == y.component && x.specie == y.specie) continue; q.probes = {x, y}; Out o(q); for (size_t st = 0; st < 4; ++st) { auto pts = crowd((kind + (int)st) % 5, sp); place(o.s, pts); o(); maps_check(o, q.probes, pts, st); o.next(); } } });
      R().run(base + fmt("crowd=%d regions", kind), [=]() { auto pts = crowd(kind, sp); Spec q = sp; for (auto c : MAPS) for (auto spn : {"electrons", "ions", "beam_b"}) { for (int k = 0; k < 8; ++k) { q.probes.push_back(P(c, "col", 1, 0, k, 0, 0, spn)); q.probes.push_back(P(c, "row", 1, k, 0, 0, 0, spn)); for (int i = 0; i < 8; ++i) q.probes.push_back(P(c, "dot", 1, i, k, 0, 0, spn)); } q.probes.push_back(P(c, "rec", 1, 1, 3, 7, 6, spn)); q.probes.push_back(P(c, "rec", 1, 3, 1, 4, 8, spn)); } Out o(q); place(o.s, pts); o(); maps_check(o, q.probes, pts, 0); });
    }
    // absent specie
    R().run(base + "absent specie", [=]() { for (auto c : MAPS) { Spec q = sp; q.probes = {P(c, "rec", 1, 0, 0, 8, 8, "nobody"), P("density", "rec", 1, 0, 0, 8, 8)}; Out o(q); auto pts = crowd(3, sp); place(o.s, pts); o(); maps_check(o, {q.probes[1]}, pts, 0); for (unsigned w : o.ds(q.probes[0]).writes) if (w) R().fail_stop("absent", "values written for a specie that does not exist"); } });
  }
}

int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) { string m = r.rest.empty() ? "" : r.rest[0]; if (m == "--schedule") schedules(r); else if (m == "--regions") regions(r); else maps(r); });
}
