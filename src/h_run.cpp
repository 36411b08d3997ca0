// C24: complete runs of the real main program, observed at every step
#define HL_RANDOM
#include "hlib.hpp"
using namespace hl;
extern int picopic_main(int, char **);
extern "C" void omp_set_num_threads(int) {} // thread counts are the subject of C01
static const double PI_ = 3.14159265358979323846, EPS = constant::EPSILON0, C = constant::LIGHT_VEL;
struct Pos { double r, z, w; int sp; };
typedef std::map<double, Pos> Set; // by weight: every macroparticle gets its own one
static struct Run {
  bool on = false; Sim s; Spec sp; SMB *smb = nullptr; long fields = 0, moves = 0, currents = 0, left = 0, reflected = 0, crossed = 0, injected = 0; int nl = 0, nrr = 0, no = 0; bool started = false, stopped = false;
  vector<double> base; double qtot = 0; Set before; std::map<int, double> charge; double next = 1; std::map<double, double> tag; bool gauss = true; long nodes = 0; string why[2]; vector<long> beam; vector<double> sure, maybe;
} rn;
static void bad(const string &k, const string &m) { if (!rn.stopped) rn.why[0] = k, rn.why[1] = m; rn.stopped = true; } // reported at the end, if all phases were observed
static void scan(const std::function<void(Domain *, SpecieP *, Particle *, int)> &f) { rn.s.each([&](Domain *d, int, int) { int n = 0; for (auto sp : d->species_p) { for (auto p : sp->particles) f(d, sp, p, n); ++n; } }); }
static void bind(void *p) { // first use of the shared memory block
  if (rn.smb) return; rn.smb = (SMB *)p; rn.s.smb = rn.smb; rn.s.cfg = rn.smb->cfg; rn.s.g = rn.smb->geometry; rn.s.t = rn.s.cfg->time; auto &sp = rn.sp;
  rn.nl = (int)floor(sp.pml_left * sp.nz + 1e-9); rn.nrr = (int)floor(sp.pml_right * sp.nz + 1e-9); rn.no = (int)floor(sp.pml_outer * sp.nr + 1e-9);
#ifdef VERIF_NO_PML
  rn.nl = rn.nrr = rn.no = 0;
#endif
}
// new particles get a weight of their own (the relative change is below 1e-4)
static void label() { scan([&](Domain *, SpecieP *, Particle *p, int) { if (rn.tag.count(p->weight)) return; p->weight *= 1 + 1e-8 * rn.next; rn.next += 1; while (rn.tag.count(p->weight)) p->weight *= 1 + 1e-9; rn.tag[p->weight] = 1; }); }
static void assign(vector<double> &q, const Pos &p, double f) { // charge assignment of the current deposition (volume weighting)
  double r = p.r / rn.s.g->cell_size[0], z = p.z / rn.s.g->cell_size[1]; int i = (int)floor(r), k = (int)floor(z), nz = rn.sp.nz + 2; double fz = z - k, fr = ((i + .5) * (i + .5) - (r - .5) * (r - .5)) / (2 * r), c = f * p.w * rn.charge[p.sp];
  if (r < .5) { bad("position", fmt("particle at radius %g cells is out of the walls", r)); return; }
  auto add = [&](int a, int b, double v) { if (a >= 0 && b >= 0 && a < rn.sp.nr + 2 && b < nz) q[a * nz + b] += v; };
  add(i, k, c * fr * (1 - fz)); add(i + 1, k, c * (1 - fr) * (1 - fz)); add(i, k + 1, c * fr * fz); add(i + 1, k + 1, c * (1 - fr) * fz);
}
static Set all() { Set m; scan([&](Domain *, SpecieP *sp, Particle *p, int n) { rn.charge[n] = sp->charge; if (!m.insert({p->weight, Pos{p->pos_r, p->pos_z, p->weight, n}}).second) bad("duplicate", fmt("step %ld: macroparticle is present twice", rn.moves)); }); return m; }
static vector<double> rho(const Set &m) { vector<double> q((rn.sp.nr + 2) * (rn.sp.nz + 2)); for (auto &p : m) assign(q, p.second, 1); return q; }
static vector<double> flux() { // electric flux out of the volume of every node
  auto e = global(rn.s, F_E); int nr = rn.sp.nr, nz = rn.sp.nz; double dr = rn.s.g->cell_size[0], dz = rn.s.g->cell_size[1]; vector<double> d(nr * nz);
  auto E = [&](int c, int i, int k) { return i < 0 || k < 0 ? 0. : e[(c * nr + i) * nz + k]; };
  for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k) { double A = i == 0 ? PI_ * dr * dr / 4 : 2 * PI_ * i * dr * dr; d[i * nz + k] = EPS * (2 * PI_ * dr * dz * ((i + .5) * E(0, i, k) - (i > 0 ? (i - .5) * E(0, i - 1, k) : 0)) + A * (E(2, i, k) - E(2, i, k - 1))); }
  return d;
}
static bool layer(int i, int k) { return k < rn.nl || rn.sp.nz - k < rn.nrr || rn.sp.nr - i < rn.no; }
extern "C" {
void __real__ZN3SMB10distributeEv(void *); void __wrap__ZN3SMB10distributeEv(void *p) { __real__ZN3SMB10distributeEv(p); if (!rn.on) return; bind(p); label(); }
static void begin(void *p) { if (rn.started) return; rn.started = true; bind(p); label(); Set m = all(); vector<double> q = rho(m), f = flux(); rn.base.assign(f.size(), 0); for (int i = 0; i < rn.sp.nr; ++i) for (int k = 0; k < rn.sp.nz; ++k) rn.base[i * rn.sp.nz + k] = f[i * rn.sp.nz + k] - q[i * (rn.sp.nz + 2) + k]; rn.before = m; for (auto &x : m) rn.qtot += fabs(x.second.w * rn.charge[x.second.sp]); }
static void shift(const Pos &p, double f) { vector<double> q((rn.sp.nr + 2) * (rn.sp.nz + 2)); assign(q, p, f); for (int i = 0; i < rn.sp.nr; ++i) for (int k = 0; k < rn.sp.nz; ++k) rn.base[i * rn.sp.nz + k] += q[i * (rn.sp.nz + 2) + k]; }
// particles that appeared since the last look, without current
// particles of beams so far, by the configuration (single steps at the ends of bunches can slip by rounding)
static void injected() { auto &bs = rn.sp.beams; size_t nb = bs.size(); if (!nb || rn.stopped) return; rn.beam.resize(nb); rn.sure.resize(nb); rn.maybe.resize(nb); double dt = rn.s.t->step, t = rn.fields * dt;
  for (size_t b = 0; b < nb; ++b) { auto &bm = bs[b]; auto &cb = rn.s.cfg->particle_beams[b]; double per = (double)cb.macro_amount / bm.amount * bm.velocity * dt / bm.length; bool in = false, edge = false; for (int k = 0; k < (int)bm.amount; ++k) { double b0 = bm.start_time + (bm.length + bm.distance) / bm.velocity * k, b1 = b0 + bm.length / bm.velocity; in = in || (t >= b0 && t < b1); edge = edge || fabs(t - b0) < 1e-6 * dt || fabs(t - b1) < 1e-6 * dt; }
    if (in && !edge) rn.sure[b] += per; if (in || edge) rn.maybe[b] += per; double n = rn.beam[b], tol = rn.s.smb->r_domains + 1e-6; if (!(n >= rn.sure[b] - tol && n <= rn.maybe[b] + tol)) bad("injected", fmt("step %ld: %g macroparticles of beam %zu are injected so far, %g..%g expected", rn.fields, n, b, rn.sure[b], rn.maybe[b])); } }
static void appear() { label(); Set m = all(); for (auto &x : m) if (!rn.before.count(x.first)) { shift(x.second, -1); ++rn.injected; int id = rn.s.d(0, 0)->species_p[x.second.sp]->id; for (size_t b = 0; b < rn.sp.beams.size(); ++b) if (rn.s.cfg->particle_beams[b].id == id) { rn.beam.resize(rn.sp.beams.size()); ++rn.beam[b]; } rn.qtot += fabs(x.second.w * rn.charge[x.second.sp]); } for (auto &x : rn.before) if (!m.count(x.first)) bad("lost", fmt("step %ld: macroparticle of specie %d at (%g,%g) disappeared between the steps", rn.moves, x.second.sp, x.second.r, x.second.z)); else { auto &y = m[x.first]; if (y.r != x.second.r || y.z != x.second.z || y.sp != x.second.sp) bad("moved", fmt("step %ld: macroparticle moved between the steps", rn.moves)); } rn.before = m; }
void __real__ZN3SMB11inject_beamEv(void *); void __wrap__ZN3SMB11inject_beamEv(void *p) { if (rn.on) begin(p); __real__ZN3SMB11inject_beamEv(p); if (rn.on) appear(); }
void __real__ZN3SMB13solve_maxvellEv(void *); void __wrap__ZN3SMB13solve_maxvellEv(void *p) {
  if (rn.on) { begin(p); appear(); injected(); } __real__ZN3SMB13solve_maxvellEv(p); if (!rn.on) return; ++rn.fields; if (rn.stopped) return; R().count("transitions", 1);
  if (!rn.gauss) { R().state(Dig()(global(rn.s, F_E)).h); return; }
  vector<double> q = rho(rn.before), f = flux(); int nr = rn.sp.nr, nz = rn.sp.nz; R().state(Dig()(f)(q).h);
  for (int i = 0; i < nr - 1; ++i) for (int k = 1; k < nz - 1; ++k) { if (i == 0 && k == 1) continue; if (layer(i, k) || layer(i, k - 1) || (i > 0 && layer(i - 1, k))) continue; ++rn.nodes; R().count("nodes_checked", 1);
    double d = f[i * nz + k] - q[i * (nz + 2) + k] - rn.base[i * nz + k]; if (!(fabs(d) <= 1e-9 * rn.qtot)) { bad("gauss", fmt("step %ld: node (%d,%d): charge by the electric flux differs from the charge of the particles by %.6g (all charges: %.6g)", rn.fields - 1, i, k, d, rn.qtot)); return; } }
}
void __real__ZN3SMB17advance_particlesEv(void *); void __wrap__ZN3SMB17advance_particlesEv(void *p) {
  if (rn.on) { begin(p); appear(); } __real__ZN3SMB17advance_particlesEv(p); if (!rn.on) return; ++rn.moves; if (rn.stopped) return; auto *g = rn.s.g; double dt = rn.s.t->step, cr = g->cell_size[0], cz = g->cell_size[1], R0 = g->global_size[0], Z0 = g->global_size[1]; Set m = all(); vector<string> names; for (auto sp : rn.s.d(0, 0)->species_p) names.push_back(sp->name);
  auto beam = [&](int n) { return names[n].find("beam_") == 0; };
  for (auto &x : rn.before) if (!m.count(x.first)) { auto &o = x.second; ++rn.left; bool edge = beam(o.sp) && (o.z > Z0 - 2 * cz || o.r > R0 - 2 * cr || o.z < 2 * cz); if (!edge) { bad("lost", fmt("step %ld: macroparticle of %s at (%g,%g) cells is lost", rn.moves, names[o.sp].c_str(), o.r / cr, o.z / cz)); return; } shift(o, 1); }
  for (auto &x : m) if (!rn.before.count(x.first)) { bad("created", fmt("step %ld: macroparticle was created in the particle step", rn.moves)); return; }
  scan([&](Domain *d, SpecieP *, Particle *p, int n) { if (rn.stopped) return; auto &o = rn.before[p->weight]; R().count("particles_checked", 1);
    if (o.sp != n) { bad("specie", fmt("step %ld: macroparticle of %s became one of %s", rn.moves, names[o.sp].c_str(), names[n].c_str())); return; }
    double v = sqrt(p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z); if (!(v < 3 * C)) { bad("speed", fmt("step %ld: speed %g", rn.moves, v)); return; }
    if (!(p->pos_r > 0 && p->pos_r < R0 && p->pos_z > 0 && p->pos_z < Z0)) { bad("position", fmt("step %ld: macroparticle of %s is out of the area at (%g,%g) cells", rn.moves, names[n].c_str(), p->pos_r / cr, p->pos_z / cz)); return; }
    int ci = (int)floor(p->pos_r / cr), ck = (int)floor(p->pos_z / cz); if (rn.s.owner(ci, ck) != d) { double fr = p->pos_r / cr - ci, fz = p->pos_z / cz - ck; if (std::min(std::min(fr, 1 - fr), std::min(fz, 1 - fz)) > 1e-9) { bad("owner", fmt("step %ld: macroparticle at (%.12g,%.12g) cells is in a foreign domain", rn.moves, p->pos_r / cr, p->pos_z / cz)); return; } }
    if (ci != (int)floor(o.r / cr) || ck != (int)floor(o.z / cz)) ++rn.crossed;
    // the move back, with all possible reflections
    bool ok = false; double best = 1e300; int how = 0; double rw[3] = {0, cr / 2, R0 - cr / 2}, zw[3] = {0, cz / 2, Z0 - cz / 2};
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double r = a ? 2 * rw[a] - p->pos_r : p->pos_r, vr = a ? -p->vel_r : p->vel_r, z = b ? 2 * zw[b] - p->pos_z : p->pos_z, vz = b ? -p->vel_z : p->vel_z; double e = hypot(hypot(r - vr * dt, p->vel_phi * dt) - o.r, z - vz * dt - o.z); if (e < best) best = e, how = a || b; if (e <= 1e-9 * (R0 + Z0)) ok = true; }
    if (how && ok) ++rn.reflected;
    if (!ok) { bad("move", fmt("step %ld: macroparticle of %s moved from (%.9g,%.9g) to (%.9g,%.9g) cells, which is not one step of its velocity (%g,%g,%g)", rn.moves, names[n].c_str(), o.r / cr, o.z / cz, p->pos_r / cr, p->pos_z / cz, p->vel_r, p->vel_phi, p->vel_z)); return; } });
  rn.before = m;
}
void __real__ZN3SMB13solve_currentEv(void *); void __wrap__ZN3SMB13solve_currentEv(void *p) { __real__ZN3SMB13solve_currentEv(p); if (rn.on) ++rn.currents; }
}
static void execute(const Spec &s, unsigned sd, bool gauss, const string &what) {
  rn = decltype(rn)(); rn.sp = s; rn.on = true; rn.gauss = gauss; seed() = sd; auto &w = h5stub::world(); w.reset();
  string root = R().scratch + fmt("/r%d", getpid()), cf = root + "/cfg.json"; mkdir(root.c_str(), 0755); Spec t = s; t.data_root = root; std::ofstream(cf) << t.json();
  char a0[] = "picopic", a1[] = "-f"; vector<char> f(cf.begin(), cf.end()); f.push_back(0); char *av[] = {a0, a1, f.data(), nullptr}; int rc = -1;
  string why; bool seen = false; try { rc = picopic_main(3, av); } catch (verif::Fatal &e) { why = e.text; } for (int x : {SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGQUIT, SIGPIPE, SIGTSTP, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGSEGV}) signal(x, SIG_DFL);
  rn.on = false; if (rc) R().fail_stop("run", what + ": run failed: " + why); seen = rn.fields && rn.moves && rn.currents; if (rn.stopped && seen) R().fail_stop(rn.why[0], rn.why[1]);
  // number of steps
  double x = s.t_end / s.step; long lo = (long)floor(x * (1 - 1e-6)) + 1, hi = (long)floor(x * (1 + 1e-6)) + 1; auto it = w.files.find(root + "/data.h5"); if (it == w.files.end()) R().fail_stop("frames", "there is no data file");
  auto ds = it->second->datasets.begin(); while (ds != it->second->datasets.end() && ds->first.find("E/z") == string::npos) ++ds; if (ds == it->second->datasets.end()) R().fail_stop("frames", "there is no data"); long frames = ds->second.dims[0];
  if (frames < lo || frames > hi) R().fail_stop("steps", what + fmt(": %ld frames are written, %ld..%ld steps of %g fit to the end time %g", frames, lo, hi, s.step, s.t_end));
  if (!seen) { R().count("unobserved_runs", 1); rn.fields = 0; return; } // a phase has another name
  if (rn.fields != frames || rn.moves != frames || rn.currents != frames) R().fail_stop("steps", what + fmt(": %ld frames, but %ld field, %ld particle and %ld current steps", frames, rn.fields, rn.moves, rn.currents));
  R().count("runs", 1); R().count("wall_reflections", rn.reflected); R().count("cell_crossings", rn.crossed); R().count("beam_particles", rn.injected); R().count("particles_left", rn.left);
}
static Spec spec(int nr, int nz, int dr, int dz, double steps) { Spec s; s.nr = nr; s.nz = nz; s.dr = dr; s.dz = dz; s.R = nr * 1e-3; s.Z = nz * 1.25e-3; s.step = 0.35e-3 / C; s.t_end = s.step * (steps - .5); s.macro_amount = 200; for (auto &x : s.species) { x.density = 1e15; x.temperature = 5e3; } Probe p; p.component = "E/z"; p.shape = "dot"; p.r0 = 1; p.z0 = 1; p.with_specie = false; s.probes.push_back(p); return s; }
int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    r.per_child = 1; bool G = true; // a process for every run: the random generator starts anew
#if defined(SWITCH_CCS_ZIGZAG)
    G = false; // volumes of this scheme belong to the particle: no law at nodes
#endif
    int SEEDS = getenv("SEEDS") ? atoi(getenv("SEEDS")) : r.thorough ? 10 : 1; int steps = r.thorough ? 60 : 16; struct Gd { int nr, nz; }; vector<Gd> gs{{8, 8}, {8, 16}, {16, 8}}; if (r.thorough) { gs.push_back({12, 12}); gs.push_back({16, 24}); }
    static const struct { double T, n; } pl[] = {{1, 1e13}, {5e3, 1e15}, {1e5, 1e14}};
    for (auto g : gs) for (int dr : {1, 2, 4}) for (int dz : {1, 2, 4}) for (int k = 0; k < 3; ++k) for (int beam = 0; beam < 4; ++beam) for (int pml = 0; pml < 2; ++pml) for (int sd = 0; sd < SEEDS; ++sd) {
      if (!r.thorough && (g.nr != g.nz || beam == 3) && (k + beam + pml) % 2) continue;
#if defined(SWITCH_PLASMA_VELOCITY_EIGEN) || defined(SWITCH_PLASMA_VELOCITY_RECTANGULAR)
      if (k == 2) continue;
#endif
      R().run(fmt("grid %dx%d domains %dx%d plasma %d beams %d layers %d generator %d", g.nr, g.nz, dr, dz, k, beam, pml, sd), [=]() {
        Spec s = spec(g.nr, g.nz, dr, dz, steps); for (auto &x : s.species) { x.temperature = pl[k].T; x.density = pl[k].n; } if (pml) { s.pml_left = s.pml_right = s.pml_outer = 0.25; s.s1 = 1e-3; s.s2 = 1; }
        if (beam) { Beam b; b.velocity = 2.5e8; b.radius = 5.3e-3; b.length = 1e-3; b.amount = std::min(beam, 2); b.distance = 5e-4; b.density = 1e14; s.beams.push_back(b); if (beam >= 2) { b.name = "positrons"; b.charge = 1; b.radius = 3e-3; b.start_time = 6 * s.step; s.beams.push_back(b); } if (beam == 3) std::swap(s.beams[0], s.beams[1]); }
        execute(s, 17 + k + 1000 * sd, G, "run"); if (rn.gauss && rn.fields && rn.nodes < 10) R().fail("vacuous", "no node was checked"); R().sample(fmt("%ld steps, %ld reflections, %ld cell changes, %ld injected, %ld left", rn.moves, rn.reflected, rn.crossed, rn.injected, rn.left));
      }); }
    // few particles: domains become empty and get particles again
    for (int dr : {1, 2, 4}) for (int dz : {1, 2, 4}) for (int n : {2, 8, 24}) for (int beam = 0; beam < 2; ++beam) for (int sd = 0; sd < 3 * SEEDS; ++sd) R().run(fmt("few %d domains %dx%d beams %d generator %d", n, dr, dz, beam, sd), [=]() {
      Spec s = spec(8, 8, dr, dz, 2 * steps); s.macro_amount = n; for (auto &x : s.species) { x.temperature = 5e4; x.density = 1e12; } if (beam) { Beam b; b.velocity = 2e8; b.radius = 4e-3; b.length = 6e-3; b.amount = 2; b.distance = 2e-3; b.density = 1e12; s.beams.push_back(b); } execute(s, 3 + 7 * sd, G, "few"); });
    // length of the run
    for (double st : {1e-12, 3e-13, 7e-14, 1. / 3 * 1e-12}) for (double n : {0., .5, 1., 1.5, 2., 3., 4.99, 5., 7., 10., 10.5, 31.}) for (int sch : {1, 3}) R().run(fmt("length %g steps of %g schedule %d", n, st, sch), [=]() { Spec s = spec(4, 4, 1, 1, 1); s.step = st; s.t_end = st * n; s.macro_amount = 8; if (sch > 1) { Probe q; q.component = "E/r"; q.shape = "dot"; q.with_specie = false; q.schedule = sch; s.probes.push_back(q); } execute(s, 5, G, "length"); });
  });
}
