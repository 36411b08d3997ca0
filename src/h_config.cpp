// C17: configuration is taken as written, or rejected. C18 (--ids): identities of species and beams
#include "hlib.hpp"
using namespace hl;
typedef picojson::value V;

struct Load { Cfg *c = nullptr; string err; bool ok() const { return c != nullptr; } };
static Load load(const string &json) { Load l; R().count("transitions", 1); try { l.c = new Cfg(write_cfg(json)); } catch (verif::Fatal &e) { l.err = "fatal: " + e.text; } catch (std::exception &e) { l.err = string("exception: ") + e.what(); } return l; }
static void refused(const string &what, const string &json) { Load l = load(json); if (l.ok()) R().fail_stop("accepted", what + ": accepted instead of being refused"); delete l.c; }
static bool near_int(double x) { return fabs(x - round(x)) < 1e-6; }
static bool same_amount(double got, double exact) { return got == floor(exact) || (near_int(exact) && fabs(got - round(exact)) <= 1); }

static void compare(const Spec &s, bool twice = true) {
  Load l = load(s.json()); if (!l.ok()) R().fail_stop("refused", "valid configuration is refused: " + l.err); Cfg &c = *l.c; R().state(Dig()(s.json()).h);
#define EQ(name, got, exp) do { auto g_ = (got); auto e_ = (exp); if (!(g_ == e_)) { std::ostringstream o_; o_ << std::setprecision(17) << name << " is " << g_ << ", configured " << e_; R().fail_stop("value", o_.str()); } } while (0)
  EQ("macro_amount", c.macro_amount, s.macro_amount); EQ("ratio", (double)c.beam_macro_ratio, s.ratio); EQ("log_file", string(c.log_file), s.log_file); EQ("data_root", string(c.output_data->data_root), s.data_root);
  Geometry &g = *c.geometry; EQ("radius", g.size[0], s.R); EQ("longitude", g.size[1], s.Z); EQ("global radius", g.global_size[0], s.R); EQ("global longitude", g.global_size[1], s.Z); EQ("grid r", (int)g.cell_amount[0], s.nr); EQ("grid z", (int)g.cell_amount[1], s.nz); EQ("global grid r", (int)g.global_cell_amount[0], s.nr); EQ("global grid z", (int)g.global_cell_amount[1], s.nz);
  for (int q = 0; q < 4; ++q) { EQ("cell_dims", (int)g.cell_dims[q], q == 2 ? s.nr : q == 3 ? s.nz : 0); EQ("walls", (bool)g.walls[q], true); }
  if (!hl::close(g.cell_size[0], s.R / s.nr, 1e-14) || !hl::close(g.cell_size[1], s.Z / s.nz, 1e-14)) R().fail_stop("value", "cell size");
  EQ("domains r", (int)g.domains_amount[0], s.dr); EQ("domains z", (int)g.domains_amount[1], s.dz);
  double pm[4] = {0, s.pml_left * s.nz, s.pml_outer * s.nr, s.pml_right * s.nz}; for (int q = 0; q < 4; ++q) if (!same_amount((double)g.pml_size[q], pm[q])) R().fail_stop("value", fmt("absorbing layer %d is %zu cells, configured %g", q, (size_t)g.pml_size[q], pm[q]));
  EQ("sigma 1", g.pml_sigma[0], s.s1); EQ("sigma 2", g.pml_sigma[1], s.s2);
  EQ("start", c.time->start, s.t_start); EQ("end", c.time->end, s.t_end); EQ("step", c.time->step, s.step); EQ("current", c.time->current, 0.);
  double dr = s.R / s.nr, dz = s.Z / s.nz, norm = (double)s.nr * s.nz * s.species.size(); for (auto &b : s.beams) norm += b.radius / dr * b.length * b.amount / dz * s.ratio; norm = s.macro_amount / norm;
  EQ("species", c.particle_species.size(), s.species.size()); EQ("beams", c.particle_beams.size(), s.beams.size()); std::set<unsigned> ids;
  for (size_t i = 0; i < s.species.size(); ++i) { auto &a = c.particle_species[i]; auto &b = s.species[i]; EQ("name", a.name, b.name); EQ("charge", (double)a.charge, b.charge); EQ("mass", (double)a.mass, b.mass); EQ("left density", a.left_density, b.density); EQ("right density", a.right_density, b.density); EQ("temperature", a.temperature, b.temperature); if (!same_amount(a.macro_amount, s.nr * s.nz * norm)) R().fail_stop("share", fmt("share of %s is %g macroparticles, expected %g", b.name.c_str(), a.macro_amount, s.nr * s.nz * norm)); if (!ids.insert(a.id).second) R().fail_stop("id", "two species share an identifier"); }
  for (size_t i = 0; i < s.beams.size(); ++i) { auto &a = c.particle_beams[i]; auto &b = s.beams[i]; EQ("beam name", a.name, "beam_" + b.name); EQ("beam charge", (double)a.charge, b.charge); EQ("beam mass", (double)a.mass, b.mass); EQ("start time", a.start_time, b.start_time); EQ("velocity", a.velocity, b.velocity); EQ("bunches", (double)a.bunches_amount, b.amount); EQ("distance", a.bunches_distance, b.distance); EQ("length", a.bunch_length, b.length); EQ("radius", a.bunch_radius, b.radius); EQ("beam density", a.density, b.density); EQ("current bunch", a.current_bunch_number, 0u);
    double e = b.radius / dr * b.length * b.amount / dz * norm * s.ratio; if (!same_amount(a.macro_amount, e)) R().fail_stop("share", fmt("share of beam %s is %g macroparticles, expected %g", b.name.c_str(), a.macro_amount, e)); if (!ids.insert(a.id).second) R().fail_stop("id", "species and beams share an identifier"); }
  EQ("probes", c.probes.size(), s.probes.size());
  for (size_t i = 0; i < s.probes.size(); ++i) { auto &a = c.probes[i]; auto &b = s.probes[i]; EQ("component", a.component, b.component); EQ("schedule", (int)a.schedule, b.schedule); if (b.with_specie) EQ("specie", a.specie, b.specie);
    unsigned sh = b.shape == "rec" ? 0 : b.shape == "col" ? 1 : b.shape == "row" ? 2 : 3; EQ("shape", a.shape, sh); if (sh == 0) { EQ("r0", (int)a.dims[0], b.r0); EQ("z0", (int)a.dims[1], b.z0); } if (sh != 1) EQ("r1", (int)a.dims[2], sh == 0 ? b.r1 : b.r0); if (sh != 2) EQ("z1", (int)a.dims[3], sh == 0 ? b.z1 : b.z0); }
  // a second look gives the same (nothing is consumed or shared between configurations)
  if (twice) { compare(s, false); Spec t = s; t.R *= 2; t.species[0].density *= 3; t.probes.clear(); Load l2 = load(t.json()); EQ("first configuration after the second one: radius", c.geometry->size[0], s.R); EQ("probes of the first configuration", c.probes.size(), s.probes.size()); EQ("density of the first configuration", c.particle_species[0].left_density, s.species[0].density); EQ("log file of the first configuration", string(c.log_file), s.log_file); EQ("data_root of the first configuration", string(c.output_data->data_root), s.data_root); delete l2.c; }
  delete l.c;
}
static Spec base() { Spec s; s.R = 0.0375; s.Z = 0.15; s.nr = 8; s.nz = 12; s.dr = 2; s.dz = 2; s.beams.push_back(Beam()); for (auto sh : {"rec", "col", "row", "dot"}) { Probe p; p.shape = sh; p.component = "E/r"; p.r0 = 1; p.z0 = 2; p.r1 = 5; p.z1 = 7; p.schedule = 3; s.probes.push_back(p); } return s; }

// all leaves of the document
struct Leaf { string path; std::function<V *(V &)> at; };
static void walk(const V &v, const string &p, const std::function<V *(V &)> &at, vector<Leaf> &out, vector<Leaf> &inner) {
  if (v.is<picojson::object>()) { if (!p.empty()) inner.push_back({p, at}); for (auto &k : v.get<picojson::object>()) { string n = k.first; walk(k.second, p + "/" + n, [at, n](V &r) { return &at(r)->get<picojson::object>()[n]; }, out, inner); } }
  else if (v.is<picojson::array>()) { inner.push_back({p, at}); size_t i = 0; for (auto &k : v.get<picojson::array>()) { size_t n = i++; walk(k, p + fmt("/%zu", n), [at, n](V &r) { return &at(r)->get<picojson::array>()[n]; }, out, inner); } }
  else out.push_back({p, at});
}
static bool optional_key(const string &p) { return p == "/comment" || p.compare(0, 10, "/data/plot") == 0 || p.compare(0, 16, "/external_fields") == 0 || (p.size() > 7 && p.compare(p.size() - 7, 7, "/specie") == 0); }

static void config(Runner &r) {
  Spec b = base(); bool th = r.thorough;
  // --- accepted values, one by one and in pairs
  struct Dim { const char *n; vector<double> v; std::function<void(Spec &, double)> put; };
  vector<Dim> D{
    {"radius", {1e-4, 0.0375, 0.1, 1, 333.3}, [](Spec &s, double x) { s.R = x; }}, {"longitude", {1e-4, 0.15, 0.3, 1, 77.7}, [](Spec &s, double x) { s.Z = x; }},
    {"nr", {8, 16, 24, 64, 1000}, [](Spec &s, double x) { s.nr = x; }}, {"nz", {12, 16, 48, 256, 3000}, [](Spec &s, double x) { s.nz = x; }},
    {"dr", {1, 2, 4, 8}, [](Spec &s, double x) { s.dr = x; }}, {"dz", {1, 2, 4}, [](Spec &s, double x) { s.dz = x; }},
    {"pml left", {0, 0.05, 0.25, 0.3, 0.5}, [](Spec &s, double x) { s.pml_left = x; }}, {"pml right", {0, 0.05, 0.25, 0.3, 0.5}, [](Spec &s, double x) { s.pml_right = x; }}, {"pml outer", {0, 0.05, 0.25, 0.3, 0.5}, [](Spec &s, double x) { s.pml_outer = x; }},
    {"s1", {0, 1e-5, 1}, [](Spec &s, double x) { s.s1 = x; }}, {"s2", {7e-2, 1.5, 100}, [](Spec &s, double x) { s.s2 = x; }},
    {"start", {0}, [](Spec &s, double x) { s.t_start = x; }}, {"end", {0, 1e-12, 8e-10, 3e-9, 1}, [](Spec &s, double x) { s.t_end = x; }}, {"step", {1e-15, 5e-13, 0.7e-12, 1e-9}, [](Spec &s, double x) { s.step = x; }},
    {"macro", {1, 100, 12345, 5e5, 1e9}, [](Spec &s, double x) { s.macro_amount = x; }}, {"ratio", {1, 2, 3, 10}, [](Spec &s, double x) { s.ratio = x; }},
    {"species", {2, 3, 6}, [](Spec &s, double x) { s.species.resize(2); for (int i = 2; i < x; ++i) s.species.push_back(Specie{fmt("sp%d", i), (double)(i % 3 - 1), 1836. * i, 1e15 * i, 0.1 * i}); }},
    {"beams", {0, 1, 2, 4}, [](Spec &s, double x) { s.beams.clear(); for (int i = 0; i < x; ++i) { Beam q; q.name = fmt("b%d", i); q.charge = i % 2 ? 1 : -1; q.mass = 1 + i * 100; q.start_time = i * 1e-10; q.velocity = 1e8 + i * 3e7; q.amount = 1 + i; q.distance = 0.01 * i; q.length = 0.003 * (i + 1); q.radius = 0.002 * (i + 1); q.density = 1e14 * (i + 1); s.beams.push_back(q); } }},
    {"charge", {-3, -1, 0, 1, 2}, [](Spec &s, double x) { for (auto &q : s.species) q.charge = x; if (!s.beams.empty()) s.beams[0].charge = -x; }}, {"mass", {1, 2, 1836, 400000}, [](Spec &s, double x) { if (s.species.size() > 1) s.species[1].mass = x; if (!s.beams.empty()) s.beams[0].mass = x; }},
    {"density", {1, 1e14, 1e17, 1.05e23}, [](Spec &s, double x) { for (auto &q : s.species) q.density = x; if (!s.beams.empty()) s.beams[0].density = x / 3; }}, {"temperature", {0, 0.1, 1, 1e6}, [](Spec &s, double x) { for (auto &q : s.species) q.temperature = x; }},
    {"velocity", {0.5, 2.8e8, 2.99e8}, [](Spec &s, double x) { if (!s.beams.empty()) s.beams[0].velocity = x; }}, {"bunches", {1, 2, 200}, [](Spec &s, double x) { if (!s.beams.empty()) s.beams[0].amount = x; }}, {"bunch", {0.0056, 0.1}, [](Spec &s, double x) { if (!s.beams.empty()) { s.beams[0].length = x; s.beams[0].radius = x / 7; s.beams[0].distance = x * 3; s.beams[0].start_time = x * 1e-9; } }},
    {"schedule", {1, 10, 255, 256, 65536, 1e9}, [](Spec &s, double x) { for (auto &p : s.probes) p.schedule = (int)x; }}, {"probes", {0, 1, 4}, [](Spec &s, double x) { s.probes.resize((size_t)x); }},
    {"component", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, [](Spec &s, double x) { const char *c[15] = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z", "density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"}; for (auto &p : s.probes) p.component = c[(int)x]; }},
  };
  auto valid = [](const Spec &s) { return s.nr % s.dr == 0 && s.nz % s.dz == 0; };
  for (size_t i = 0; i < D.size(); ++i) for (double x : D[i].v) { Spec s = b; D[i].put(s, x); if (!valid(s)) continue; R().run(fmt("accept %s=%g", D[i].n, x), [=]() { compare(s); });
    for (size_t j = 0; j < D.size(); ++j) if (th ? j != i : j > i) R().run(fmt("accept %s=%g %s=*", D[i].n, x, D[j].n), [=]() { for (double y : D[j].v) { Spec t = s; D[j].put(t, y); if (valid(t)) compare(t); } }); }
  // names of electrons
  for (auto n : {"electrons", "Electrons", "electron", "Electron"}) R().run(string("electrons named ") + n, [=]() { Spec s = b; s.species[0].name = n; s.species[0].mass = 2; compare(s); });
  R().run("electrons by mass", [=]() { Spec s = b; s.species[0].name = "whatever"; compare(s); std::swap(s.species[0], s.species[1]); compare(s); });
  R().run("no electrons", [=]() { Spec s = b; s.species[0].mass = 3; s.species[0].name = "positrons"; refused("no electrons", s.json()); s.species.erase(s.species.begin()); refused("ions only", s.json()); s.species.clear(); refused("no species", s.json()); });
  // --- refused
  R().run("repeated names", [=]() { Spec s = b; s.species.push_back(s.species[0]); refused("repeated specie", s.json()); s = b; s.species.push_back(s.species[1]); s.species.back().density = 7; refused("repeated specie", s.json()); s = b; s.beams.push_back(s.beams[0]); refused("repeated beam", s.json()); s = b; Beam q = s.beams[0]; q.name = "x"; s.beams.push_back(q); s.beams.push_back(s.beams[0]); refused("repeated beam", s.json()); });
  for (int nr : {6, 8, 12, 16, 20}) R().run(fmt("domains of a grid of %d cells", nr), [=]() { for (int nz : {6, 8, 10, 12, 18}) for (int dr = -2; dr <= nr + 1; ++dr) for (int dz = -2; dz <= nz + 1; ++dz) { Spec s = b; s.probes.clear(); s.nr = nr; s.nz = nz; s.dr = dr; s.dz = dz; bool ok = (dr == 1 || (dr > 0 && dr % 2 == 0)) && (dz == 1 || (dz > 0 && dz % 2 == 0)) && nr % std::max(dr, 1) == 0 && nz % std::max(dz, 1) == 0; if (ok) compare(s, false); else refused(fmt("domains %dx%d of the grid %dx%d", dr, dz, nr, nz), s.json()); } });
  for (auto sh : {"rec", "col", "row", "dot"}) { string shs = sh; int n = 6;
    R().run("places of " + shs, [=]() { Spec s = b; s.nr = 4; s.nz = n; s.beams.clear(); for (int r0 = -1; r0 <= 5; ++r0) for (int z0 = -1; z0 <= n + 1; ++z0) for (int r1 = -1; r1 <= (shs == "rec" ? 5 : -1); ++r1) for (int z1 = -1; z1 <= (shs == "rec" ? n + 1 : -1); ++z1) { Probe p; p.shape = shs; p.r0 = r0; p.z0 = z0; p.r1 = r1; p.z1 = z1; s.probes = {p};
      bool ok = shs == "rec" ? r0 >= 0 && z0 >= 0 && r0 < r1 && z0 < z1 && r1 <= 4 && z1 <= n : shs == "col" ? z0 >= 0 && z0 < n : shs == "row" ? r0 >= 0 && r0 < 4 : r0 >= 0 && z0 >= 0 && r0 < 4 && z0 < n; if (ok) compare(s, false); else refused(fmt("%s probe (%d,%d)-(%d,%d) of the grid 4x%d", sh, r0, z0, r1, z1, n), s.json()); } });
    for (int sc : {0, -1, -10}) R().run(shs + fmt(" schedule=%d", sc), [=]() { Spec s = b; Probe p; p.shape = shs; p.r0 = p.z0 = 1; p.r1 = p.z1 = 3; p.schedule = sc; s.probes = {p}; refused("schedule", s.json()); s.probes.insert(s.probes.begin(), b.probes[0]); refused("schedule of the second probe", s.json()); }); }
  for (auto sh : {"", "rect", "Rec", "circle", "dots"}) R().run(string("shape ") + sh, [=]() { Spec s = b; s.probes.resize(1); string j = s.json(); size_t at = j.find("\"shape\":\"rec\""); j.replace(at, 13, string("\"shape\":\"") + sh + "\""); refused("unknown shape", j); });
  for (double x : {0., -1.}) R().run(fmt("not positive %g", x), [=]() { Spec s = b; s.R = x; refused("radius", s.json()); s = b; s.Z = x; refused("longitude", s.json()); for (int d : {1, 2}) { s = b; s.probes.clear(); s.dr = s.dz = d; s.nr = (int)x; refused("grid r", s.json()); s.nr = 8; s.nz = (int)x; refused("grid z", s.json()); } s = b; s.step = x * 1e-12; refused("step", s.json()); });
  // malformed: every leaf and every branch removed or of a wrong type
  { V v; string err; string js = b.json(); std::istringstream is(js); is >> v; vector<Leaf> leaves, inner; walk(v, "", [](V &x) { return &x; }, leaves, inner); vector<Leaf> all = leaves; all.insert(all.end(), inner.begin(), inner.end());
    for (auto &l : all) { Leaf L = l; R().run("malformed " + l.path, [=]() {
      vector<std::pair<const char *, V>> bad{{"null", V()}, {"text", V(string("x"))}, {"number", V(7.)}, {"boolean", V(true)}, {"array", V(picojson::array())}, {"object", V(picojson::object())}};
      for (auto &w : bad) { V d = v; V *at = L.at(d); bool same = (at->is<double>() && w.second.is<double>()) || (at->is<string>() && w.second.is<string>()) || (at->is<bool>() && w.second.is<bool>()) || (at->is<picojson::array>() && w.second.is<picojson::array>());
        if (same) continue; *at = w.second; if (optional_key(L.path)) { Load q = load(d.serialize()); if (!q.ok()) R().fail_stop("refused", L.path + " is not used, but the configuration is refused: " + q.err); delete q.c; continue; }
        refused(L.path + " replaced by " + w.first, d.serialize()); } }); }
    // the text cut at every byte, and with every byte lost
    size_t chunk = 64; for (size_t a = 0; a < js.size(); a += chunk) R().run(fmt("cut at %zu..", a), [=]() { for (size_t n = a; n < std::min(js.size(), a + chunk); ++n) refused(fmt("text cut to %zu bytes", n), js.substr(0, n)); });
  }
  R().run("no file", [=]() { R().count("transitions", 1); bool ok = true; try { Cfg c("/nonexistent/config.json"); } catch (verif::Fatal &) { ok = false; } catch (std::exception &) { ok = false; } if (ok) R().fail("accepted", "missing file accepted"); refused("empty file", ""); refused("not an object", "[]"); refused("not an object", "7"); refused("not JSON", "radius = 7"); });
}

// ------------------------------------------------------------------ C18
static unsigned id_of(const Spec &s, const string &n) { Load l = load(s.json()); if (!l.ok()) R().fail_stop("refused", "name ``" + n + "'' is refused: " + l.err); unsigned id = 0; bool f = false; for (auto &q : l.c->particle_species) if (q.name == n) { id = q.id; f = true; } for (auto &q : l.c->particle_beams) if (q.name == n) { id = q.id; f = true; } delete l.c; if (!f) R().fail_stop("lost", "``" + n + "'' is lost"); return id; }
static string ion = "ions"; // the parser wants to have ions
static Spec with(const vector<string> &names) { Spec s; s.nr = s.nz = 4; s.species.clear(); for (auto &n : names) if (n.compare(0, 5, "beam_")) s.species.push_back(Specie{n, -1, 1, 1e15, 1}); else { Beam b; b.name = n.substr(5); s.beams.push_back(b); } bool have = false; for (auto &q : s.species) if (q.name == ion) have = true; if (!have) s.species.push_back(Specie{ion, 1, 1, 1e15, 1}); return s; }
static void ids(Runner &r) {
  // identifiers of all short names, read from real configurations
  string al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-"; vector<string> names{"electrons", "ions", "Electrons", "protons", "neutrals", "He+", "H+", "H-", "Ar", "Ar+", "electrons2", "electron", "ions_1", "ions_2"};
  for (char a : al) { names.push_back(string(1, a)); for (char b : al) names.push_back(string(1, a) + b); } vector<string> pool = names; for (size_t i = 0; i < names.size(); ++i) pool.push_back("beam_" + names[i]);
  if (r.thorough) for (char a : al) for (char b : al) for (char c : {'a', 'e', 'n', 'z', 'E', '0', '1', '2', '_'}) pool.push_back(string(1, a) + b + c);
  // every worker needs the table: it is built once, before the cases
  std::map<unsigned, vector<string>> by; { std::set<string> seen; vector<string> uniq; for (auto &n : pool) if (seen.insert(n).second) uniq.push_back(n);
    static std::map<unsigned, vector<string>> *cache = nullptr; if (!cache) { cache = new std::map<unsigned, vector<string>>(); string e = R().scratch + "/ids"; 
      // many names per configuration are possible only when they do not clash: one name per configuration
      for (auto &n : uniq) for (auto in : {"ions", "Ion"}) { ion = in; Spec s = with({n}); ion = "ions"; unsigned id = 0; bool ok = false; try { Cfg c(write_cfg(s.json())); for (auto &q : c.particle_species) if (q.name == n) { id = q.id; ok = true; } for (auto &q : c.particle_beams) if (q.name == n) { id = q.id; ok = true; } } catch (verif::Fatal &) {} catch (std::exception &) {} if (ok) { (*cache)[id].push_back(n); break; } } }
    by = *cache; }
  vector<std::pair<string, string>> clash; for (auto &k : by) for (size_t i = 0; i < std::min<size_t>(k.second.size(), 12); ++i) for (size_t j = 0; j < std::min<size_t>(k.second.size(), 12); ++j) if (i != j) clash.push_back({k.second[i], k.second[j]});
  // names with the same identifier are refused, in every order and also when other species are in between
  for (size_t a = 0; a < clash.size(); a += 16) R().run(fmt("clashing names %zu..", a), [=]() { for (size_t n = a; n < std::min(a + 16, clash.size()); ++n) { auto &c = clash[n]; refused("names ``" + c.first + "'' and ``" + c.second + "'' with the same identifier", with({c.first, c.second}).json()); refused("names ``" + c.first + "'' and ``" + c.second + "'' with the same identifier and another one", with({c.first, "electrons_zz", c.second}).json()); R().count("clashes", 1); R().state(Dig()(c.first)(c.second).h); } R().sample(fmt("%zu clashing ordered pairs among the names", clash.size())); });
  // the identifier depends on the name only
  for (size_t a = 0; a < pool.size(); a += 97) { string n = pool[a]; R().run("place of ``" + n + "''", [=]() { ion = "ions"; if (!load(with({n}).json()).ok()) ion = "Ion"; unsigned id = id_of(with({n}), n); auto other = [&](const vector<string> &l) { Load q = load(with(l).json()); if (!q.ok()) return; delete q.c; unsigned x = id_of(with(l), n); if (x != id) R().fail_stop("place", fmt("identifier of ``%s'' is %u alone and %u among others", n.c_str(), id, x)); };
    other({"electrons_q", n}); other({n, "electrons_q"}); other({"x1", "x2", "x3", n, "x4"}); other({"beam_q", n, "beam_w"}); Spec s = with({n}); s.nr = 16; s.nz = 64; s.macro_amount = 7777; for (auto &q : s.species) { q.mass = 1; q.density = 3e16; } if (id_of(s, n) != id) R().fail_stop("place", "identifier depends on something else than the name"); }); }
  // accepted configurations: identifiers of all pairs differ, particles stay with their species
  vector<string> some{"electrons", "ions", "He+", "H+", "a", "b", "ab", "ba", "beam_electrons", "beam_ions", "beam_a", "beam_b", "e1", "1e", "__", "beam_beam_a"};
  for (auto &x : some) R().run("pairs with ``" + x + "''", [=]() { for (auto &y : some) { if (x == y) continue; Load l = load(with({x, y}).json()); if (!l.ok()) continue; std::set<unsigned> s; for (auto &q : l.c->particle_species) s.insert(q.id); for (auto &q : l.c->particle_beams) s.insert(q.id); if (s.size() != l.c->particle_species.size() + l.c->particle_beams.size()) R().fail_stop("shared", "``" + x + "'' and ``" + y + "'' share an identifier"); delete l.c;
    Spec sp = with({x, y, "electrons_zz"}); sp.dr = sp.dz = 2; sp.R = sp.Z = 4; Sim sim(sp); std::map<Particle *, string> home; for (auto &n : {x, y, string("electrons_zz")}) for (double r : {0.5, 1.5, 2.5, 3.4}) for (double z : {0.5, 1.5, 2.5, 3.4}) for (int g = 0; g < 4; ++g) { SpecieP *q = sim.specie(sim.d(g / 2, g % 2), n); if (!q) R().fail_stop("lost", "domain has no ``" + n + "''"); Particle *p = sim.put_to(q, r, z, 0, 0, 0, 1); home[p] = n; }
    sim.smb->particles_runaway_collector(); R().count("transitions", 1); size_t k = 0; sim.each([&](Domain *d, int, int) { for (auto q : d->species_p) for (auto p : q->particles) { ++k; if (home[p] != q->name) R().fail_stop("moved", "particle of ``" + home[p] + "'' is now in ``" + q->name + "''"); } }); if (k != home.size()) R().fail_stop("moved", fmt("%zu of %zu particles left", k, home.size())); R().state(Dig()(x)(y).h); } });
}

int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) { if (!r.rest.empty() && r.rest[0] == "--ids") ids(r); else config(r); });
}
