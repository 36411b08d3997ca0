// C21: data files for the reader library, written by the real output controller; read back by src/reader_check.py
#include "hlib.hpp"
using namespace hl;

static void esc(std::ostream &o, const string &s) { o << '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') o << '\\' << c; else if (c < 32) o << fmt("\\u%04x", c); else o << c; } o << '"'; }
static void dump(const string &dir, const h5stub::FileData &f, const string &cfg) {
  mkdir(dir.c_str(), 0755); std::ofstream o(dir + "/data.h5"); o.precision(17); o << "{\"attrs\":{"; bool first = true;
  for (auto &a : f.attrs) { o << (first ? "" : ","); first = false; esc(o, a.first.substr(a.first[0] == '@' ? 1 : 0)); o << ":"; esc(o, a.second); }
  o << "},\"datasets\":{"; first = true;
  for (auto &d : f.datasets) { o << (first ? "" : ","); first = false; esc(o, d.first); o << ":{\"dims\":["; for (size_t i = 0; i < d.second.dims.size(); ++i) o << (i ? "," : "") << d.second.dims[i]; o << "],\"data\":["; for (size_t i = 0; i < d.second.data.size(); ++i) o << (i ? "," : "") << d.second.data[i]; o << "]}"; }
  o << "}}"; std::ofstream(dir + "/config.json") << cfg;
}
static const char *COMP[9] = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z"};
static Probe P(const string &comp, const string &shape, int sched, int r0, int z0, int r1 = 0, int z1 = 0, const string &sp = "") { Probe p; p.component = comp; p.shape = shape; p.schedule = sched; p.r0 = r0; p.z0 = z0; p.r1 = r1; p.z1 = z1; p.specie = sp; p.with_specie = !sp.empty(); return p; }

int main(int argc, char **argv) {
  verif::logs().quiet = true; seed() = 7; R().scratch = argv[1]; bool thorough = argc > 2; int n = 0;
  struct Gd { int nr, nz, dr, dz; }; vector<Gd> gs{{4, 6, 1, 1}, {6, 4, 2, 1}, {4, 8, 2, 4}}; if (thorough) { gs.push_back({8, 8, 4, 2}); gs.push_back({5, 7, 1, 1}); gs.push_back({10, 12, 1, 1}); }
  for (auto g : gs) for (int set = 0; set < 4; ++set) {
    Spec s; s.nr = g.nr; s.nz = g.nz; s.dr = g.dr; s.dz = g.dz; s.R = g.nr * 0.013; s.Z = g.nz * 0.029; s.macro_amount = 300; s.step = set == 1 ? 3e-13 : 1e-12; s.t_end = s.step * 100; s.data_root = set == 2 ? "relative/out" : "/nonexistent/out"; s.pml_left = set == 3 ? 0.11 : 0; s.pml_right = set == 3 ? 0.22 : 0; s.pml_outer = set == 3 ? 0.33 : 0;
    s.species.push_back(Specie{"extra_ions", 2, 4000, 3e14, 2.5}); if (set == 1) { s.beams.resize(2); s.beams[1].name = "second"; s.beams[1].velocity = 2e8; s.beams[0].start_time = s.beams[1].start_time = 1; s.beams[0].amount = 5; s.beams[0].distance = 0.25; }
    if (set < 2) { int k = 0; for (int c = 0; c < 9; ++c) { if (set == 1 && c % 4) continue;
        for (int a = 0; a < g.nr; ++a) for (int b = a + 1; b <= g.nr; ++b) for (int e = 0; e < g.nz; ++e) for (int f = e + 1; f <= g.nz; ++f) { ++k; if (set == 1 ? true : k % 23 == 0 || (a == 0 && e == 0 && b == g.nr && f == g.nz)) s.probes.push_back(P(COMP[c], "rec", 1 + k % 3, a, e, b, f)); }
        if (set == 0) { for (int z = 0; z < g.nz; ++z) s.probes.push_back(P(COMP[c], "col", 1 + z % 3, 0, z)); for (int r = 0; r < g.nr; ++r) s.probes.push_back(P(COMP[c], "row", 1 + r % 3, r, 0)); for (int r = 0; r < g.nr; ++r) for (int z = 0; z < g.nz; ++z) s.probes.push_back(P(COMP[c], "dot", 1 + (r + z) % 3, r, z)); } } }
    else for (auto &c : {"density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"}) for (auto &sp : {"electrons", "ions", "extra_ions"}) { s.probes.push_back(P(c, "rec", 1, 0, 0, g.nr, g.nz, sp)); s.probes.push_back(P(c, "rec", 2, 1, 2, 3, 4, sp)); s.probes.push_back(P(c, "col", 1, 0, 1, 0, 0, sp)); s.probes.push_back(P(c, "row", 1, 2, 0, 0, 0, sp)); s.probes.push_back(P(c, "dot", 3, 1, 3, 0, 0, sp)); }
    Sim m(s); h5stub::world().reset(); auto *f = new HighFive::File("data.h5", HighFive::File::ReadWrite | HighFive::File::Create | HighFive::File::Excl);
    auto *oc = new OutController(f, m.g, m.t, m.cfg->probes, m.smb, m.cfg->cfg2value(), false);
    if (set >= 2) m.smb->distribute();
    for (int st = 0; st < 7; ++st) {
      m.each([&](Domain *d, int, int) { auto &c = d->geometry.cell_dims; for (int w : {F_E, F_HET, F_J}) for (int q = 0; q < 3; ++q) for (int i = 0; i < c[2] - c[0]; ++i) for (int k = 0; k < c[3] - c[1]; ++k) { int id = (w == F_E ? 0 : w == F_HET ? 3 : 6) + q; field(d, w)[q].set(i, k, st * 1e6 + id * 1e4 + (c[0] + i) * 100 + c[1] + k + 0.5); } });
      if (set >= 2) { m.smb->advance_particles(); m.smb->solve_current(); }
      (*oc)(); m.t->current += m.t->step;
    }
    dump(R().scratch + fmt("/d%d", n++), *h5stub::world().files["data.h5"], s.json());
  }
  printf("%d\n", n); return 0;
}
