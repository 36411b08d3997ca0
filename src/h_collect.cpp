// C02: hand-over of particles between domains
#include "hlib.hpp"
using namespace hl;

struct Ref { Particle *p; unsigned short id; double v[8]; bool in; int ci, cj; string what; };

static Spec spec(int dr, int dz, int lr, int lz) {
  Spec s; s.dr = dr; s.dz = dz; s.nr = dr * lr; s.nz = dz * lz; s.R = s.nr * 0.5; s.Z = s.nz * 0.25; // dyadic cells 0.5 x 0.25
  Beam b; b.amount = 1; b.length = 0.1; b.radius = 0.2; s.beams.push_back(b); return s;
}
static void snap(Ref &r) { Particle *p = r.p; double v[8] = {p->pos_r, p->pos_phi, p->pos_z, p->vel_r, p->vel_phi, p->vel_z, p->weight, (double)p->specie_id}; memcpy(r.v, v, sizeof v); }
static void place(Sim &s, Ref &r, double cr, double cz) { // position in cells
  Particle *p = r.p; p->pos_r = cr * s.g->cell_size[0]; p->pos_z = cz * s.g->cell_size[1];
  r.ci = (int)floor(cr); r.cj = (int)floor(cz); r.in = r.ci >= 0 && r.cj >= 0 && r.ci < (int)s.g->cell_amount[0] && r.cj < (int)s.g->cell_amount[1]; snap(r);
}
static Ref make(Sim &s, Domain *from, int sp, double cr, double cz, double w) {
  Ref r; SpecieP *q = from->species_p[sp]; r.id = q->id; r.p = s.put_to(q, 0, 0, 1e6 * (sp + 1), -2e6, 3e6, w); place(s, r, cr, cz); r.what = q->name; return r;
}
static void clear(Sim &s) { s.each([](Domain *d, int, int) { for (auto sp : d->species_p) { for (auto p : sp->particles) delete p; sp->particles.clear(); } }); }

static void collect(Sim &s, vector<Ref> &refs, const string &what) {
  s.each([](Domain *d, int, int) { d->bind_cell_numbers(); });
  s.smb->particles_runaway_collector(); R().count("transitions", 1);
  std::multimap<std::array<double, 8>, std::array<long, 3>> found; size_t total = 0; Dig dg;
  s.each([&](Domain *d, int i, int j) { long n = 0; for (auto sp : d->species_p) { ++n; for (auto p : sp->particles) {
    ++total; std::array<double, 8> k = {p->pos_r, p->pos_phi, p->pos_z, p->vel_r, p->vel_phi, p->vel_z, p->weight, (double)p->specie_id};
    found.insert({k, {i, j, (long)sp->id}}); dg((long)i)((long)j)(n)(p->pos_r)(p->pos_z); } } });
  R().state(dg.h);
  size_t exp = 0;
  for (auto &r : refs) { std::array<double, 8> k; memcpy(k.data(), r.v, sizeof r.v); auto f = found.equal_range(k); long n = std::distance(f.first, f.second);
    string w = what + fmt(" %s at cell (%d,%d)", r.what.c_str(), r.ci, r.cj);
    if (r.in) { ++exp;
      if (n == 0) R().fail_stop("lost", w + " is lost or changed");
      if (n > 1) R().fail_stop("duplicated", w + fmt(" is present %ld times", n));
      auto &a = f.first->second; Domain *o = s.owner(r.ci, r.cj);
      if (s.d(a[0], a[1]) != o) R().fail_stop("foreign-domain", w + fmt(" is in domain (%ld,%ld)", a[0], a[1]));
      if (a[2] != r.id) R().fail_stop("foreign-species", w + fmt(" is in the list of %ld instead of %d", a[2], (int)r.id));
    } else if (n) R().fail_stop("kept-outside", w + " is outside of the area but kept"); }
  if (total != exp) R().fail_stop("count", what + fmt(": %zu particles instead of %zu", total, exp));
}

int main(int argc, char **argv) {
  verif::logs().quiet = true;
  return R().main(argc, argv, [](Runner &r) {
    vector<int> doms = r.thorough ? vector<int>{1, 2, 4, 6} : vector<int>{1, 2, 4};
    struct L { int a, b; };
    for (int dr : doms) for (int dz : doms) for (L l : r.thorough ? vector<L>{{1, 1}, {2, 3}, {3, 2}, {4, 4}, {1, 5}} : vector<L>{{1, 1}, {2, 3}, {3, 2}}) {
      // every source domain, every destination cell (one ring outside too), every species, three places in the cell
      for (int si = 0; si < dr; ++si) R().run(fmt("domains=%dx%d cells=%dx%d single row=%d", dr, dz, l.a, l.b, si), [=]() {
        Sim s(spec(dr, dz, l.a, l.b)); int nr = s.g->cell_amount[0], nz = s.g->cell_amount[1], n = 0;
        for (int sj = 0; sj < dz; ++sj) for (int ci = -1; ci <= nr; ++ci) for (int cj = -1; cj <= nz; ++cj) {
          vector<Ref> refs; static const double off[4] = {0, 0.5, 0.25, 0.999};
          for (int sp = 0; sp < 3; ++sp) { int q = (ci + cj + sp + sj + 8) % 4; refs.push_back(make(s, s.d(si, sj), sp, ci + off[q], cj + off[(q + sp) % 4], 1 + sp)); }
          collect(s, refs, fmt("from (%d,%d)", si, sj)); clear(s); ++n; }
        R().sample(fmt("%d hand-overs from row %d of domains", n, si));
      });
    }
    // everybody moves at once: all domains exchange with all domains
    for (int dr : doms) for (int dz : doms) for (int k = 0; k < dr * dz + 1; ++k) R().run(fmt("domains=%dx%d all shift=%d", dr, dz, k), [=]() {
      Sim s(spec(dr, dz, 2, 2)); vector<Ref> refs; int n = 0;
      for (int rep = 0; rep < 2; ++rep) s.each([&](Domain *d, int i, int j) { for (int sp = 0; sp < 3; ++sp) { int t = (i * dz + j + k * (sp + 1) + rep) % (dr * dz + 1); // last one: outside
        double cr = t == dr * dz ? dr * 2 + 0.5 : t / dz * 2 + 0.5, cz = t == dr * dz ? 0.5 : t % dz * 2 + 1.5; refs.push_back(make(s, d, sp, cr, cz, ++n)); } });
      collect(s, refs, "all"); });
    // all fates of a list of particles: stays, moves to each of the other domains, leaves
    int len = r.thorough ? 5 : 4, base = 5; int tot = 1; for (int i = 0; i < len; ++i) tot *= base;
    for (int b = 0; b < tot; b += 25) R().run(fmt("fates len=%d from=%d", len, b), [=]() {
      Sim s(spec(2, 2, 2, 2));
      for (int c = b; c < b + 25; ++c) { vector<Ref> refs; int x = c; for (int i = 0; i < len; ++i, x /= base) { int t = x % base; refs.push_back(make(s, s.d(0, 0), 1, t == 4 ? 1.5 : (t & 1) * 2 + 0.5, t == 4 ? 4.5 : (t >> 1) * 2 + 0.25 + 0.1 * i, i + 1)); }
        collect(s, refs, fmt("fates %d", c)); clear(s); } });
    // sequences of moves of two particles of different species, state after state
    int depth = r.thorough ? 4 : 3;
    for (int f = 0; f < 25; ++f) R().run(fmt("sequence depth=%d first=%d", depth, f), [=]() {
      Sim s(spec(2, 2, 2, 2)); int n = 1; for (int i = 1; i < depth; ++i) n *= 25;
      for (int q = 0; q < n; ++q) { int seq = f + 25 * q; vector<Ref> refs; refs.push_back(make(s, s.d(0, 0), 0, 0.5, 0.5, 1)); refs.push_back(make(s, s.d(1, 1), 2, 3.5, 3.5, 2)); bool live[2] = {true, true};
        for (int st = 0, x = seq; st < depth; ++st, x /= 25) { int t[2] = {x % 5, x / 5 % 5}; vector<Ref> cur;
          for (int p = 0; p < 2; ++p) if (live[p]) { place(s, refs[p], t[p] == 4 ? -0.5 : (t[p] & 1) * 2 + 1.25, t[p] == 4 ? 1.5 : (t[p] >> 1) * 2 + 0.75); cur.push_back(refs[p]); live[p] = refs[p].in; }
          collect(s, cur, fmt("step %d of sequence %d", st, seq)); }
        clear(s); } });
  });
}
