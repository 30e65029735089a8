// The search grid finds every pair within reach, once: compared with all pairs.
#include <memory>

#include "h.h"
#include "smash/grid.h"
#include "smash/particles.h"
#include "smashenv.h"

using namespace smash;

namespace {
struct Pair {
  int a, b;
  bool operator<(const Pair &o) const { return a < o.a || (a == o.a && b < o.b); }
};

void fill(h::Rng &rng, Particles &box, int n, const std::array<double, 3> &lo, const std::array<double, 3> &len, double t, double cell) {
  const int style = h::below(rng, 5);
  ThreeVector centre(lo[0] + len[0] * h::uni(rng, 0, 1), lo[1] + len[1] * h::uni(rng, 0, 1), lo[2] + len[2] * h::uni(rng, 0, 1));
  for (int i = 0; i < n; i++) {
    ParticleData p(ParticleType::find(0x211));
    ThreeVector x;
    for (int k = 0; k < 3; k++) {
      double u = h::uni(rng, 0, 1);
      switch (style) {
        case 1: u = u * u * u; break;                                          // towards one side
        case 2: u = h::chance(rng, .5) ? u * .02 : 1 - u * .02; break;         // at the walls
        case 3: u = std::floor(u * len[k] / cell) * cell / len[k]; break;     // on cell boundaries
        default: break;
      }
      if (style == 4) u = std::fmod(std::fabs((centre[k] - lo[k]) / len[k] + .05 * (u - .5) + 1.), 1.);
      x[k] = lo[k] + std::min(u, std::nextafter(1., 0.)) * len[k];
      if (x[k] >= lo[k] + len[k]) x[k] = std::nextafter(lo[k] + len[k], lo[k]);
    }
    p.set_4position(FourVector(t, x));
    p.set_4momentum(.138, h::uni(rng, -1, 1), h::uni(rng, -1, 1), h::uni(rng, -1, 1));
    p.set_formation_time(t);
    const double r = h::uni(rng, 0, 1);
    if (r < .1) p.set_slow_formation_times(t + 20, t + 30), p.set_cross_section_scaling_factor(0.);
    else if (r < .2) p.set_slow_formation_times(t - 1, t + 30), p.set_cross_section_scaling_factor(.3);
    box.insert(p);
  }
  if (h::chance(rng, .3)) {  // holes
    ParticleList l = box.copy_to_vector();
    for (auto &p : l)
      if (h::chance(rng, .1) && box.size() > 1) box.remove(p);
  }
}

template <GridOptions O>
void one(h::Rng &rng, int n) {
  constexpr bool periodic = O == GridOptions::PeriodicBoundaries;
  Particles box;
  const double t = h::uni(rng, 0, 20), cell = h::uni(rng, .3, 4);
  std::array<double, 3> lo, len;
  const bool cube = periodic || h::chance(rng, .5);
  const double L = periodic ? 2 * cell + (h::chance(rng, .4) ? h::uni(rng, 1e-6, cell) : h::uni(rng, 0, 8 * cell)) : h::uni(rng, .2, 10) * cell;
  for (int k = 0; k < 3; k++) {
    lo[size_t(k)] = periodic ? 0. : h::uni(rng, -20, 20);
    len[size_t(k)] = cube ? L : h::chance(rng, .3) ? h::uni(rng, .01, 1) * cell : h::uni(rng, .2, 10) * cell;
  }
  const bool one_dim = !periodic && h::chance(rng, .1);
  if (one_dim) len[size_t(h::below(rng, 3))] = 0.;
  for (auto &x : len)
    if (x == 0.) x = 1e-30;
  const int count = h::range(rng, 1, h::chance(rng, .3) ? 8 : 150);
  fill(rng, box, count, lo, len, t, cell);
  const auto limit = h::chance(rng, .5) ? CellNumberLimitation::None : CellNumberLimitation::ParticleNumber;
  const auto strategy = h::chance(rng, .15) ? CellSizeStrategy::Largest : CellSizeStrategy::Optimal;
  const bool all = h::chance(rng, .4);
  const double dt = h::uni(rng, .01, 1);
  h::at("%s, %d particles, length %g %g %g, reach %g, limit %d, strategy %d, unformed %d", periodic ? "periodic" : "open", int(box.size()), len[0], len[1], len[2], cell, int(limit), int(strategy), all);
  std::unique_ptr<Grid<O>> grid;
  if constexpr (periodic) {
    grid = std::make_unique<Grid<O>>(std::make_pair(lo, len), box, cell, dt, limit, all, strategy);
  } else {
    grid = std::make_unique<Grid<O>>(box, cell, dt, limit, all, strategy);
  }
  std::map<int, ParticleData> in;
  for (auto &p : box) in.emplace(p.id(), p);
  std::map<int, int> cells;
  // pair -> displacements b - a under which it was offered
  std::map<Pair, std::vector<ThreeVector>> seen;
  auto note = [&](const ParticleData &p, const ParticleData &q) {
    const bool swap = p.id() > q.id();
    const ThreeVector d = (swap ? -1. : 1.) * (q.position().threevec() - p.position().threevec());
    seen[{std::min(p.id(), q.id()), std::max(p.id(), q.id())}].push_back(d);
    h::count("pairs offered");
  };
  auto known = [&](const ParticleData &p) {
    auto it = in.find(p.id());
    if (it == in.end()) {
      h::fail("unknown", "the grid holds a particle %d that does not exist", p.id());
      return;
    }
    const ParticleData &o = it->second;
    if (!(p.momentum() == o.momentum()) || p.pdgcode() != o.pdgcode() || p.id_process() != o.id_process() || p.position().x0() != o.position().x0() || p.formation_time() != o.formation_time())
      h::fail("changed", "the grid holds a changed copy of particle %d", p.id());
  };
  grid->iterate_cells(
      [&](const ParticleList &l) {
        h::count("cells");
        for (size_t i = 0; i < l.size(); i++) {
          cells[l[i].id()]++;
          known(l[i]);
          for (size_t j = 0; j < i; j++) note(l[i], l[j]);
        }
      },
      [&](const ParticleList &a, const ParticleList &b) {
        for (auto &p : a) {
          known(p);
          for (auto &q : b) note(p, q);
        }
        for (auto &q : b) known(q);
      });
  const bool everything = all || (!periodic && strategy == CellSizeStrategy::Largest);
  for (auto &e : in) {
    const bool formed = e.second.xsec_scaling_factor(dt) > 0.;
    const int c = cells.count(e.first) ? cells[e.first] : 0;
    if (everything || formed) {
      if (c != 1) h::fail("cell", "particle %d is in %d cells", e.first, c);
    } else if (c) {
      h::fail("unformed", "particle %d with a vanishing cross section is in the grid", e.first);
    }
  }
  for (auto i = in.begin(); i != in.end(); ++i)
    for (auto j = std::next(i); j != in.end(); ++j) {
      if (!cells.count(i->first) || !cells.count(j->first)) continue;
      ThreeVector d = j->second.position().threevec() - i->second.position().threevec();
      bool edge = false;
      if (periodic)
        for (int k = 0; k < 3; k++) {
          const double w = len[size_t(k)];
          if (std::fabs(std::fabs(d[k]) - .5 * w) < 1e-9) edge = true;
          if (d[k] > .5 * w) d[k] -= w;
          else if (d[k] < -.5 * w) d[k] += w;
        }
      const double reach = std::max({std::fabs(d[0]), std::fabs(d[1]), std::fabs(d[2])});
      auto s = seen.find({i->first, j->first});
      int n_near = 0;
      if (s != seen.end()) {
        for (auto &e : s->second) n_near += (e - d).abs() < 1e-9 * (1 + L + 40);
        for (size_t a = 0; a < s->second.size(); a++)
          for (size_t b = 0; b < a; b++)
            if ((s->second[a] - s->second[b]).abs() < 1e-9 * (1 + L)) h::fail("twice", "the pair %d, %d is offered twice", i->first, j->first);
        if (!periodic && s->second.size() > 1) h::fail("twice", "the pair %d, %d is offered %zu times", i->first, j->first, s->second.size());
        for (auto &e : s->second)
          for (int k = 0; k < 3 && periodic; k++) {
            const double q = (e[k] - d[k]) / len[size_t(k)];
            if (std::fabs(q - std::round(q)) > 1e-6) h::fail("image", "the pair %d, %d is offered %g away from a periodic image", i->first, j->first, e[k] - d[k]);
          }
      }
      if (reach < cell - 1e-9 && !edge) {
        h::count("pairs within reach");
        if (!n_near) h::fail("missed", "particles %d and %d, %g apart along the axes, are never offered together%s", i->first, j->first, reach, s == seen.end() ? "" : " at their closest images");
      }
    }
  if (cells.size() > 1) h::evaluated(h::mix(uint64_t(n), uint64_t(periodic)));
  if (n < 2) h::sample("%s", h::current);
}
}  // namespace

SECTION(open) {
  h::load_mid(false);
  for (int n = 0; n < h::tier(600); n++) one<GridOptions::Normal>(rng, n);
}
SECTION(periodic) {
  h::load_mid(false);
  for (int n = 0; n < h::tier(600); n++) one<GridOptions::PeriodicBoundaries>(rng, n);
}

HARNESS_MAIN
