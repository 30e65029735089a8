// The rectangular lattice against direct definitions; clocks against exact times.
#include <array>
#include <optional>

#include "h.h"
#include "smash/clock.h"
#include "smash/fourvector.h"
#include "smash/lattice.h"
#include "smash/threevector.h"

using namespace smash;
using D3 = std::array<double, 3>;
using I3 = std::array<int, 3>;

namespace {
struct Geo {
  D3 l, o;
  I3 n;
  bool per;
};
Geo geometry(h::Rng &rng, int least = 1) {
  Geo g;
  for (size_t i = 0; i < 3; i++) {
    g.n[i] = h::range(rng, least, h::chance(rng, .3) ? least + 1 : 9);
    g.l[i] = h::uni(rng, .5, 20);
    g.o[i] = h::uni(rng, -15, 15);
  }
  g.per = h::chance(rng, .5);
  h::at("sizes %.17g %.17g %.17g cells %d %d %d origin %.17g %.17g %.17g periodic %d", g.l[0], g.l[1], g.l[2], g.n[0], g.n[1], g.n[2], g.o[0],
        g.o[1], g.o[2], g.per);
  return g;
}
int mod(int i, int n) { return ((i % n) + n) % n; }
long cells(const Geo &g) { return long(g.n[0]) * g.n[1] * g.n[2]; }
int at(const Geo &g, int x, int y, int z) { return x + g.n[0] * (y + g.n[1] * z); }
/// a point, and whether it is far enough from cell boundaries for the cell to be certain
bool point(h::Rng &rng, const Geo &g, ThreeVector &r, I3 &c) {
  bool sure = true;
  const bool out = h::chance(rng, .4);
  for (size_t i = 0; i < 3; i++) {
    const double u = out ? h::uni(rng, -1.5, 2.5) : h::uni(rng, 0, 1);
    r[i] = g.o[i] + u * g.l[i];
    const double k = (r[i] - g.o[i]) / g.l[i] * g.n[i];
    c[i] = int(std::floor(k));
    sure = sure && std::fabs(k - std::round(k)) > 1e-9;
  }
  return sure;
}
bool outside(const Geo &g, const I3 &c) {
  for (size_t i = 0; i < 3; i++)
    if (c[i] < 0 || c[i] >= g.n[i]) return true;
  return false;
}
}  // namespace

SECTION(layout) {
  const int n = h::tier(4000);
  for (int k = 0; k < n; k++) {
    const Geo g = geometry(rng);
    RectangularLattice<double> lat(g.l, g.n, g.o, g.per, LatticeUpdate::EveryTimestep);
    if (long(lat.size()) != cells(g)) h::fail("layout/size", "%zu cells", lat.size());
    for (size_t i = 0; i < lat.size(); i++) lat[i] = double(i) + 1;
    RectangularLattice<double> copy(lat);
    // cell centres and indices: every cell once
    std::set<int> seen;
    for (int z = 0; z < g.n[2]; z++)
      for (int y = 0; y < g.n[1]; y++)
        for (int x = 0; x < g.n[0]; x++) {
          const int i = lat.index1d(x, y, z);
          if (i < 0 || i >= int(lat.size()) || !seen.insert(i).second) {
            h::fail("layout/index", "cell %d %d %d has index %d", x, y, z, i);
            continue;
          }
          const ThreeVector c = lat.cell_center(x, y, z), c1 = lat.cell_center(i);
          const I3 xyz = {x, y, z};
          for (size_t d = 0; d < 3; d++) {
            const double w = g.o[d] + (xyz[d] + .5) * g.l[d] / g.n[d];
            if (std::fabs(c[d] - w) > 1e-12 * (20 + g.l[d]) || std::fabs(c1[d] - w) > 1e-12 * (20 + g.l[d]))
              h::fail("layout/centre", "centre of cell %d %d %d in direction %zu is %.17g, %.17g, expected %.17g", x, y, z, d, c[d], c1[d], w);
          }
          double v = -1;
          if (!lat.value_at(c, v) || v != lat[size_t(i)] || lat.node(x, y, z) != v)
            h::fail("layout/value", "the value at the centre of cell %d %d %d is %g instead of %g", x, y, z, v, lat[size_t(i)]);
          // neighbours
          auto nb = [&](int dx, int dy, int dz) {
            I3 t = {x + dx, y + dy, z + dz};
            for (size_t d = 0; d < 3; d++) {
              if (g.per) t[d] = mod(t[d], g.n[d]);
              else t[d] = std::max(0, std::min(g.n[d] - 1, t[d]));
            }
            return lat.index1d(t[0], t[1], t[2]);
          };
          if (lat.index_left(x, y, z) != nb(-1, 0, 0) || lat.index_right(x, y, z) != nb(1, 0, 0) || lat.index_down(x, y, z) != nb(0, -1, 0) ||
              lat.index_up(x, y, z) != nb(0, 1, 0) || lat.index_backward(x, y, z) != nb(0, 0, -1) || lat.index_forward(x, y, z) != nb(0, 0, 1))
            h::fail("layout/neighbour", "a neighbour of cell %d %d %d is wrong", x, y, z);
        }
    for (int q = 0; q < 20; q++) {
      ThreeVector r;
      I3 c;
      if (!point(rng, g, r, c)) continue;
      double v = -1;
      const bool in = lat.value_at(r, v), expect = g.per || !outside(g, c);
      if (in != expect || lat.out_of_bounds(c[0], c[1], c[2]) == expect) h::fail("value/bounds", "a point of cell %d %d %d is found %s", c[0], c[1], c[2], in ? "inside" : "outside");
      const double want = expect ? at(g, mod(c[0], g.n[0]), mod(c[1], g.n[1]), mod(c[2], g.n[2])) + 1 : 0.;
      if (v != want) h::fail("value", "the value in cell %d %d %d is %g, expected %g", c[0], c[1], c[2], v, want);
      h::evaluated(h::mix(uint64_t(cells(g)), h::mix(uint64_t(c[0] + 100), uint64_t(c[1] * 100 + c[2] + 10000))));
    }
    for (size_t i = 0; i < lat.size(); i++)
      if (copy[i] != lat[i]) h::fail("layout/copy", "a copy differs");
    if (!lat.identical_to_lattice(&copy)) h::fail("layout/identical", "a copy is not identical");
    {
      Geo o = g;
      const size_t d = size_t(h::below(rng, 3));
      switch (h::below(rng, 4)) {
        case 0: o.l[d] *= 1.001; break;
        case 1: o.o[d] += .01; break;
        case 2: o.n[d]++; break;
        default: o.per = !o.per; break;
      }
      RectangularLattice<FourVector> other(o.l, o.n, o.o, o.per, LatticeUpdate::AtOutput);
      if (lat.identical_to_lattice(&other)) h::fail("layout/identical", "a different lattice passes as identical");
    }
    // a rebuilt lattice is like a new one
    Geo w = geometry(rng);
    w.per = g.per;
    const bool L = h::chance(rng, .7), O = h::chance(rng, .7), N = h::chance(rng, .6) || (!L && !O);
    if (!L) w.l = g.l;
    if (!O) w.o = g.o;
    if (!N) w.n = g.n;
    lat.reset_and_resize(L ? std::make_optional(w.l) : std::nullopt, O ? std::make_optional(w.o) : std::nullopt, N ? std::make_optional(w.n) : std::nullopt);
    RectangularLattice<double> fresh(w.l, w.n, w.o, w.per, LatticeUpdate::EveryTimestep);
    if (!lat.identical_to_lattice(&fresh) || lat.size() != fresh.size()) {
      h::fail("rebuild", "a lattice rebuilt with %d x %d x %d cells has %zu cells", w.n[0], w.n[1], w.n[2], lat.size());
      continue;
    }
    double zero = 0;
    for (double v : lat) zero = std::max(zero, std::fabs(v));
    if (zero != 0) h::fail("rebuild/reset", "values are left after a rebuild");
    for (int q = 0; q < 5; q++) {
      ThreeVector r;
      I3 c;
      double v;
      point(rng, w, r, c);
      if (lat.value_at(r, v) != fresh.value_at(r, v)) h::fail("rebuild/bounds", "a rebuilt lattice has other bounds");
      const int x = h::below(rng, w.n[0]), y = h::below(rng, w.n[1]), z = h::below(rng, w.n[2]);
      if ((lat.cell_center(x, y, z) - fresh.cell_center(x, y, z)).abs() > 1e-12) h::fail("rebuild/centre", "a rebuilt lattice has other centres");
      lat[size_t(lat.index1d(x, y, z))] = 1;
    }
    lat.reset();
    for (double v : lat) zero = std::max(zero, std::fabs(v));
    if (zero != 0) h::fail("reset", "values are left after a reset");
  }
}

SECTION(regions) {
  const int n = h::tier(15000);
  long visits = 0;
  for (int k = 0; k < n; k++) {
    const Geo g = geometry(rng);
    RectangularLattice<double> lat(g.l, g.n, g.o, g.per, LatticeUpdate::EveryTimestep);
    for (size_t i = 0; i < lat.size(); i++) lat[i] = double(i);
    ThreeVector r;
    I3 c;
    const bool sure = point(rng, g, r, c);
    D3 cut;
    const bool cube = h::chance(rng, .5);
    const double rc = h::uni(rng, .01, 1.2) * std::min({g.l[0], g.l[1], g.l[2]});
    for (size_t d = 0; d < 3; d++) cut[d] = cube ? rc : h::uni(rng, .01, 1.2) * g.l[d];
    // which cells: those whose centre is within the box around the point
    std::map<I3, int> got;
    bool bad = false;
    auto visit = [&](double &node, int x, int y, int z) {
      got[{x, y, z}]++;
      visits++;
      if (node != at(g, mod(x, g.n[0]), mod(y, g.n[1]), mod(z, g.n[2]))) bad = true;
    };
    if (cube) lat.iterate_in_cube(r, rc, visit);
    else lat.iterate_in_rectangle(r, cut, visit);
    if (bad) h::fail("region/node", "a node is handed out under the index of another one");
    I3 lo, hi;
    for (size_t d = 0; d < 3; d++) {
      lo[d] = g.per ? int(std::floor((r[d] - cut[d] - g.o[d]) / g.l[d] * g.n[d])) - 2 : 0;
      hi[d] = g.per ? int(std::ceil((r[d] + cut[d] - g.o[d]) / g.l[d] * g.n[d])) + 2 : g.n[d];
    }
    size_t expected = 0, uncertain = 0;
    for (int x = lo[0]; x < hi[0]; x++)
      for (int y = lo[1]; y < hi[1]; y++)
        for (int z = lo[2]; z < hi[2]; z++) {
          const I3 xyz = {x, y, z};
          bool in = true, edge = false;
          for (size_t d = 0; d < 3; d++) {
            const double dist = std::fabs(g.o[d] + (xyz[d] + .5) * g.l[d] / g.n[d] - r[d]);
            in = in && dist < cut[d];
            edge = edge || std::fabs(dist - cut[d]) < 1e-9;
          }
          auto it = got.find(xyz);
          const int times = it == got.end() ? 0 : it->second;
          if (edge) {
            uncertain++;
            expected += size_t(times != 0);
            continue;
          }
          expected += in;
          if (times != int(in)) h::fail("region/cells", "cell %d %d %d, which is %s the region, is visited %d times", x, y, z, in ? "in" : "outside of", times);
        }
    if (expected != got.size()) h::fail("region/extra", "%zu cells visited, expected %zu", got.size(), expected);
    // integral over the region
    if (k % 5 == 0 && cube) {
      double sum = 0, want = 0;
      lat.integrate_volume<double>(sum, [](ThreeVector p, double &v, ThreeVector q) { return v * (p - q).x1() + v; }, rc, r);
      for (auto &e : got) {
        const double v = at(g, mod(e.first[0], g.n[0]), mod(e.first[1], g.n[1]), mod(e.first[2], g.n[2]));
        want += (v * (g.o[0] + (e.first[0] + .5) * g.l[0] / g.n[0] - r[0]) + v) * g.l[0] / g.n[0] * g.l[1] / g.n[1] * g.l[2] / g.n[2];
      }
      if (!h::close(sum, want, 1e-9, 1e-6)) h::fail("region/integral", "%.17g, expected %.17g", sum, want);
    }
    // the cell of a point and its neighbours
    if (sure) {
      std::map<int, int> hit;
      int centre = -1, calls = 0;
      bool wrong = false;
      lat.iterate_nearest_neighbors(r, [&](double &node, int i, int mid) {
        hit[i]++;
        centre = mid;
        calls++;
        if (i < 0 || i >= int(lat.size()) || &node != &lat[size_t(i)]) wrong = true;
      });
      if (wrong) h::fail("near/node", "a node outside of the lattice or under a wrong index is handed out");
      std::map<int, int> want;
      if (g.per || !outside(g, c)) {
        const int mid = at(g, mod(c[0], g.n[0]), mod(c[1], g.n[1]), mod(c[2], g.n[2]));
        want[mid]++;
        for (size_t d = 0; d < 3; d++)
          for (int s : {-1, 1}) {
            I3 t = c;
            t[d] += s;
            if (!g.per && outside(g, t)) continue;
            want[at(g, mod(t[0], g.n[0]), mod(t[1], g.n[1]), mod(t[2], g.n[2]))]++;
          }
        if (centre != mid) h::fail("near/centre", "the cell of the point is taken to be %d instead of %d", centre, mid);
      }
      if (hit != want) h::fail("near", "point in cell %d %d %d: %d visits of %zu cells, expected %zu", c[0], c[1], c[2], calls, hit.size(), want.size());
    }
    h::evaluated(h::mix(uint64_t(cells(g)), h::mix(got.size(), uint64_t(k % 1000))));
  }
  h::count("cells visited", visits);
}

SECTION(gradients) {
  const int n = h::tier(3000);
  for (int k = 0; k < n; k++) {
    const Geo g = geometry(rng, 2);
    RectangularLattice<double> lat(g.l, g.n, g.o, g.per, LatticeUpdate::EveryTimestep);
    RectangularLattice<ThreeVector> grad(g.l, g.n, g.o, g.per, LatticeUpdate::AtOutput);
    RectangularLattice<FourVector> now(g.l, g.n, g.o, g.per, LatticeUpdate::AtOutput), old(now);
    RectangularLattice<std::array<FourVector, 4>> four(g.l, g.n, g.o, g.per, LatticeUpdate::AtOutput);
    for (size_t i = 0; i < lat.size(); i++) {
      lat[i] = h::uni(rng, -5, 5);
      for (size_t m = 0; m < 4; m++) now[i][m] = h::uni(rng, -5, 5), old[i][m] = h::uni(rng, -5, 5);
    }
    const double dt = h::uni(rng, .01, 1);
    lat.compute_gradient_lattice(grad);
    now.compute_four_gradient_lattice(old, dt, four);
    for (int z = 0; z < g.n[2]; z++)
      for (int y = 0; y < g.n[1]; y++)
        for (int x = 0; x < g.n[0]; x++) {
          const I3 c = {x, y, z};
          const size_t i = size_t(at(g, x, y, z));
          for (size_t d = 0; d < 3; d++) {
            I3 up = c, dn = c;
            up[d]++, dn[d]--;
            double span = 2 * g.l[d] / g.n[d];
            if (g.per) up[d] = mod(up[d], g.n[d]), dn[d] = mod(dn[d], g.n[d]);
            else {
              if (up[d] >= g.n[d]) up[d]--, span /= 2;
              if (dn[d] < 0) dn[d]++, span /= 2;
            }
            const size_t a = size_t(at(g, up[0], up[1], up[2])), b = size_t(at(g, dn[0], dn[1], dn[2]));
            const double w = (lat[a] - lat[b]) / span;
            if (!h::close(grad[i][d], w, 1e-12, 1e-12)) h::fail("gradient", "cell %d %d %d direction %zu: %.17g, expected %.17g", x, y, z, d, grad[i][d], w);
            for (size_t m = 0; m < 4; m++) {
              const double v = (now[a][m] - now[b][m]) / span;
              if (!h::close(four[i][d + 1][m], v, 1e-12, 1e-12)) h::fail("gradient/four", "cell %d %d %d direction %zu component %zu: %.17g, expected %.17g", x, y, z, d, m, four[i][d + 1][m], v);
            }
          }
          for (size_t m = 0; m < 4; m++)
            if (!h::close(four[i][0][m], (now[i][m] - old[i][m]) / dt, 1e-10, 1e-10)) h::fail("gradient/time", "cell %d %d %d component %zu", x, y, z, m);
        }
    h::evaluated(h::mix(uint64_t(cells(g)), h::mix(uint64_t(g.per), uint64_t(g.n[0] * 10 + g.n[1]))));
  }
}

// -- clocks ---------------------------------------------------------------------------------------
SECTION(uniform) {
  const int n = h::tier(4000);
  long ticks = 0;
  auto micro = [](double x) { return (long long)std::llround(x * 1e6); };
  for (int k = 0; k < n; k++) {
    const double start = h::chance(rng, .3) ? 0. : h::chance(rng, .4) ? h::range(rng, -200, 200) * .1 : h::uni(rng, -30, 30);
    static const std::vector<double> usual = {.1, .05, .3, 1., .025, 2.5, .7, 10.};
    const double dt = h::chance(rng, .5) ? h::pick(rng, usual) : h::uni(rng, 1e-3, 5);
    const double end = start + h::uni(rng, .01, 40) * dt;
    h::at("start %.17g step %.17g end %.17g", start, dt, end);
    UniformClock c(start, dt, end);
    const long long s = micro(start), d = micro(dt), e = micro(end);
    const int steps = int(std::min(60., std::ceil((end - start) / dt))) + 2;
    auto expect = [&](const char *what, double got, long long want) {
      if (std::fabs(got - double(want) * 1e-6) > 1e-9) h::fail(what, "%s is %.12g, expected %.12g", what, got, double(want) * 1e-6);
    };
    for (int i = 0; i < steps; i++) {
      const long long t = s + d * i;
      expect("uniform/current", c.current_time(), std::min(t, e));
      expect("uniform/next", c.next_time(), std::min(t + d, e));
      if (t <= e) expect("uniform/duration", c.timestep_duration(), std::min(d, e - t));
      if ((c < end) != (t < e) && std::llabs(t - e) > 1) h::fail("uniform/before", "before the end: %d", c < end);
      UniformClock copy = c;
      if (c < copy || copy < c) h::fail("uniform/order", "a clock is before its copy");
      if (h::chance(rng, .5)) ++c;
      else c += UniformClock::Representation(1);
      if (!(copy < c)) h::fail("uniform/order", "the clock does not advance");
      ticks++;
    }
    // far ahead, without drift
    const long long far = 1 + (long long)(rng() % 100000000ULL);
    UniformClock big(start, dt, start + dt * 2e8);
    big += UniformClock::Representation(far);
    if (std::fabs(big.current_time() - double((__float128)(s + d * far) / 1000000)) > 1e-9 + 1e-15 * std::fabs(big.current_time()) * 4)
      h::fail("uniform/far", "after %lld steps: %.17g", far, big.current_time());
    // reset: simulation clock at the time, output clock at the last multiple of the step
    const double again = h::chance(rng, .5) ? h::range(rng, -300, 300) * dt : h::chance(rng, .3) ? h::range(rng, -300, 300) * .1 : h::uni(rng, -30, 30);
    UniformClock r(start, dt, std::max(end, again + 3 * dt)), out(start, dt, std::max(end, again + 3 * dt));
    h::at("start %.17g step %.17g reset to %.17g", start, dt, again);
    r += UniformClock::Representation(h::below(rng, 5));
    out += UniformClock::Representation(h::below(rng, 5));
    r.reset(again, false);
    expect("reset/time", r.current_time(), micro(again));
    // start times as the user writes them, in decimal notation with the step a multiple of 1e-6
    out.reset(again, true);
    const long long a = micro(again), multiple = a - ((a % d) + d) % d;
    if (d == (long long)(dt * 1e6 + .5) && std::fabs(dt * 1e6 - double(d)) < 1e-6 && std::fabs(again * 1e6 - double(a)) < 1e-6) {
      expect("reset/output", out.current_time(), multiple);
      expect("reset/output next", out.next_time(), multiple + d);
      h::count("output clock resets");
    }
    h::evaluated(h::mix(uint64_t(d), uint64_t(s + 1000000000)));
  }
  h::count("ticks", ticks);
}

// sequences of steps, jumps and changes of the step against integer microseconds
SECTION(changes) {
  const int n = h::tier(4000);
  for (int k = 0; k < n; k++) {
    auto grid = [&](int a, int b) { return (long long)h::range(rng, a, b) * (h::chance(rng, .5) ? 100000 : 1000); };
    const long long s = grid(-200, 200), d0 = grid(1, 50), e = s + d0 * h::range(rng, 1, 60);
    long long t = s, d = d0;
    h::at("start %lld step %lld end %lld us", s, d, e);
    UniformClock c(double(s) * 1e-6, double(d) * 1e-6, double(e) * 1e-6);
    std::string story;
    for (int i = h::range(rng, 1, 40); i > 0; i--) {
      switch (h::below(rng, 5)) {
        case 0: {
          const long long j = grid(0, 20);
          c += double(j) * 1e-6;
          t += j;
          story += 'j';
          break;
        }
        case 1: {
          d = grid(1, 50);
          c.set_timestep_duration(double(d) * 1e-6);
          story += 's';
          break;
        }
        case 2: {
          const int m = h::range(rng, 0, 5);
          c += UniformClock::Representation(m);
          t += m * d;
          story += 'm';
          break;
        }
        case 3:
          if (h::chance(rng, .3)) {
            t = grid(-200, 200);
            c.reset(double(t) * 1e-6, false);
            c.remove_times_in_past(double(t) * 1e-6);
            story += 'r';
            break;
          }
          // fall through
        default:
          ++c;
          t += d;
          story += '+';
      }
      auto near = [](double a, long long b) { return std::fabs(a - double(b) * 1e-6) < 1e-9; };
      if (!near(c.current_time(), std::min(t, e))) h::fail("changes/current", "%.12g us expected %lld after %s", c.current_time() * 1e6, std::min(t, e), story.c_str());
      if (!near(c.next_time(), std::min(t + d, e))) h::fail("changes/next", "%.12g us expected %lld after %s", c.next_time() * 1e6, std::min(t + d, e), story.c_str());
      if (!near(c.timestep_duration(), t > e ? 0 : std::min(d, e - t)))
        h::fail("changes/duration", "%.12g us expected %lld after %s", c.timestep_duration() * 1e6, t > e ? 0 : std::min(d, e - t), story.c_str());
      const long long o = t + grid(-3, 3);
      if (o != t && ((c < double(o) * 1e-6) != (t < o) || (c > double(o) * 1e-6) != (t > o))) h::fail("changes/compare", "with %lld at %lld", o, t);
    }
    h::evaluated(story);
    // what cannot be represented is refused
    auto refused = [&](const char *what, auto f) {
      bool thrown = false;
      try {
        f();
      } catch (std::exception &) {
        thrown = true;
      }
      if (!thrown) h::fail(std::string("changes/") + what, "not refused");
      h::count("refusals");
    };
    const double a = double(s) * 1e-6, b = double(d0) * 1e-6;
    refused("end before start", [&] { UniformClock x(a, b, a - b * h::range(rng, 0, 2)); });
    refused("step", [&] { UniformClock x(a, h::chance(rng, .5) ? 0. : -b, a + 10); });
    refused("new step", [&] { c.set_timestep_duration(h::chance(rng, .5) ? 0. : -b); });
    refused("back", [&] { c += -b; });
    refused("infinite", [&] { UniformClock x(a, b, 1e13 * h::uni(rng, 1, 100)); });
    UniformClock f(0., b, 1e6);
    refused("overflow", [&] {
      f += UniformClock::Representation(9223372036854775806LL - h::below(rng, 1));
      ++f;
      ++f;
    });
    UniformClock g(0., b, 1e6);
    g += UniformClock::Representation(9223372036854775807LL / d0);
    refused("overflow of the next time", [&] { g.next_time(); });
  }
}

SECTION(custom) {
  const int n = h::tier(20000);
  for (int k = 0; k < n; k++) {
    std::vector<double> t;
    double start = h::uni(rng, -5, 5);
    for (int i = h::range(rng, 1, 12); i > 0; i--) t.push_back(h::chance(rng, .1) ? start : h::uni(rng, -10, 20));
    CustomClock c(t);
    // several events, with start times of their own
    for (int event = h::range(rng, 1, 3); event > 0; event--) {
      h::at("%zu times, start %.17g", t.size(), start);
      c.reset(start, true);
      c.remove_times_in_past(start);
      std::vector<double> want;
      for (double x : t)
        if (x > start) want.push_back(x);
      std::sort(want.begin(), want.end());
      if (c.current_time() != start) h::fail("custom/start", "starts at %.17g", c.current_time());
      double last = start;
      try {
        for (double w : want) {
          if (c.next_time() != w) h::fail("custom/next", "next time %.17g, expected %.17g", c.next_time(), w);
          if (std::fabs(c.timestep_duration() - (w - last)) > 1e-12)
            h::fail("custom/duration", "duration %.17g", c.timestep_duration());
          ++c;
          if (c.current_time() != w) h::fail("custom/current", "time %.17g, expected %.17g", c.current_time(), w);
          last = w;
        }
      } catch (std::out_of_range &) {
        h::fail("custom/lost", "there is no time after %.17g", last);
      }
      bool over = false;
      try {
        c.next_time();
      } catch (std::out_of_range &) {
        over = true;
      }
      if (!over) h::fail("custom/end", "there is a time after the last one");
      h::evaluated(h::mix(want.size(), t.size()));
      start = h::chance(rng, .2) ? start : h::uni(rng, -5, 5);
    }
  }
}
HARNESS_MAIN
