// Isospin coupling against Racah's formula and sum rules.
#include "h.h"
#include "smash/clebschgordan.h"
#include "smash/clebschgordan_lookup.h"
#include "smashenv.h"
#include "tables.h"

using namespace smash;

namespace {
std::vector<ParticleTypePtr> hadrons() {
  std::vector<ParticleTypePtr> v;
  for (auto &t : ParticleType::list_all())
    if (t.is_hadron()) v.push_back(&t);
  return v;
}
ParticleTypePtr other(h::Rng &rng, ParticleTypePtr p) {
  const auto s = p->iso_multiplet()->get_states();
  return h::pick(rng, s);
}
double c2(ParticleTypePtr a, ParticleTypePtr b, int I, int m) { return tab::cg(a->isospin(), b->isospin(), I, a->isospin3(), b->isospin3(), m); }
}  // namespace

// all coefficients with spins up to 4, asked for twice (calculated, then looked up)
SECTION(coefficients) {
  for (int again = 0; again < 2; again++)
    for (int a = 0; a <= 6; a++)
      for (int b = 0; b <= 6; b++)
        for (int c = 0; c <= a + b + 1 && c <= 8; c++)
          for (int ma = -a; ma <= a; ma += 2)
            for (int mb = -b; mb <= b; mb += 2)
              for (int mc = -c; mc <= c; mc += 1) {
                if (!again && h::chance(rng, .3)) continue;
                // sums that cannot be coupled are asked for by nobody
                if ((a + b + c) % 2 && ma + mb == mc) continue;
                const double got = ClebschGordan::coefficient(a, b, c, ma, mb, mc), want = tab::cg(a, b, c, ma, mb, mc);
                if (std::fabs(got - want) > 1e-9) h::fail("coefficient", "<%d/2 %d/2 %d/2 %d/2|%d/2 %d/2> is %.12g, expected %.12g", a, ma, b, mb, c, mc, got, want);
                h::evaluated(uint64_t(((((a * 10 + b) * 20 + c) * 40 + ma + 20) * 40 + mb + 20) * 40 + mc + 20));
              }
}

SECTION(states) {
  h::load_full(false);
  const auto v = hadrons();
  for (int k = h::tier(40000); k > 0; k--) {
    const auto a = h::pick(rng, v), b = h::pick(rng, v), r = h::pick(rng, v);
    h::at("%s %s %s", a->name().c_str(), b->name().c_str(), r->name().c_str());
    const double w = c2(a, b, r->isospin(), r->isospin3());
    const double g = isospin_clebsch_gordan_sqr_2to1(*a, *b, *r);
    if (std::fabs(g - w * w) > 1e-9) h::fail("2to1", "%.12g, expected %.12g", g, w * w);
    // the decays of every state of a multiplet add up to one
    if (tab::cg(a->isospin(), b->isospin(), r->isospin(), 0, 0, 0) != 0 || (a->isospin() + b->isospin() + r->isospin()) % 2 == 0) {
      double sum = 0;
      for (auto x : a->iso_multiplet()->get_states())
        for (auto y : b->iso_multiplet()->get_states()) sum += isospin_clebsch_gordan_sqr_2to1(*x, *y, *r);
      const bool possible = r->isospin() >= std::abs(a->isospin() - b->isospin()) && r->isospin() <= a->isospin() + b->isospin();
      if (std::fabs(sum - possible) > 1e-9) h::fail("2to1/sum", "sums up to %.12g", sum);
    }
    // total isospins
    const auto c = h::chance(rng, .5) ? h::pick(rng, v) : other(rng, a), d = h::chance(rng, .5) ? h::pick(rng, v) : other(rng, b);
    h::at("%s %s %s %s", a->name().c_str(), b->name().c_str(), c->name().c_str(), d->name().c_str());
    std::set<int> want2, want4, got2, got4;
    const int m = a->isospin3() + b->isospin3();
    for (int I = 0; I <= 12; I++) {
      const bool in = I >= std::abs(a->isospin() - b->isospin()) && I <= a->isospin() + b->isospin() && (I + a->isospin() + b->isospin()) % 2 == 0 && I >= std::abs(m);
      const bool out = I >= std::abs(c->isospin() - d->isospin()) && I <= c->isospin() + d->isospin() && (I + c->isospin() + d->isospin()) % 2 == 0 && m == c->isospin3() + d->isospin3();
      if (in) want2.insert(I);
      if (in && out) want4.insert(I);
    }
    int n2 = 0, n4 = 0;
    for (int I : I_tot_range(*a, *b)) {
      got2.insert(I);
      if (++n2 > 20) break;
    }
    for (int I : I_tot_range(*a, *b, *c, *d)) {
      got4.insert(I);
      if (++n4 > 20) break;
    }
    if (got2 != want2 || n2 != int(want2.size())) h::fail("range", "%d total isospins of two particles, expected %zu", n2, want2.size());
    if (got4 != want4 || n4 != int(want4.size())) h::fail("range", "%d total isospins of four particles, expected %zu", n4, want4.size());
    double all = 0;
    for (int I = -1; I <= 7; I++) {
      double w4 = 0;
      for (int J : want4)
        if (I < 0 || J == I) w4 += std::pow(c2(a, b, J, m) * c2(c, d, J, m), 2);
      const double g4 = isospin_clebsch_gordan_sqr_2to2(*a, *b, *c, *d, I);
      if (std::fabs(g4 - w4) > 1e-9) h::fail("2to2", "for total isospin %d/2: %.12g, expected %.12g", I, g4, w4);
      if (I >= 0) all += g4;
      const double back = isospin_clebsch_gordan_sqr_2to2(*c, *d, *a, *b, I);
      if (std::fabs(g4 - back) > 1e-9) h::fail("2to2/symmetry", "%.12g, but %.12g backwards", g4, back);
    }
    if (std::fabs(all - isospin_clebsch_gordan_sqr_2to2(*a, *b, *c, *d)) > 1e-9) h::fail("2to2/sum", "the isospins add up to %.12g", all);
    // three particles
    int ways = 0, Iab = -1;
    for (int i = std::abs(a->isospin() - b->isospin()); i <= a->isospin() + b->isospin(); i += 2)
      if (r->isospin() >= std::abs(i - c->isospin()) && r->isospin() <= i + c->isospin() && (r->isospin() + i + c->isospin()) % 2 == 0) ways++, Iab = i;
    int tried = 0;  // as many intermediate isospins as are tried, with those of the wrong parity
    for (int i = std::abs(a->isospin() - b->isospin()); i <= a->isospin() + b->isospin(); i++) tried += r->isospin() >= std::abs(i - c->isospin()) && r->isospin() <= i + c->isospin();
    if (ways == 1 && tried == 1) {
      const double w3 = std::pow(c2(a, b, Iab, m) * tab::cg(Iab, c->isospin(), r->isospin(), m, c->isospin3(), r->isospin3()), 2);
      const double g3 = isospin_clebsch_gordan_sqr_3to1(*a, *b, *c, *r);
      if (std::fabs(g3 - w3) > 1e-9) h::fail("3to1", "into %s: %.12g, expected %.12g", r->name().c_str(), g3, w3);
      h::count("three-body couplings");
    } else if (ways > 1) {
      bool thrown = false;
      try {
        isospin_clebsch_gordan_sqr_3to1(*a, *b, *c, *r);
      } catch (std::runtime_error &) {
        thrown = true;
      }
      if (!thrown) h::fail("3to1", "a coupling that is not unique is accepted for %s", r->name().c_str());
    }
    h::evaluated(a->iso_multiplet()->name() + b->iso_multiplet()->name() + r->iso_multiplet()->name());
  }
}
HARNESS_MAIN
