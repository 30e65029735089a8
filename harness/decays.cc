// Every decay of the full particle list, performed many times and judged from outside.
// rules: conserve/ shell/ history/ once/ branching/
#include "smash/decayaction.h"
#include "smash/decaymodes.h"
#include "smash/particles.h"
#include "smash/quantumnumbers.h"

#include "h.h"
#include "smashenv.h"

using namespace smash;

namespace {
double lowest(const ParticleType &t) { return t.is_stable() ? t.mass() : t.min_mass_kinematic(); }

/// an energy from which on the mode has a positive width
double open_at(const DecayBranch &b) {
  double s = 0.002;
  int broad = 0;
  for (const auto &d : b.particle_types()) broad += !d->is_stable();
  // far below the poles of two resonances the sampling takes minutes
  for (const auto &d : b.particle_types())
    s += d->is_stable() ? d->mass() : broad > 1 ? std::max(d->min_mass_spectral() + 0.004, d->mass() - 3. * d->width_at_pole()) : d->min_mass_spectral() + 0.004;
  return s;
}

void decays(h::Rng &rng, unsigned part, unsigned parts) {
  h::load_full();
  random::set_seed(int64_t(rng() >> 2));
  const int tries = h::tier(4, 12);
  unsigned k = 0;
  for (const ParticleType &t : ParticleType::list_all()) {
    if (k++ % parts != part) continue;
    // charm and bottom states decay the same way; the modes of a stable particle are weak or e.m.
    const auto &modes = t.decay_modes().decay_mode_list();
    if (modes.empty()) continue;
    const bool strong = !t.is_stable();
    double mmin = t.mass();
    for (auto &mode : modes) mmin = std::min(mmin, open_at(*mode));
    for (int n = 0; n < tries * (strong ? 1 : 1) + int(modes.size()); n++) {
      double m = t.mass();
      if (strong && h::chance(rng, .8))
        m = h::chance(rng, .3) ? mmin + h::uni(rng, 1e-4, 0.05) : h::uni(rng, mmin + 1e-3, std::max(mmin + .1, t.mass() + 3 * t.width_at_pole()));
      ParticleData p(t);
      p.set_4momentum(m, h::uni(rng, -2, 2), h::uni(rng, -2, 2), h::chance(rng, .3) ? h::uni(rng, -50, 50) : h::uni(rng, -2, 2));
      const double t0 = h::uni(rng, -5, 50);
      p.set_4position(FourVector(t0, h::uni(rng, -9, 9), h::uni(rng, -9, 9), h::uni(rng, -9, 9)));
      p.set_formation_time(t0 - h::uni(rng, 0, 1));
      p.set_perturbative_weight(h::uni(rng, 0.1, 1));
      const bool core = h::chance(rng, .2);
      if (core) p.fluidize();
      Particles box;
      const ParticleData in = box.insert(p);
      DecayBranchList branches;
      // the partial widths themselves are judged elsewhere; any positive weights will do here
      for (auto &mode : modes)
        if (open_at(*mode) < m && mode->weight() > 0)
          branches.push_back(std::make_unique<DecayBranch>(mode->type(), mode->weight()));
      if (branches.empty()) continue;
      double total = 0;
      for (auto &b : branches) {
        total += b->weight();
        if (b->weight() < 0) h::fail("branching/negative", "%s at %g GeV has a negative partial width", t.name().c_str(), m);
      }
      if (!(total > 0)) continue;
      // one mode at a time, so that rare ones are seen as often as the others
      const size_t which = size_t(h::below(rng, int(branches.size())));
      const bool one = h::chance(rng, .7);
      std::string name = t.name();
      if (one) {
        if (!(branches[which]->weight() > 0)) continue;
        for (auto &q : branches[which]->particle_types()) name += " " + q->name();
      }
      h::at("%s m=%.9g", name.c_str(), m);
      DecayAction act(in, 0.);
      if (one)
        act.add_decay(std::move(branches[which]));
      else
        act.add_decays(std::move(branches));
      act.generate_final_state();
      const uint32_t pid = uint32_t(h::range(rng, 1, 100000));
      act.perform(&box, pid);
      h::evaluated(name);
      h::count("decays");
      // judged on what is in the container now
      FourVector sum;
      int q = 0, b = 0, s = 0, c = 0, bt = 0;
      size_t cnt = 0;
      for (const ParticleData &d : box) {
        cnt++;
        sum += d.momentum();
        const PdgCode g = d.pdgcode();
        q += g.charge();
        b += g.baryon_number();
        s += g.strangeness();
        c += g.charmness();
        bt += g.bottomness();
        if (d.id() == in.id()) h::fail("once/stays", "the decayed particle is still there");
        const double dm = d.momentum().abs();
        if (!(d.momentum().x0() > 0) || !std::isfinite(d.momentum().x0())) h::fail("shell/energy", "a product has energy %g", d.momentum().x0());
        if (d.type().is_stable()) {
          if (!h::close(d.momentum().sqr(), d.pole_mass() * d.pole_mass(), 0, 1e-7 * (1 + d.momentum().x0() * d.momentum().x0())))
            h::fail("shell/stable", "product %s has mass %g instead of %g", d.type().name().c_str(), dm, d.pole_mass());
        } else if (dm < lowest(d.type()) - 1e-6 * (1 + d.momentum().x0())) {
          h::fail("shell/threshold", "product %s has mass %g below its threshold %g", d.type().name().c_str(), dm, lowest(d.type()));
        }
        if (!(d.position() == in.position())) h::fail("history/position", "a product does not start where the mother decayed");
        if (!h::close(d.formation_time(), t0, 1e-12, 1e-12)) h::fail("history/formation", "a product is formed at %g, the decay is at %g", d.formation_time(), t0);
        const HistoryData hi = d.get_history();
        if (hi.p1 != in.pdgcode() || hi.p2 != PdgCode(0x0)) h::fail("history/mother", "the mothers of %s are recorded as %s, %s", d.type().name().c_str(), hi.p1.string().c_str(), hi.p2.string().c_str());
        if (hi.process_type != ProcessType::Decay || uint32_t(hi.id_process) != pid) h::fail("history/process", "process %d is recorded as %d of type %d", int(pid), int(hi.id_process), int(hi.process_type));
        if (!h::close(hi.time_last_collision, t0, 1e-12, 1e-12)) h::fail("history/time", "last interaction at %g recorded as %g", t0, hi.time_last_collision);
        if (core && !d.is_core()) h::fail("history/core", "the core label is lost in a decay");
        if (d.pdgcode().is_heavy_flavor() && d.perturbative_weight() != in.perturbative_weight()) h::fail("history/weight", "a heavy-flavour product has weight %g, the mother %g", d.perturbative_weight(), in.perturbative_weight());
      }
      if (cnt < 2) h::fail("once/products", "%zu products", cnt);
      const double e = in.momentum().x0();
      for (int i = 0; i < 4; i++)
        if (std::fabs(sum[i] - in.momentum()[i]) > 1e-7 * (1 + e)) h::fail("conserve/momentum", "four-momentum component %d goes from %.12g to %.12g", i, in.momentum()[i], sum[i]);
      const PdgCode g = in.pdgcode();
      if (q != g.charge()) h::fail("conserve/charge", "charge %d -> %d", g.charge(), q);
      if (b != g.baryon_number()) h::fail("conserve/baryon", "baryon number %d -> %d", g.baryon_number(), b);
      if (strong && (s != g.strangeness() || c != g.charmness() || bt != g.bottomness()))
        h::fail("conserve/flavour", "strangeness %d -> %d, charm %d -> %d, bottom %d -> %d", g.strangeness(), s, g.charmness(), c, g.bottomness(), bt);
      if (n == 0 && k % 97 == 1) h::sample("%s, m=%.4g, E=%.4g", name.c_str(), m, e);
    }
  }
}
}  // namespace

SECTION(decays0) { decays(rng, 0, 6); }
SECTION(decays1) { decays(rng, 1, 6); }
SECTION(decays2) { decays(rng, 2, 6); }
SECTION(decays3) { decays(rng, 3, 6); }
SECTION(decays4) { decays(rng, 4, 6); }
SECTION(decays5) { decays(rng, 5, 6); }

HARNESS_MAIN
