// The frame of an interaction: validity, history, formation, conservation check, phase space,
// propagation and walls.  rules: once/ history/ form/ conserve/ shell/ free/ box/
#include <memory>

#include "h.h"
#include "params.h"
#include "smash/action.h"
#include "smash/algorithms.h"
#include "smash/boxmodus.h"
#include "smash/configuration.h"
#include "smash/particles.h"
#include "smash/propagation.h"
#include "smash/wallcrossingaction.h"
#include "smashenv.h"

using namespace smash;

namespace {
class TestAction : public Action {
 public:
  TestAction(const ParticleList &in, const ParticleList &out, double t, ProcessType ty) : Action(in, out, t, ty) {}
  double get_total_weight() const override { return 1.; }
  double get_partial_weight() const override { return 1.; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &o) const override { o << "test"; }
  void form() { assign_formation_time_to_outgoing_particles(); }
};

const ParticleType &any_type(h::Rng &rng) {
  const auto &l = ParticleType::list_all();
  return l[size_t(h::below(rng, int(l.size())))];
}
ParticleData some(h::Rng &rng, const ParticleType &t, double time) {
  ParticleData p(t);
  p.set_4momentum(t.mass() * (t.is_stable() ? 1. : h::uni(rng, .9, 1.2)), h::uni(rng, -2, 2), h::uni(rng, -2, 2),
                  h::chance(rng, .2) ? h::uni(rng, -80, 80) : h::uni(rng, -2, 2));
  p.set_4position(FourVector(time, h::uni(rng, -9, 9), h::uni(rng, -9, 9), h::uni(rng, -9, 9)));
  p.set_formation_time(time - h::uni(rng, 0, 1));
  return p;
}
bool same(const FourVector &a, const FourVector &b, double tol) {
  for (int i = 0; i < 4; i++)
    if (!(std::fabs(a[i] - b[i]) <= tol)) return false;
  return true;
}

const ProcessType kTwo[] = {ProcessType::TwoToTwo, ProcessType::TwoToThree, ProcessType::TwoToFour, ProcessType::TwoToFive, ProcessType::TwoToOne,
                            ProcessType::StringSoftSingleDiffractiveAX, ProcessType::StringSoftSingleDiffractiveXB, ProcessType::StringSoftDoubleDiffractive,
                            ProcessType::StringSoftAnnihilation, ProcessType::StringSoftNonDiffractive, ProcessType::StringHard, ProcessType::Bremsstrahlung};
const ProcessType kNone[] = {ProcessType::MultiParticleThreeMesonsToOne, ProcessType::MultiParticleThreeToTwo, ProcessType::MultiParticleFourToTwo,
                             ProcessType::MultiParticleFiveToTwo, ProcessType::Freeforall, ProcessType::Thermalization};
}  // namespace

SECTION(perform) {
  h::load_mid();
  const int N = h::tier(3000);
  for (int n = 0; n < N; n++) {
    Particles box;
    const double t = h::uni(rng, 0, 40);
    const int total = h::range(rng, 5, 12);
    for (int i = 0; i < total; i++) box.insert(some(rng, any_type(rng), t));
    ParticleList all = box.copy_to_vector();
    // a history for everybody
    for (auto &p : box) {
      ParticleList parents = {all[size_t(h::below(rng, total))], all[size_t(h::below(rng, total))]};
      p.set_history(h::range(rng, 0, 9), uint32_t(h::range(rng, 1, 50)), ProcessType::TwoToTwo, h::uni(rng, -1, t), parents);
    }
    all = box.copy_to_vector();
    std::shuffle(all.begin(), all.end(), rng);
    enum Kind { kElastic, kWall, kDecay, kPair, kMulti, kKeep, kFailed };
    const Kind kind = Kind(h::below(rng, 7));
    ProcessType ty = ProcessType::Elastic;
    size_t nin = 2, nout = 2;
    switch (kind) {
      case kElastic: break;
      case kWall: ty = ProcessType::Wall, nin = nout = 1; break;
      case kKeep: ty = ProcessType::FluidizationNoRemoval, nin = nout = 1; break;
      case kDecay: ty = ProcessType::Decay, nin = 1, nout = size_t(h::range(rng, 2, 4)); break;
      case kPair: ty = kTwo[h::below(rng, 12)], nout = size_t(h::range(rng, 1, 6)); break;
      case kMulti: ty = kNone[h::below(rng, 6)], nin = size_t(h::range(rng, 1, 5)), nout = size_t(h::range(rng, 1, 4)); break;
      case kFailed: ty = ProcessType::FailedString; break;
    }
    const bool keep = kind == kElastic || kind == kWall || kind == kKeep;
    ParticleList in(all.begin(), all.begin() + long(nin)), out;
    const double when = t;
    if (keep || kind == kFailed) {
      out = in;
      if (kind == kElastic && nin == 2) {  // exchange a bit of momentum in the pair's frame: swap directions
        out[0].set_4momentum(in[0].momentum());
        out[1].set_4momentum(in[1].momentum());
      }
      if (kind == kWall) out[0].set_4position(FourVector(t, 1, 2, 3));
    } else {
      for (size_t i = 0; i < nout; i++) out.push_back(some(rng, any_type(rng), t));
    }
    const bool balanced = keep || kind == kFailed || ty == ProcessType::Freeforall || is_string_soft_process(ty) || ty == ProcessType::StringHard;
    const uint32_t pid = uint32_t(h::range(rng, 100, 100000));
    h::at("process %d, %zu -> %zu", int(ty), nin, nout);
    TestAction act(in, out, when, ty);
    if (!act.is_valid(box)) h::fail("once/valid", "an action on the particles of the container is called invalid");
    bool threw = false;
    try {
      act.perform(&box, pid);
    } catch (std::runtime_error &) {
      threw = true;
    }
    // conservation must have been judged: random products never balance
    bool nonzero = false;
    FourVector d;
    int dq = 0;
    for (auto &p : in) d += p.momentum(), dq += p.type().charge();
    for (auto &p : out) d -= p.momentum(), dq -= p.type().charge();
    nonzero = !same(d, FourVector(), 1e-3) || dq;
    const bool weak = kind == kDecay && in[0].type().is_stable();
    if (!balanced && !weak && nonzero && !threw) h::fail("conserve/silent", "a reaction that does not conserve four-momentum or charge raised no error");
    if (balanced && threw) h::fail("conserve/alarm", "an error was raised where none is due");
    // the container: incoming gone (or updated), outgoing there
    size_t want = size_t(total) - (keep ? 0 : nin) + (keep ? 0 : nout);
    if (box.size() != want) h::fail("once/size", "%zu particles, expected %zu", box.size(), want);
    for (size_t i = nin; i < all.size(); i++) {
      if (!box.is_valid(all[i])) h::fail("once/other", "a particle that took no part is invalid afterwards");
      else {
        const ParticleData &o = box.lookup(all[i]);
        if (!(o.momentum() == all[i].momentum()) || o.id_process() != all[i].id_process()) h::fail("once/other", "a particle that took no part changed");
      }
    }
    if (!keep || kind == kElastic)
      for (auto &p : in)
        if (box.is_valid(p)) h::fail("once/stale", "a particle from before the reaction is still valid");
    if (kind != kWall && kind != kKeep && act.is_valid(box)) h::fail("once/again", "the same reaction could be performed again");
    size_t seen = 0;
    for (const ParticleData &p : act.outgoing_particles()) {
      bool found = false;
      for (const ParticleData &q : box)
        if (q.id() == p.id()) {
          found = true;
          const HistoryData hi = q.get_history();
          const HistoryData before = keep || kind == kFailed ? in[seen].get_history() : out[seen].get_history();
          const bool stays = kind == kWall || kind == kKeep;
          if (stays) {
            if (hi.id_process != before.id_process || hi.process_type != before.process_type || hi.collisions_per_particle != before.collisions_per_particle ||
                hi.time_last_collision != before.time_last_collision || hi.p1 != before.p1 || hi.p2 != before.p2)
              h::fail("history/wall", "crossing a wall changed the history");
            continue;
          }
          if (hi.collisions_per_particle != before.collisions_per_particle + 1) h::fail("history/ncoll", "number of collisions goes from %d to %d", before.collisions_per_particle, hi.collisions_per_particle);
          if (hi.id_process != pid || hi.process_type != ty) h::fail("history/process", "process %u of type %d recorded as %u of type %d", pid, int(ty), hi.id_process, int(hi.process_type));
          if (!h::close(hi.time_last_collision, when, 1e-12)) h::fail("history/time", "reaction at %g recorded at %g", when, hi.time_last_collision);
          PdgCode m1 = PdgCode(0x0), m2 = PdgCode(0x0);
          if (kind == kDecay) m1 = in[0].pdgcode();
          if (kind == kPair) m1 = in[0].pdgcode(), m2 = in[1].pdgcode();
          if (kind == kElastic || kind == kFailed) m1 = before.p1, m2 = before.p2;
          if (hi.p1 != m1 || hi.p2 != m2) h::fail("history/mothers", "parents %s, %s, expected %s, %s", hi.p1.string().c_str(), hi.p2.string().c_str(), m1.string().c_str(), m2.string().c_str());
        }
      if (!found) h::fail("once/product", "a product is not in the container");
      if (!keep && seen < nin)
        for (auto &q : in)
          if (q.id() == p.id()) h::fail("once/id", "a product has the identifier of an incoming particle");
      seen++;
    }
    h::evaluated(h::mix(uint64_t(ty), nin * 16 + nout));
    h::count("reactions performed");
  }
  h::sample("decays, pair and multi-particle reactions, wall crossings with random particles of the mid list");
}

SECTION(stale) {
  // an action is valid exactly as long as none of its particles has interacted
  h::load_mid();
  const int N = h::tier(1500);
  for (int n = 0; n < N; n++) {
    Particles box;
    const int total = h::range(rng, 4, 20);
    for (int i = 0; i < total; i++) box.insert(some(rng, any_type(rng), 1.));
    ParticleList all = box.copy_to_vector();
    std::vector<std::unique_ptr<TestAction>> acts;
    std::vector<std::set<int>> used;
    for (int k = 0; k < 12; k++) {
      std::shuffle(all.begin(), all.end(), rng);
      const int nin = h::range(rng, 1, std::min(total, 4));
      acts.push_back(std::make_unique<TestAction>(ParticleList(all.begin(), all.begin() + nin), ParticleList(), 1., ProcessType::Freeforall));
      used.emplace_back();
      for (int i = 0; i < nin; i++) used.back().insert(all[size_t(i)].id());
    }
    std::set<int> touched;
    ParticleList cur = box.copy_to_vector();
    for (int k = 0; k < 6; k++) {
      // elastic or absorbing reactions of one or two
      std::vector<ParticleData> live;
      for (auto &p : box) live.push_back(p);
      if (live.size() < 2) break;
      const ParticleData a = live[size_t(h::below(rng, int(live.size())))];
      const bool el = h::chance(rng, .5);
      ParticleList in = {a}, out;
      if (el) {
        out = in;
      } else if (h::chance(rng, .6)) {
        out = {some(rng, any_type(rng), 1.), some(rng, any_type(rng), 1.)};
      }
      TestAction act(in, out, 1., el ? ProcessType::Elastic : ProcessType::Freeforall);
      act.perform(&box, uint32_t(n * 10 + k + 1));
      touched.insert(a.id());
      for (size_t j = 0; j < acts.size(); j++) {
        bool hit = false;
        for (int id : used[j]) hit |= touched.count(id) > 0;
        if (acts[j]->is_valid(box) == hit) h::fail(hit ? "once/stale" : "once/valid", "an action whose particles %s is called %s", hit ? "have interacted" : "have not interacted", hit ? "valid" : "invalid");
        h::count("validity tests");
      }
    }
    h::evaluated(uint64_t(n));
  }
}

SECTION(formation) {
  h::load_mid(false);
  const int N = h::tier(4000);
  for (int n = 0; n < N; n++) {
    ParticleData::formation_power_ = h::chance(rng, .3) ? 0. : h::uni(rng, .2, 4.);
    ParticleData p(any_type(rng));
    const double t = h::uni(rng, -2, 20), begin = h::uni(rng, t - 3, t + 3), end = begin + h::uni(rng, .01, 5);
    const double f0 = h::chance(rng, .3) ? 0. : h::chance(rng, .2) ? 1. : h::uni(rng, 0, 1);
    p.set_4position(FourVector(t, 0, 0, 0));
    p.set_slow_formation_times(begin, end);
    p.set_cross_section_scaling_factor(f0);
    double last = -1;
    h::at("begin %g end %g f0 %g power %g", begin, end, f0, ParticleData::formation_power_);
    for (int k = 0; k <= 20; k++) {
      const double when = begin - 2 + (end - begin + 4) * k / 20., f = p.xsec_scaling_factor(when - t);
      if (!(f >= f0 - 1e-12 && f <= 1 + 1e-12)) h::fail("form/range", "factor %g at %g", f, when);
      if (f < last - 1e-12) h::fail("form/monotonic", "the factor falls from %g to %g at %g", last, f, when);
      if (when >= end + 1e-9 && f != 1.) h::fail("form/formed", "factor %g after the formation time", f);
      if (when <= begin - 1e-9 && !h::close(f, f0, 1e-12, 1e-12)) h::fail("form/before", "factor %g before formation begins, expected %g", f, f0);
      if (ParticleData::formation_power_ <= 0 && when < end - 1e-9 && !h::close(f, f0, 1e-12, 1e-12)) h::fail("form/step", "factor %g before the formation time", f);
      if (ParticleData::formation_power_ > 0 && when > begin + 1e-9 && when < end - 1e-9) {
        const double want = f0 + (1 - f0) * std::pow((when - begin) / (end - begin), ParticleData::formation_power_);
        if (!h::close(f, want, 1e-9, 1e-9)) h::fail("form/power", "factor %g at %g, the power law gives %g", f, when, want);
      }
      last = f;
      h::count("factors");
    }
    p.set_formation_time(end);
    if (p.formation_time() != end || p.begin_formation_time() != end) h::fail("form/set", "set_formation_time sets %g..%g", p.begin_formation_time(), p.formation_time());
    h::evaluated(uint64_t(n));
  }
  ParticleData::formation_power_ = 1.;
}

SECTION(inherit) {
  // formation of products from incoming particles that may be unformed
  h::load_mid(false);
  const int N = h::tier(6000);
  for (int n = 0; n < N; n++) {
    const double t = h::uni(rng, 0, 20);
    const int nin = h::range(rng, 1, 5), nout = h::range(rng, 1, 5);
    ParticleList in, out;
    const bool tie = h::chance(rng, .3);
    const double tf = t + h::uni(rng, -2, 3);
    double latest = -1e9;
    for (int i = 0; i < nin; i++) {
      in.push_back(some(rng, any_type(rng), t));
      const double f = tie ? tf : t + h::uni(rng, -3, 3);
      in.back().set_slow_formation_times(std::min(t, f) - h::uni(rng, 0, 1), f);
      in.back().set_cross_section_scaling_factor(h::uni(rng, 0, 1));
      latest = std::max(latest, f);
    }
    double f_in = 2, begin = 0;
    for (auto &p : in)
      if (latest - p.formation_time() < 1e-12 && p.initial_xsec_scaling_factor() < f_in) f_in = p.initial_xsec_scaling_factor(), begin = p.begin_formation_time();
    std::vector<double> own_time, own_fac;
    for (int i = 0; i < nout; i++) {
      out.push_back(some(rng, any_type(rng), t));
      const bool fragment = h::chance(rng, .4);
      own_time.push_back(fragment ? t + h::uni(rng, .1, 4) : t);
      own_fac.push_back(fragment ? h::uni(rng, 0, .99) : 1.);
      out.back().set_slow_formation_times(t, own_time.back());
      out.back().set_cross_section_scaling_factor(own_fac.back());
    }
    h::at("t %g, latest incoming formation %g, %d -> %d", t, latest, nin, nout);
    TestAction act(in, out, t, ProcessType::TwoToTwo);
    act.form();
    for (int i = 0; i < nout; i++) {
      const ParticleData &p = act.outgoing_particles()[size_t(i)];
      const bool fragment = own_fac[size_t(i)] < 1;
      const double want_t = latest > t ? (fragment ? std::max(latest, own_time[size_t(i)]) : latest) : own_time[size_t(i)];
      const double want_f = latest > t ? (fragment ? f_in * own_fac[size_t(i)] : f_in) : own_fac[size_t(i)];
      if (!h::close(p.formation_time(), want_t, 1e-12, 1e-12)) h::fail("form/inherit", "formation time %g, expected %g", p.formation_time(), want_t);
      if (!h::close(p.initial_xsec_scaling_factor(), want_f, 1e-12, 1e-12)) h::fail("form/factor", "scaling factor %g, expected %g", p.initial_xsec_scaling_factor(), want_f);
      if (latest > t && !fragment && !h::close(p.begin_formation_time(), begin, 1e-12, 1e-12)) h::fail("form/begin", "formation begins at %g, expected %g", p.begin_formation_time(), begin);
      h::count("products");
    }
    h::evaluated(uint64_t(n));
  }
}

SECTION(phasespace) {
  random::set_seed(int64_t(rng() >> 2));
  const int N = h::tier(4000);
  for (int n = 0; n < N; n++) {
    const int k = h::range(rng, 2, 9);
    std::vector<double> m;
    double sum = 0;
    for (int i = 0; i < k; i++) m.push_back(h::chance(rng, .1) ? 0. : h::uni(rng, .01, 2)), sum += m.back();
    const double s = sum + (h::chance(rng, .3) ? h::uni(rng, 1e-4, .05) : h::uni(rng, .05, 10));
    std::vector<FourVector> mom(m.size());
    h::at("%d bodies, sqrt(s) = %g, sum of masses %g", k, s, sum);
    Action::sample_manybody_phasespace_impl(s, m, mom);
    if (mom.size() != m.size()) {
      h::fail("conserve/number", "%zu momenta", mom.size());
      continue;
    }
    FourVector tot;
    for (size_t i = 0; i < m.size(); i++) {
      tot += mom[i];
      if (!h::close(mom[i].sqr(), m[i] * m[i], 0, 1e-8 * s * s)) h::fail("shell/manybody", "mass %g instead of %g", mom[i].abs(), m[i]);
      if (!(mom[i].x0() >= m[i] - 1e-9 * s)) h::fail("shell/energy", "energy %g of a particle of mass %g", mom[i].x0(), m[i]);
    }
    if (!same(tot, FourVector(s, 0, 0, 0), 1e-8 * s)) h::fail("conserve/manybody", "total (%g, %g, %g, %g)", tot[0], tot[1], tot[2], tot[3]);
    h::evaluated(uint64_t(k * 1000 + n));
  }
}

SECTION(propagation) {
  h::load_mid(false);
  const int N = h::tier(400);
  for (int n = 0; n < N; n++) {
    Particles box;
    const double t0 = h::uni(rng, -5, 10);
    const bool different = h::chance(rng, .5);
    const int total = h::range(rng, 1, 30);
    std::vector<FourVector> beam;
    for (int i = 0; i < total; i++) {
      ParticleData p = some(rng, any_type(rng), different ? t0 - h::uni(rng, 0, 2) : t0);
      if (h::chance(rng, .5)) p.set_history(h::range(rng, 1, 3), 7, ProcessType::Elastic, t0, ParticleList{});
      box.insert(p);
    }
    const bool frozen = h::chance(rng, .5);
    const int nb = frozen ? h::range(rng, 0, total) : 0;
    for (int i = 0; i < nb; i++) {
      ThreeVector v(0, 0, h::chance(rng, .5) ? .8 : -.7);
      beam.push_back(FourVector(1., v));
    }
    if (h::chance(rng, .4)) box.remove(box.front());
    ParticleList before = box.copy_to_vector();
    const double to = t0 + (h::chance(rng, .2) ? 0. : h::uni(rng, 0, 50));
    propagate_straight_line(&box, to, beam);
    size_t i = 0;
    for (const ParticleData &p : box) {
      const ParticleData &o = before[i++];
      const bool with_beam = size_t(o.id()) < beam.size() && o.get_history().collisions_per_particle == 0;
      const ThreeVector v = with_beam ? beam[size_t(o.id())].velocity() : o.momentum().threevec() / o.momentum().x0();
      const double dt = to - o.position().x0();
      const FourVector want(to, o.position().threevec() + v * dt);
      if (!same(p.position(), want, 1e-9 * (1 + std::fabs(dt)))) h::fail("free/line", "a particle is not on its straight line after %g fm", dt);
      if (p.position().x0() != to) h::fail("time/arrival", "arrives at %.17g instead of %.17g", p.position().x0(), to);
      if (!(p.momentum() == o.momentum()) || p.id() != o.id() || p.formation_time() != o.formation_time()) h::fail("free/else", "propagation changed more than the position");
      h::count("flights");
    }
    // back to a time before all of them
    before = box.copy_to_vector();
    const double back = to - h::uni(rng, 0, 10);
    backpropagate_straight_line(&box, back);
    i = 0;
    for (const ParticleData &p : box) {
      const ParticleData &o = before[i++];
      const ThreeVector v = o.momentum().threevec() / o.momentum().x0();
      const FourVector want(back, o.position().threevec() + v * (back - to));
      if (!same(p.position(), want, 1e-9 * (1 + to - back))) h::fail("free/back", "a particle is not on its straight line");
      if (!h::close(p.formation_time(), to, 1e-12, 1e-12)) h::fail("form/back", "formation time %g, expected %g", p.formation_time(), to);
      if (p.initial_xsec_scaling_factor() != 0. || (to > back && p.xsec_scaling_factor() != 0.)) h::fail("form/back", "a particle that is not formed yet has cross section factor %g", p.xsec_scaling_factor());
      if (!(p.momentum() == o.momentum())) h::fail("free/else", "backward propagation changed the momentum");
    }
    h::evaluated(uint64_t(n));
  }
}

SECTION(point) {
  // where an interaction takes place
  h::load_mid(false);
  const int N = h::tier(4000);
  for (int n = 0; n < N; n++) {
    const double t = h::uni(rng, 0, 10), dt = h::uni(rng, 0, 3);
    const int k = h::range(rng, 1, 5);
    ParticleList in;
    ThreeVector mean;
    for (int i = 0; i < k; i++) {
      in.push_back(some(rng, any_type(rng), t));
      mean += in.back().position().threevec() + in.back().momentum().threevec() / in.back().momentum().x0() * dt;
    }
    mean /= k;
    TestAction act(in, in, t + dt, ProcessType::Elastic);
    const FourVector x = act.get_interaction_point();
    if (!same(x, FourVector(t + dt, mean), 1e-9 * 20)) h::fail("history/point", "the interaction point is not in the middle of its particles");
    if (!h::close(act.time_of_execution(), t + dt, 1e-12)) h::fail("time/execution", "executed at %g instead of %g", act.time_of_execution(), t + dt);
    h::evaluated(uint64_t(n));
  }
}

SECTION(walls) {
  h::load_mid(false);
  const int N = h::tier(600);
  for (int n = 0; n < N; n++) {
    const double L = h::uni(rng, 1, 30), t = h::uni(rng, 0, 20);
    WallCrossActionsFinder finder(L);
    ParticleList list;
    for (int i = 0; i < 20; i++) {
      ParticleData p = some(rng, any_type(rng), t);
      const std::vector<ThreeVector> axes = {{0, 0, 1}, {0, -1, 0}, {1, 0, 0}, {0, 0, 0}, {0, 1, -1}};
      if (h::chance(rng, .3)) p.set_4momentum(p.type().mass(), h::pick(rng, axes));
      p.set_4position(FourVector(t, h::uni(rng, 0, L), h::uni(rng, 0, L), h::uni(rng, 0, L)));
      p.set_id(i);
      list.push_back(p);
    }
    const double tmax = h::uni(rng, 0, 2 * L);
    ActionList acts = finder.find_actions_in_cell(list, tmax, 0., {});
    std::map<int, const Action *> by;
    for (auto &a : acts) {
      const int id = a->incoming_particles()[0].id();
      if (by.count(id)) h::fail("box/twice", "two wall crossings of the same particle");
      by[id] = a.get();
    }
    for (auto &p : list) {
      const ThreeVector v = p.momentum().threevec() / p.momentum().x0(), r = p.position().threevec();
      double first = 1e300, second = 1e300;
      int axis = -1;
      for (int i = 0; i < 3; i++) {
        if (std::fabs(v[i]) < 1e-6) continue;
        const double c = (v[i] > 0 ? L - r[i] : -r[i]) / v[i];
        if (c < first) second = first, first = c, axis = i;
        else second = std::min(second, c);
      }
      h::at("L %g, particle at (%g, %g, %g), v (%g, %g, %g), within %g", L, r[0], r[1], r[2], v[0], v[1], v[2], tmax);
      const bool expected = first < tmax;
      if (std::fabs(first - tmax) < 1e-9) continue;
      h::count("flights");
      if (expected != (by.count(p.id()) > 0)) {
        h::fail("box/found", "the wall is hit after %g, a crossing was %sfound", first, expected ? "not " : "");
        continue;
      }
      if (!expected) continue;
      h::count("crossings");
      const Action &a = *by[p.id()];
      if (!h::close(a.time_of_execution(), t + first, 1e-9, 1e-9)) h::fail("box/time", "crossing at %g, expected %g", a.time_of_execution(), t + first);
      const ParticleData &o = a.outgoing_particles()[0];
      if (!(o.momentum() == p.momentum()) || o.id() != p.id() || o.pdgcode() != p.pdgcode()) h::fail("box/momentum", "a crossing changed the particle");
      for (int i = 0; i < 3; i++) {
        double want = r[i] + v[i] * first;
        if (i == axis) want += v[i] > 0 ? -L : L;
        if (second - first > 1e-9 && !h::close(o.position()[i + 1], want, 0, 1e-9 * (1 + L))) h::fail("box/position", "coordinate %d is %g, expected %g", i, o.position()[i + 1], want);
      }
      if (!h::close(o.position().x0(), t + first, 1e-9, 1e-9)) h::fail("box/time", "crossing put to time %g", o.position().x0());
    }
    // a particle that is beyond the wall is put back
    std::vector<double> x = {h::uni(rng, -L, 2 * L), h::uni(rng, 0, L), h::uni(rng, -L, 2 * L), h::chance(rng, .5) ? L : 0.}, y = x;
    const bool wrap = enforce_periodic_boundaries(y.begin(), y.end(), L);
    bool need = false;
    for (size_t i = 0; i < x.size(); i++) {
      need |= x[i] < 0 || x[i] >= L;
      const double q = (y[i] - x[i]) / L;
      if (!(y[i] >= 0 && y[i] <= L) || std::fabs(q - std::round(q)) > 1e-9) h::fail("box/wrap", "%g is wrapped to %g in a box of %g", x[i], y[i], L);
      if (x[i] >= 0 && x[i] < L && x[i] != y[i]) h::fail("box/wrap", "%g inside of a box of %g is moved to %g", x[i], L, y[i]);
    }
    if (wrap != need) h::fail("box/wrap", "wrapping is reported as %d, expected %d", wrap, need);
    h::evaluated(uint64_t(n));
  }
}

SECTION(boxmodus) {
  h::load_mid();
  random::set_seed(int64_t(rng() >> 2));
  const int N = h::tier(60);
  for (int n = 0; n < N; n++) {
    const double L = std::round(h::uni(rng, 2, 20) * 1e4) / 1e4, T = h::uni(rng, .1, .3), t0 = h::chance(rng, .5) ? 0. : std::round(h::uni(rng, -3, 5) * 1e4) / 1e4;
    const bool peaked = h::chance(rng, .5);
    char y[600];
    const int a = h::range(rng, 0, 40), b = h::range(rng, 0, 40), c = h::range(rng, 1, 40);
    snprintf(y, sizeof y,
             "Modi:\n  Box:\n    Initial_Condition: \"%s\"\n    Length: %.12g\n    Temperature: %.12g\n    Start_Time: %.12g\n    Init_Multiplicities:\n      2212: %d\n      111: %d\n      -211: %d\n",
             peaked ? "peaked momenta" : "thermal momenta", L, T, t0, a, b, c);
    h::at("%s", y);
    Configuration conf(y);
    ExperimentParameters par = h::params(1, .1, t0);
    par.box_length = strtod(strstr(y, "Length: ") + 8, nullptr);
    BoxModus modus(std::move(conf), par);
    Particles box;
    const double start = modus.initial_conditions(&box, par);
    if (!h::close(start, t0, 1e-12, 1e-12)) h::fail("box/start", "starts at %g instead of %g", start, t0);
    std::map<int, int> cnt;
    ThreeVector total;
    for (auto &p : box) {
      cnt[p.pdgcode().get_decimal()]++;
      total += p.momentum().threevec();
      for (int i = 1; i < 4; i++)
        if (!(p.position()[i] >= 0 && p.position()[i] < L)) h::fail("box/initial", "a particle starts at %g in a box of %g", p.position()[i], L);
      if (!h::close(p.position().x0(), t0, 1e-12, 1e-12)) h::fail("box/initial", "a particle starts at t=%g", p.position().x0());
      if (!h::close(p.formation_time(), t0, 1e-12, 1e-12)) h::fail("form/initial", "a particle starts with formation time %g", p.formation_time());
      if (!h::close(p.momentum().sqr(), p.pole_mass() * p.pole_mass(), 1e-9, 1e-9 * (1 + p.momentum().x0() * p.momentum().x0()))) h::fail("shell/initial", "mass %g of %s", p.momentum().abs(), p.type().name().c_str());
      if (peaked && !h::close(p.momentum().threevec().abs(), 3. * T, .5, .2) && box.size() > 3) h::count("momenta away from the peak");
      h::count("initial particles");
    }
    if (cnt[2212] != a || cnt[111] != b || cnt[-211] != c) h::fail("box/multiplicity", "%d, %d, %d particles", cnt[2212], cnt[111], cnt[-211]);
    if (!(total.abs() < 1e-8 * double(1 + box.size()))) h::fail("conserve/initial", "total momentum of the box is %g", total.abs());
    // free flight with re-entry
    for (int k = 0; k < 20; k++) {
      ParticleList before;
      propagate_straight_line(&box, t0 + (k + 1) * .1 * L, {});
      before = box.copy_to_vector();
      const int wraps = modus.impose_boundary_conditions(&box, {});
      int need = 0;
      size_t i = 0;
      for (auto &p : box) {
        const ParticleData &o = before[i++];
        bool w = false;
        for (int j = 1; j < 4; j++) {
          const double x = o.position()[j], z = p.position()[j];
          const double want = x < 0 ? x + L : x >= L ? x - L : x;
          w |= x != want;
          if (!h::close(z, want, 0, 1e-12 * L)) h::fail("box/impose", "%g goes to %g in a box of %g", x, z, L);
        }
        need += w;
        if (!(p.momentum() == o.momentum()) || p.id() != o.id() || p.position().x0() != o.position().x0() || p.id_process() != o.id_process()) h::fail("box/else", "the boundary changed more than the position");
      }
      if (need != wraps) h::fail("box/count", "%d particles wrapped, %d counted", need, wraps);
      h::count("wraps", wraps);
    }
    h::evaluated(uint64_t(n));
  }
}

HARNESS_MAIN
