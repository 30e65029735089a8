// The particle container against a map from ids to records.
#include "smash/particles.h"

#include "h.h"
#include "smashenv.h"

using namespace smash;

namespace {
struct Rec {
  ParticleData p;
};
using Model = std::map<int, ParticleData>;

ParticleData random_particle(h::Rng &r, std::vector<ParticleTypePtr> &types) {
  ParticleData p(*h::pick(r, types));
  p.set_4momentum(p.type().mass(), h::uni(r, -1, 1), h::uni(r, -1, 1), h::uni(r, -1, 1));
  p.set_4position(FourVector(h::uni(r, 0, 9), h::uni(r, -9, 9), h::uni(r, -9, 9), h::uni(r, -9, 9)));
  if (h::chance(r, .7)) p.set_slow_formation_times(h::uni(r, 0, 4), h::uni(r, 4, 9));
  p.set_cross_section_scaling_factor(h::uni(r, 0, 1));
  p.set_belongs_to(h::chance(r, .5) ? BelongsTo::Projectile : BelongsTo::Target);
  p.set_perturbative_weight(h::uni(r, 0, 1));
  if (h::chance(r, .2)) p.fluidize();
  p.set_spin_vector(FourVector(h::uni(r, 0, 1), h::uni(r, 0, 1), h::uni(r, 0, 1), h::uni(r, 0, 1)));
  HistoryData hist;
  hist.collisions_per_particle = h::below(r, 9);
  hist.id_process = h::below(r, 1000000);
  hist.process_type = ProcessType::TwoToTwo;
  hist.time_last_collision = h::uni(r, 0, 9);
  hist.p1 = h::pick(r, types)->pdgcode();
  hist.p2 = h::pick(r, types)->pdgcode();
  p.set_history(std::move(hist));
  return p;
}

bool same4(const FourVector &a, const FourVector &b) {
  for (int i = 0; i < 4; i++)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}
bool samed(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

/// everything of a record but its id
const char *differs(const ParticleData &a, const ParticleData &b) {
  if (a.type() != b.type()) return "type";
  if (!same4(a.momentum(), b.momentum())) return "momentum";
  if (!same4(a.position(), b.position())) return "position";
  if (!same4(a.spin_vector(), b.spin_vector())) return "spin vector";
  if (!samed(a.formation_time(), b.formation_time())) return "formation time";
  if (!samed(a.begin_formation_time(), b.begin_formation_time())) return "begin of formation";
  if (!samed(a.initial_xsec_scaling_factor(), b.initial_xsec_scaling_factor())) return "cross section factor";
  if (!samed(a.perturbative_weight(), b.perturbative_weight())) return "weight";
  if (a.belongs_to() != b.belongs_to()) return "origin label";
  if (a.is_core() != b.is_core()) return "core flag";
  const HistoryData x = a.get_history(), y = b.get_history();
  if (x.collisions_per_particle != y.collisions_per_particle || x.id_process != y.id_process ||
      x.process_type != y.process_type || !samed(x.time_last_collision, y.time_last_collision) ||
      x.p1 != y.p1 || x.p2 != y.p2)
    return "history";
  return nullptr;
}

void compare(Particles &c, const Model &m, const char *op) {
  if (c.size() != m.size()) {
    h::fail("size", "after %s: size() is %zu, %zu particles are in", op, c.size(), m.size());
    return;
  }
  if (c.is_empty() != m.empty())
    h::fail("is_empty", "after %s: is_empty() is %d with %zu particles in", op, c.is_empty(), m.size());
  std::set<int> seen;
  for (const ParticleData &p : c) {
    auto it = m.find(p.id());
    if (it == m.end()) {
      h::fail("phantom", "after %s: iteration visits id %d which is not in", op, p.id());
      continue;
    }
    if (!seen.insert(p.id()).second) h::fail("twice", "after %s: iteration visits id %d twice", op, p.id());
    if (const char *d = differs(p, it->second))
      h::fail("record", "after %s: %s of id %d is not what was stored", op, d, p.id());
    if (!c.is_valid(p)) h::fail("valid", "after %s: id %d is in but not valid", op, p.id());
  }
  if (seen.size() != m.size())
    h::fail("lost", "after %s: iteration visits %zu of %zu particles", op, seen.size(), m.size());
  const ParticleList v = c.copy_to_vector();
  std::set<int> ids;
  for (auto &p : v) ids.insert(p.id());
  if (v.size() != m.size() || ids != seen)
    h::fail("copy", "after %s: copy_to_vector has %zu entries for %zu particles", op, v.size(), m.size());
  if (!m.empty()) {
    size_t n = 0;
    auto it = c.end();
    std::set<int> back;
    for (; n < m.size(); n++) {
      --it;
      back.insert(it->id());
    }
    if (back != seen) h::fail("backward", "after %s: backward iteration visits other particles", op);
    if (!m.count(c.front().id()) || !m.count(c.back().id()))
      h::fail("ends", "after %s: front() or back() is not a particle of the container", op);
    if (!samed(c.time(), c.front().position().x0())) h::fail("time", "after %s: time() is not the front's", op);
  }
}
}  // namespace

SECTION(container) {
  ParticleType::create_type_list(
      "π 0.138 0 - 111 211\nK 0.494 0 - 311 321\nN 0.938 0 + 2112 2212\nΛ 1.116 0 + 3122\n");
  std::vector<ParticleTypePtr> types;
  for (auto &t : ParticleType::list_all()) types.push_back(&t);
  const int histories = h::tier(400, 20);
  for (int k = 0; k < histories; k++) {
    Particles c;
    Model m;
    std::vector<ParticleData> stale, live_copies;
    int id_last = -1;
    uint64_t sig = 0;
    const int ops = h::range(rng, 5, 120);
    // each history prefers some operations, to reach long hole chains, growth and emptiness
    double w_remove = h::uni(rng, 0.05, 0.6), w_create = h::uni(rng, 0.02, 0.3);
    const int big = h::chance(rng, .3) ? 150 : 12;
    std::string trail;
    auto retire = [&](int id) {
      for (auto &p : live_copies)
        if (p.id() == id) stale.push_back(p);
      m.erase(id);
    };
    auto some = [&]() {
      auto it = m.begin();
      std::advance(it, h::below(rng, int(m.size())));
      int id = it->first;
      for (auto &p : c)
        if (p.id() == id) return p;
      h::fail("lookup", "particle %d cannot be found", id);
      return *c.begin();
    };
    auto fresh_id = [&](int id, const char *op) {
      if (id <= id_last) h::fail("id", "after %s: new particle has id %d, %d was given out before", op, id, id_last);
      id_last = std::max(id_last, id);
    };
    for (int i = 0; i < ops; i++) {
      const double u = h::uni(rng, 0, 1);
      std::string op;
      h::at("history %d op %d %s", k, i, trail.size() > 300 ? trail.substr(trail.size() - 300).c_str() : trail.c_str());
      if (m.empty() || u < w_create) {
        const int kind = h::below(rng, 3);
        if (kind == 0) {
          const int n = h::range(rng, 0, big);
          PdgCode pdg = h::pick(rng, types)->pdgcode();
          std::set<int> old;
          for (auto &e : m) old.insert(e.first);
          c.create(size_t(n), pdg);
          op = "create(" + std::to_string(n) + ")";
          for (auto &p : c)
            if (!old.count(p.id())) {
              if (p.id() <= id_last) h::fail("id", "create gives out id %d again", p.id());
              if (p.pdgcode() != pdg) h::fail("record", "create(n, pdg) makes another species");
              m.emplace(p.id(), p);
            }
          for (auto &e : m) id_last = std::max(id_last, e.first);
          if (int(m.size()) != int(old.size()) + n)
            h::fail("create", "create(%d) adds %d particles", n, int(m.size()) - int(old.size()));
        } else if (kind == 1) {
          PdgCode pdg = h::pick(rng, types)->pdgcode();
          ParticleData &p = c.create(pdg);
          op = "create()";
          fresh_id(p.id(), "create");
          ParticleData ref(ParticleType::find(pdg));
          if (const char *d = differs(p, ref)) h::fail("create", "a created particle has a non-default %s", d);
          p.set_4momentum(p.type().mass(), 1., 2., h::uni(rng, 0, 1));
          m.emplace(p.id(), p);
        } else {
          ParticleData q = random_particle(rng, types);
          const ParticleData &p = c.insert(q);
          op = "insert";
          fresh_id(p.id(), "insert");
          if (const char *d = differs(p, q)) h::fail("record", "insert does not store the %s", d);
          q.set_id(p.id());
          m.emplace(p.id(), p);
        }
      } else if (u < w_create + w_remove) {
        ParticleData p = h::chance(rng, .3) ? c.back() : h::chance(rng, .3) ? c.front() : some();
        live_copies.push_back(p);
        c.remove(p);
        retire(p.id());
        op = "remove(" + std::to_string(p.id()) + ")";
      } else if (u < w_create + w_remove + .2) {
        // replace k by l
        ParticleList in, out;
        std::set<int> used;
        const int n_in = h::range(rng, 1, std::min<int>(5, int(m.size())));
        for (int j = 0; j < 3 * n_in && int(in.size()) < n_in; j++) {
          ParticleData p = some();
          if (used.insert(p.id()).second) in.push_back(p);
        }
        const int n_out = h::range(rng, 0, 6);
        for (int j = 0; j < n_out; j++) out.push_back(random_particle(rng, types));
        const ParticleList want = out;
        for (auto &p : in) live_copies.push_back(p);
        const bool upd = h::chance(rng, .5);
        if (upd)
          c.update(in, out, true);
        else
          c.replace(in, out);
        op = "replace(" + std::to_string(in.size()) + "->" + std::to_string(n_out) + ")";
        for (auto &p : in) retire(p.id());
        int lo = id_last;
        for (size_t j = 0; j < out.size(); j++) {
          if (out[j].id() <= lo) h::fail("id", "replace gives out id %d again", out[j].id());
          if (!c.is_valid(out[j])) {
            h::fail("replace", "the list of added particles does not name the stored ones");
            continue;
          }
          const ParticleData &p = c.lookup(out[j]);
          if (const char *d = differs(p, want[j])) h::fail("record", "replace does not store the %s", d);
          if (!m.emplace(p.id(), p).second) h::fail("id", "replace gives id %d to two particles", p.id());
          id_last = std::max(id_last, p.id());
        }
      } else if (u < w_create + w_remove + .4) {
        // change the state of a particle, which keeps its id
        ParticleData p = some();
        ParticleData q = random_particle(rng, types);
        while (q.type() != p.type()) q = random_particle(rng, types);
        live_copies.push_back(p);
        const bool new_process = q.id_process() != p.id_process();
        if (h::chance(rng, .5)) {
          ParticleList in{p}, out{q};
          c.update(in, out, false);
          if (out[0].id() != p.id()) h::fail("update", "an update changes id %d to %d", p.id(), out[0].id());
          if (!c.is_valid(out[0])) h::fail("update", "an update returns an invalid particle");
        } else {
          const ParticleData &res = c.update_particle(p, q);
          if (res.id() != p.id()) h::fail("update", "an update changes id %d to %d", p.id(), res.id());
        }
        op = "update";
        m.erase(p.id());
        q.set_id(p.id());
        m.emplace(p.id(), q);
        if (new_process) {
          if (c.is_valid(p)) h::fail("stale", "a copy from before an interaction is still valid");
        }
      } else if (u > .985) {
        c.reset();
        m.clear();
        stale.clear();
        live_copies.clear();
        id_last = -1;
        op = "reset";
      } else {
        op = "check";
        if (!stale.empty()) {
          const ParticleData &p = h::pick(rng, stale);
          if (c.is_valid(p)) h::fail("stale", "a copy of removed particle %d is valid", p.id());
        }
        ParticleData p = some();
        if (c.lookup(p).id() != p.id()) h::fail("lookup", "lookup of %d finds %d", p.id(), c.lookup(p).id());
      }
      trail += op + " ";
      sig = h::mix(sig, std::hash<std::string>{}(op));
      h::count("operations");
      compare(c, m, op.c_str());
    }
    for (auto &p : stale)
      if (c.is_valid(p)) h::fail("stale", "a copy of removed particle %d is valid", p.id());
    h::evaluated(sig);
    if (k < 2) h::sample("%s", trail.substr(0, 300).c_str());
  }
}

HARNESS_MAIN
