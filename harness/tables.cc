// Particle and decay tables: given and random ones against an independent reading; wrong ones are refused.
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>

#include "h.h"
#include "smashenv.h"
#include "tables.h"

using namespace smash;

namespace {
struct End {
  int how;           // 0 loaded, 1 exception, 2 crash, 3 hang
  std::string what;  // text of the exception
};
/// f in a process of its own, since the tables can be loaded once only
template <class F>
End forked(F f, unsigned seconds = 60) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    alarm(seconds);
    close(fd[0]);
    int rc = 0;
    try {
      f();
    } catch (std::exception &e) {
      rc = 7;
      const std::string s = e.what();
      if (write(fd[1], s.data(), std::min<size_t>(s.size(), 2000)) < 0) rc = 8;
    }
    fflush(stdout);
    _exit(rc);
  }
  close(fd[1]);
  End e{2, ""};
  char buf[2048];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) e.what.append(buf, size_t(n));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) e.how = WEXITSTATUS(st) == 0 ? 0 : WEXITSTATUS(st) == 7 ? 1 : 2;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) e.how = 3;
  return e;
}

void load(const std::string &p, const std::string &d) {
  ParticleType::create_type_list(p);
  DecayModes::load_decaymodes(d);
  ParticleType::check_consistency();
}

std::string names(const tab::Tables &t, const std::vector<long> &c) {
  std::string s;
  for (long x : c) s += " " + t.states.at(x).name;
  return s;
}

void compare(const tab::Tables &t) {
  const auto &all = ParticleType::list_all();
  if (all.size() != t.states.size()) h::fail("particles", "%zu particles, expected %zu", all.size(), t.states.size());
  std::set<std::string> seen;
  std::set<long> nucleons, deltas, resonances, nuclei;
  for (const ParticleType &p : all)
    if (!seen.insert(p.name()).second) h::fail("names", "two particles are called %s", p.name().c_str());
  for (auto &kv : t.states) {
    const auto &s = kv.second;
    const PdgCode code = PdgCode::from_decimal(int(s.code));
    const char *n = s.name.c_str();
    if (!ParticleType::exists(code) || !ParticleType::try_find(code)) {
      h::fail("particles", "%s is missing", n);
      continue;
    }
    const ParticleType &p = ParticleType::find(code);
    if (p.pdgcode() != code || *ParticleType::try_find(code) != p) h::fail("particles", "find returns %s for %s", p.name().c_str(), n);
    if (p.name() != s.name || !ParticleType::exists(s.name)) h::fail("names", "%ld is called %s, expected %s", s.code, p.name().c_str(), n);
    if (p.mass() != s.mass || p.width_at_pole() != s.width || p.is_stable() != s.stable()) h::fail("particles", "%s has mass %.17g and width %.17g", n, p.mass(), p.width_at_pole());
    if ((p.parity() == Parity::Pos ? 1 : -1) != s.parity) h::fail("parity", "parity of %s", n);
    if (p.charge() != code.charge() || p.baryon_number() != code.baryon_number() || p.strangeness() != code.strangeness() || p.spin() != code.spin()) h::fail("particles", "quantum numbers of %s", n);
    if (p.isospin3() != code.isospin3()) h::fail("isospin", "I3 of %s", n);
    if (p.isospin() != t.isospin(s.code)) h::fail("isospin", "isospin %d/2 of %s, expected %d/2", p.isospin(), n, t.isospin(s.code));
    if (p.isospin()) {
      if (std::fabs(p.isospin3_rel() - double(code.isospin3()) / p.isospin()) > 1e-12) h::fail("isospin", "relative isospin of %s", n);
    } else if (p.isospin3_rel() != 0) {
      h::fail("isospin", "relative isospin of %s", n);
    }
    if (p.has_antiparticle()) {
      const auto a = p.get_antiparticle();
      if (a->pdgcode().get_decimal() != -s.code || *a->get_antiparticle() != p || a->mass() != p.mass() || a->width_at_pole() != p.width_at_pole())
        h::fail("particles", "antiparticle of %s", n);
    }
    if (&p != &ParticleType::find(code) || !(*(&p) == p)) h::fail("particles", "pointer to %s", n);
    // multiplets
    const IsoParticleType *iso = p.iso_multiplet();
    const auto &want = t.multiplets.at(s.multiplet);
    if (!iso || iso->name() != s.multiplet || !IsoParticleType::exists(s.multiplet) || &IsoParticleType::find(s.multiplet) != iso || IsoParticleType::try_find(s.multiplet) != iso) {
      h::fail("multiplet", "%s is in multiplet %s", n, iso ? iso->name().c_str() : "none");
    } else {
      std::set<long> got;
      for (auto q : iso->get_states()) got.insert(q->pdgcode().get_decimal());
      if (got != std::set<long>(want.begin(), want.end())) h::fail("multiplet", "%zu states of multiplet %s, expected %zu", got.size(), s.multiplet.c_str(), want.size());
      if (IsoParticleType::find_state(s.name)->pdgcode() != code) h::fail("multiplet", "find_state of %s", n);
      const bool twin = t.states.count(-s.code) && t.states.at(-s.code).multiplet != s.multiplet;
      if (p.is_hadron() && twin && (!iso->has_anti_multiplet() || iso->anti_multiplet()->name() != t.states.at(-s.code).multiplet)) h::fail("multiplet", "antimultiplet of %s", s.multiplet.c_str());
    }
    if (code.is_nucleon()) nucleons.insert(s.code);
    if (code.is_Delta()) deltas.insert(s.code);
    if (!s.stable() && std::abs(code.baryon_number()) == 1) resonances.insert(s.code);
    if (code.is_nucleus()) nuclei.insert(s.code);
    // decay modes
    const auto wm = t.modes.find(s.code);
    const auto &modes = p.decay_modes().decay_mode_list();
    const size_t number = wm == t.modes.end() ? 0 : wm->second.size();
    if (modes.size() != number) h::fail("modes", "%zu decay modes of %s, expected %zu", modes.size(), n, number);
    double sum = 0, lowest = p.mass();
    std::set<tab::Mode> found;
    for (auto &m : modes) {
      tab::Mode k{m->angular_momentum(), {}};
      double threshold = 0;
      int q = 0, b = 0;
      for (auto d : m->particle_types()) {
        k.daughters.push_back(d->pdgcode().get_decimal());
        threshold += d->min_mass_kinematic();
        q += d->charge();
        b += d->baryon_number();
      }
      std::sort(k.daughters.begin(), k.daughters.end());
      sum += m->weight();
      if (!p.is_stable()) lowest = std::min(lowest, threshold);
      if (q != p.charge() || b != p.baryon_number()) h::fail("modes", "%s decays into%s", n, names(t, k.daughters).c_str());
      if (std::fabs(m->threshold() - threshold) > 1e-12) h::fail("threshold", "of %s into%s", n, names(t, k.daughters).c_str());
      if (!found.insert(k).second) h::fail("modes", "mode of %s twice:%s", n, names(t, k.daughters).c_str());
      if (number) {
        auto w = wm->second.find(k);
        if (w == wm->second.end()) h::fail("modes", "%s should not decay into%s with L=%d", n, names(t, k.daughters).c_str(), k.L);
        else if (std::fabs(w->second - m->weight()) > 2e-6) h::fail("ratio", "%s decays into%s with %.9g, expected %.9g", n, names(t, k.daughters).c_str(), m->weight(), w->second);
      }
    }
    if (number && std::fabs(sum - 1) > 2e-6) h::fail("ratio", "branching ratios of %s add up to %.9g", n, sum);
    if (std::fabs(p.min_mass_kinematic() - t.lowest.at(s.code)) > 1e-9 || std::fabs(lowest - p.min_mass_kinematic()) > 1e-12)
      h::fail("threshold", "lowest mass of %s is %.9g, expected %.9g", n, p.min_mass_kinematic(), t.lowest.at(s.code));
    h::evaluated(s.name);
  }
  auto same = [&](const char *what, const ParticleTypePtrList &l, const std::set<long> &want, int sign) {
    std::multiset<long> got, w;
    for (auto p : l) got.insert(p->pdgcode().get_decimal());
    for (long c : want)
      if (sign == 0 || (c > 0) == (sign > 0)) w.insert(c);
    if (got != w) h::fail("lists", "list of %s has %zu particles, expected %zu", what, got.size(), w.size());
  };
  same("nucleons", ParticleType::list_nucleons(), nucleons, 1);
  same("antinucleons", ParticleType::list_anti_nucleons(), nucleons, -1);
  same("Deltas", ParticleType::list_Deltas(), deltas, 1);
  same("antideltas", ParticleType::list_anti_Deltas(), deltas, -1);
  same("baryon resonances", ParticleType::list_baryon_resonances(), resonances, 0);
  same("nuclei", ParticleType::list_light_nuclei(), nuclei, 0);
  std::set<std::string> isores;
  for (auto &m : t.multiplets)
    for (long c : m.second)
      if (resonances.count(c) && c > 0) isores.insert(m.first);
  std::set<std::string> got;
  for (auto r : IsoParticleType::list_baryon_resonances())
    if (r->get_states()[0]->is_hadron()) got.insert(r->name());
  if (got != isores) h::fail("lists", "%zu multiplets of baryon resonances, expected %zu", got.size(), isores.size());
  if (IsoParticleType::list_all().size() != t.multiplets.size()) h::fail("multiplet", "%zu multiplets, expected %zu", IsoParticleType::list_all().size(), t.multiplets.size());
}

/// resonances that can be formed from two particles
void formation(h::Rng &rng, const tab::Tables &t, int tries) {
  std::map<std::vector<long>, std::set<long>> of;
  for (auto &m : t.modes)
    if (!t.states.at(m.first).stable())
      for (auto &d : m.second)
        if (d.first.daughters.size() == 2 && d.first.daughters[0] != m.first && d.first.daughters[1] != m.first) of[d.first.daughters].insert(m.first);
  std::vector<std::vector<long>> pairs;
  std::vector<long> codes;
  for (auto &o : of) pairs.push_back(o.first);
  for (auto &s : t.states) codes.push_back(s.first);
  for (int i = 0; i < tries; i++) {
    std::vector<long> p = !pairs.empty() && h::chance(rng, .7) ? h::pick(rng, pairs) : std::vector<long>{h::pick(rng, codes), h::pick(rng, codes)};
    const auto a = &ParticleType::find(PdgCode::from_decimal(int(p[0]))), b = &ParticleType::find(PdgCode::from_decimal(int(p[1])));
    std::sort(p.begin(), p.end());
    const bool turn = h::chance(rng, .5);
    std::set<long> got;
    const auto list = turn ? list_possible_resonances(a, b) : list_possible_resonances(b, a);
    for (auto r : list) got.insert(r->pdgcode().get_decimal());
    std::set<long> want;
    const auto o = of.find(p);
    if (o != of.end())
      for (long r : o->second) {
        // strangeness has to match as well
        if (PdgCode::from_decimal(int(r)).strangeness() == a->strangeness() + b->strangeness()) want.insert(r);
      }
    if (got != want || list.size() != got.size()) h::fail("formation", "%zu resonances from %s and %s, expected %zu", list.size(), a->name().c_str(), b->name().c_str(), want.size());
    h::count("pairs");
  }
}

// -- random tables --------------------------------------------------------------------------------
struct Template {
  const char *name, *codes;
  double mass;
  int I, J, P;  // isospin and spin doubled, parity
  int B, S;
  bool fixed;  // the mass is fixed by the code
};
const Template templates[] = {
    {"π", "111 211", 0.138, 2, 0, -1, 0, 0, true},        {"η", "221", 0.548, 0, 0, -1, 0, 0, false},
    {"σ", "9000221", 0.8, 0, 0, 1, 0, 0, false},          {"ρ", "113 213", 0.776, 2, 2, -1, 0, 0, false},
    {"ω", "223", 0.783, 0, 2, -1, 0, 0, true},            {"f₀(980)", "9010221", 0.99, 0, 0, 1, 0, 0, false},
    {"a₀(980)", "9000111 9000211", 0.98, 2, 0, 1, 0, 0, false}, {"φ", "333", 1.019, 0, 2, -1, 0, 0, false},
    {"h₁(1170)", "10223", 1.17, 0, 2, 1, 0, 0, false},    {"a₁(1260)", "20113 20213", 1.23, 2, 2, 1, 0, 0, false},
    {"f₂(1270)", "225", 1.275, 0, 4, 1, 0, 0, false},     {"ω₃(1670)", "227", 1.667, 0, 6, -1, 0, 0, false},
    {"K", "311 321", 0.494, 1, 0, -1, 0, 1, true},        {"K*(892)", "313 323", 0.892, 1, 2, -1, 0, 1, false},
    {"K₁(1270)", "10313 10323", 1.272, 1, 2, 1, 0, 1, false}, {"N", "2112 2212", 0.938, 1, 1, 1, 1, 0, true},
    {"Δ", "1114 2114 2214 2224", 1.232, 3, 3, 1, 1, 0, true}, {"N(1440)", "12112 12212", 1.44, 1, 1, 1, 1, 0, false},
    {"N(1520)", "1214 2124", 1.515, 1, 3, -1, 1, 0, false}, {"N(1535)", "22112 22212", 1.53, 1, 1, -1, 1, 0, false},
    {"N(1675)", "2116 2216", 1.675, 1, 5, -1, 1, 0, false}, {"Δ(1620)", "11112 1212 2122 22222", 1.61, 3, 1, -1, 1, 0, false},
    {"Λ", "3122", 1.116, 0, 1, 1, 1, -1, false},          {"Σ", "3112 3212 3222", 1.189, 2, 1, 1, 1, -1, false},
    {"Σ(1385)", "3114 3214 3224", 1.385, 2, 3, 1, 1, -1, false}, {"Λ(1520)", "3124", 1.52, 0, 3, -1, 1, -1, false},
    {"Λ(1690)", "13124", 1.69, 0, 3, -1, 1, -1, false},   {"Ξ", "3312 3322", 1.321, 1, 1, 1, 1, -2, false},
    {"Ξ(1530)", "3314 3324", 1.532, 1, 3, 1, 1, -2, false}, {"Ω⁻", "3334", 1.672, 0, 3, 1, 1, -3, false},
    {"D", "411 421", 1.867, 1, 0, -1, 0, 0, false},       {"B", "511 521", 5.28, 1, 0, -1, 0, 0, false},
    {"Λc", "4122", 2.286, 0, 1, 1, 1, 0, false},          {"d", "1000010020", 1.8756, 0, 2, 1, 2, 0, true},
    {"γ", "22", 0., 0, 2, -1, 0, 0, true},                {"e⁻", "11", 0.000511, 0, 1, 1, 0, 0, false},
};
struct Row {
  const Template *t;
  double mass, width, lowest;
  std::vector<std::string> modes;  // lines
};
bool couples(int j, int a, int b) { return j >= std::abs(a - b) && j <= a + b && (a + b + j) % 2 == 0; }
/// angular momenta with which spins a, b (doubled) and parity p can come from spin J and parity P
std::vector<int> angular(int J, int P, std::vector<int> s, int p) {
  std::set<int> total{s[0]};
  for (size_t i = 1; i < s.size(); i++) {
    std::set<int> n;
    for (int a : total)
      for (int x = std::abs(a - s[i]); x <= a + s[i]; x += 2) n.insert(x);
    total = n;
  }
  std::vector<int> out;
  for (int L = 0; L <= 8; L++) {
    if (s.size() == 2 && p * (L % 2 ? -1 : 1) != P) continue;
    bool ok = false;
    for (int S : total) ok = ok || couples(J, S, 2 * L);
    if (ok) out.push_back(L);
  }
  return out;
}
std::string spaces(h::Rng &rng) { return h::chance(rng, .8) ? " " : h::chance(rng, .5) ? "\t" : "   "; }
std::string number(double x) {
  char b[40];
  snprintf(b, sizeof b, "%.9g", x);
  return b;
}
struct Made {
  std::vector<Row> rows;
  std::string particles, decays;
  void write(h::Rng &rng) {
    particles = h::chance(rng, .5) ? "# NAME MASS WIDTH PARITY PDG\n" : "";
    decays = "";
    std::vector<size_t> order;
    for (size_t i = 0; i < rows.size(); i++) order.push_back(i);
    std::shuffle(order.begin(), order.end(), rng);
    for (size_t i : order) {
      const Row &r = rows[i];
      if (h::chance(rng, .1)) particles += h::chance(rng, .5) ? "\n" : "   \t\n";
      std::string codes = r.t->codes;
      particles += (h::chance(rng, .1) ? "  " : "") + std::string(r.t->name) + spaces(rng) + number(r.mass) + spaces(rng) + number(r.width) + spaces(rng) + (r.t->P > 0 ? "+" : "-") + spaces(rng) + codes +
                   (h::chance(rng, .1) ? "  # comment 12" : "") + (h::chance(rng, .1) ? "  \n" : "\n");
    }
    std::shuffle(order.begin(), order.end(), rng);
    for (size_t i : order) {
      const Row &r = rows[i];
      if (r.modes.empty()) continue;
      decays += std::string(r.t->name) + (h::chance(rng, .2) ? " \t# 3 N π" : "") + "\n";
      for (auto &m : r.modes) decays += m + (h::chance(rng, .1) ? " # comment" : "") + "\n";
      if (h::chance(rng, .5)) decays += "\n";
    }
  }
};
Made make(h::Rng &rng) {
  Made m;
  std::vector<Row> todo;
  for (auto &t : templates) {
    if (h::chance(rng, .3) && std::string(t.name) != "π" && std::string(t.name) != "N") continue;
    Row r{&t, t.fixed ? t.mass : t.mass * h::uni(rng, .97, 1.03), 0., 0., {}};
    if (std::string(t.name) == "e⁻") r.mass = t.mass;
    todo.push_back(r);
  }
  std::sort(todo.begin(), todo.end(), [](const Row &a, const Row &b) { return a.mass < b.mass; });
  const bool photon = std::any_of(todo.begin(), todo.end(), [](const Row &r) { return std::string(r.t->name) == "γ"; });
  for (Row r : todo) {
    r.lowest = r.mass;
    const Template &t = *r.t;
    // with the antiparticles of the strange mesons and baryons written with a bar
    std::vector<std::pair<const Row *, bool>> daughters;
    for (auto &d : m.rows) {
      const std::string n = d.t->name;
      if (n == "γ" || n == "e⁻" || n == "d" || n == "D" || n == "B" || n == "Λc") continue;
      daughters.push_back({&d, false});
      if (d.t->B || d.t->S) daughters.push_back({&d, true});
    }
    auto named = [](const std::pair<const Row *, bool> &d) {
      std::string n = d.first->t->name;
      return d.second ? tab::anti_name(n, PdgCode::from_decimal(std::stoi(d.first->t->codes))) : n;
    };
    const std::string self = t.name;
    if (self != "γ" && self != "e⁻" && self != "d" && self != "π" && self != "N" && self != "K" && self != "D" && self != "B" && self != "Λc" && h::chance(rng, .8)) {
      for (int tries = 0; tries < 60 && r.modes.size() < 5; tries++) {
        const int n = h::chance(rng, .15) ? 3 : 2;
        if (daughters.size() < 2) break;
        std::vector<std::pair<const Row *, bool>> d;
        int B = 0, S = 0, P = 1;
        double low = 0;
        std::vector<int> spins;
        for (int i = 0; i < n; i++) {
          d.push_back(h::pick(rng, daughters));
          const Template &x = *d.back().first->t;
          const int sign = d.back().second ? -1 : 1;
          B += sign * x.B, S += sign * x.S;
          P *= x.P * (sign < 0 && x.J % 2 ? -1 : 1);
          low += d.back().first->lowest;
          spins.push_back(x.J);
        }
        if (B != t.B || S != t.S || low > r.mass - .02) continue;
        if (n == 2) {
          if (!couples(t.I, d[0].first->t->I, d[1].first->t->I)) continue;
        } else {
          int ways = 0;
          for (int Iab = std::abs(d[0].first->t->I - d[1].first->t->I); Iab <= d[0].first->t->I + d[1].first->t->I; Iab++) ways += Iab + d[2].first->t->I >= t.I && std::abs(Iab - d[2].first->t->I) <= t.I;
          // the coupling has to be unique and possible
          if (ways != 1) continue;
          bool ok = false;
          for (int Iab = std::abs(d[0].first->t->I - d[1].first->t->I); Iab <= d[0].first->t->I + d[1].first->t->I; Iab += 2) ok = ok || couples(t.I, Iab, d[2].first->t->I);
          if (!ok) continue;
        }
        const auto Ls = angular(t.J, t.P, spins, P);
        if (Ls.empty()) continue;
        std::string line = (h::chance(rng, .3) ? " " : "") + number(h::uni(rng, .01, 1)) + spaces(rng) + std::to_string(h::pick(rng, Ls));
        for (auto &x : d) line += spaces(rng) + named(x);
        r.modes.push_back(line);
        r.lowest = std::min(r.lowest, low);
        if (n == 3) h::count("three-body modes");
      }
      // an electromagnetic mode of the ω or the Δ
      if (photon && self == "ω" && !r.modes.empty() && h::chance(rng, .5)) r.modes.push_back("0.08 1 π⁰ γ"), r.lowest = std::min(r.lowest, .138);
      if (photon && self == "Δ" && !r.modes.empty() && h::chance(rng, .5)) {
        r.modes.push_back("0.006 1 N⁺ γ");
        r.modes.push_back("0.006 1 N⁰ γ");
      }
      if (!r.modes.empty()) r.width = h::chance(rng, .1) ? 0. : h::uni(rng, .005, .3);
      if (r.width == 0.) r.lowest = r.mass;
    }
    m.rows.push_back(r);
    // the pointers into the vector have to stay valid
    m.rows.reserve(100);
  }
  m.write(rng);
  return m;
}
}  // namespace

SECTION(given) {
  const std::string in = h::repo() + "/input/";
  std::vector<std::pair<std::string, std::string>> pairs = {{"particles.txt", "decaymodes.txt"}};
  for (const char *d : {"box", "dileptons", "light_nuclei", "photons", "sphere", "multi_particle_box", "stochastic_box", "potentials", "list"}) {
    std::string p = std::string(d) + "/particles.txt", m = std::string(d) + "/decaymodes.txt";
    const bool hp = std::filesystem::exists(in + p), hm = std::filesystem::exists(in + m);
    if (hp || hm) pairs.push_back({hp ? p : "particles.txt", hm ? m : "decaymodes.txt"});
  }
  for (auto &p : pairs) {
    h::at("tables %s %s", p.first.c_str(), p.second.c_str());
    const auto seed = rng();
    const End e = forked([&] {
      h::Rng r(seed);
      const std::string a = h::slurp(in + p.first), b = h::slurp(in + p.second);
      load(a, b);
      const auto t = tab::read(a, b);
      compare(t);
      formation(r, t, 3000);
    }, 300);
    if (e.how) h::fail("given", "%s %s (%s)", e.how == 1 ? "refused" : "crashed", p.first.c_str(), e.what.c_str());
    h::evaluated(p.first + p.second);
    h::count("table pairs");
  }
  for (auto &p : {h::verif() + "/workloads/mid", h::verif() + "/workloads/mid_dprime"}) {
    const End e = forked([&] {
      const std::string a = h::slurp(p + "/particles.txt"), b = h::slurp(p + "/decaymodes.txt");
      load(a, b);
      compare(tab::read(a, b));
    });
    if (e.how) h::fail("given", "%s: %s", p.c_str(), e.what.c_str());
    h::evaluated(p);
  }
}

SECTION(random) {
  for (int k = h::tier(200); k > 0; k--) {
    const Made m = make(rng);
    const auto seed = rng();
    h::at("random tables %016llx", (unsigned long long)seed);
    const End e = forked([&] {
      h::Rng r(seed);
      load(m.particles, m.decays);
      const auto t = tab::read(m.particles, m.decays);
      compare(t);
      formation(r, t, 200);
    });
    if (e.how) h::fail("random", "valid tables %s: %s", e.how == 1 ? "refused" : e.how == 2 ? "crash" : "hang", e.what.c_str());
    h::evaluated(m.particles + m.decays);
    h::count("particle lines", (long long)m.rows.size());
    for (auto &r : m.rows) h::count("decay lines", (long long)r.modes.size());
  }
}

// one mistake in tables that are valid otherwise
SECTION(rejected) {
  static const char *kinds[] = {"no code",        "bad parity",  "bad mass",       "duplicate code", "bad code",      "fixed mass",   "unknown daughter", "unknown mother", "duplicate mother", "charge", "parity",
                                "large L",        "negative L",  "isospin",        "one daughter",   "four daughters", "threshold",   "no modes",         "no mother",      "bad ratio", "bad L", "no entry"};
  const int n = int(sizeof kinds / sizeof *kinds);
  for (int k = 0; k < h::tier(n * 8); k++) {
    const int kind = k % n;
    Made m = make(rng);
    auto row = [&](const char *name) -> Row * {
      for (auto &r : m.rows)
        if (std::string(r.t->name) == name) return &r;
      return nullptr;
    };
    Row *un = nullptr;  // an unstable multiplet
    for (int i = 0; i < 50 && !un; i++) {
      Row &r = h::pick(rng, m.rows);
      if (!r.modes.empty() && r.width > 0) un = &r;
    }
    if (!un) continue;
    std::string &P = m.particles, &D = m.decays;
    auto again = [&] { m.write(rng); };
    // the first two-body mode in terms of multiplets
    std::vector<std::string> two;
    for (auto &l : un->modes) {
      auto w = tab::lines(l)[0];
      if (w.size() == 4 && w[3] != "γ") two = w;
    }
    if (kind == 0) P += "X(77) 1.5 0. +\n";
    else if (kind == 1) P += std::string("X(77) 1.5 0. ") + (h::chance(rng, .5) ? "0" : "x") + " 9030225\n";
    else if (kind == 2) P += "X(77) heavy 0. + 9030225\n";
    else if (kind == 3) {
      const Row &r = h::pick(rng, m.rows);
      std::istringstream c(r.t->codes);
      std::string code;
      for (int i = h::below(rng, 4); i >= 0 && c >> code;) i--;
      P += "X(77) " + number(r.mass) + " 0. + " + code + "\n";
    } else if (kind == 4) P += std::string("X(77) 1.5 0. + ") + (h::chance(rng, .5) ? "2213" : h::chance(rng, .5) ? "-225" : "77x") + "\n";
    else if (kind == 5) {
      Row *r = row(h::chance(rng, .5) ? "π" : h::chance(rng, .5) ? "N" : "K");
      if (!r) continue;
      r->mass += h::chance(rng, .5) ? .01 : -.01;
      again();
    } else if (kind == 6) {
      un->modes.push_back("0.1 0 X(77) π");
      again();
    } else if (kind == 7) D += "X(77)\n1. 0 π π\n";
    else if (kind == 8) D += std::string("\n") + un->t->name + "\n" + un->modes[0] + "\n";
    else if (kind == 9) {
      if (!row("γ") || !row("π") || std::string(un->t->name) == "Δ" || un->t->I > 0) continue;
      un->modes.push_back("0.1 1 π⁺ γ");
      again();
    } else if (kind == 10 || kind == 11 || kind == 12 || kind == 19 || kind == 20) {
      if (two.empty()) continue;
      if (kind == 10) two[1] = std::to_string(std::stoi(two[1]) + (h::chance(rng, .5) && two[1] != "0" ? -1 : 1));
      if (kind == 11) two[1] = std::to_string(std::stoi(two[1]) + 2 * h::range(rng, 5, 8));
      if (kind == 12) two[1] = "-" + std::to_string(1 + h::below(rng, 2));
      if (kind == 19) two[0] = "much";
      if (kind == 20) two[1] = "P";
      un->modes.push_back(two[0] + " " + two[1] + " " + two[2] + " " + two[3]);
      again();
    } else if (kind == 13) {
      // isoscalar into one isovector and one isoscalar
      if (un->t->I != 0 || un->t->B || !row("σ") || !row("η") || un->mass < 1.) continue;
      un->modes.push_back("0.1 " + std::to_string(h::below(rng, 2)) + " π " + (h::chance(rng, .5) ? "σ" : "η"));
      again();
    } else if (kind == 14) {
      un->modes.push_back("0.1 0 " + (two.empty() ? "π" : two[2]));
      again();
    } else if (kind == 15) {
      un->modes.push_back("0.1 0 π π π π");
      again();
    } else if (kind == 16) {
      if (two.empty()) continue;
      // a mother below the threshold of its own decay
      Row *r = un;
      if (r->t->fixed) continue;
      const double low = r->lowest;
      r->mass = low * h::uni(rng, .5, .99);
      again();
    } else if (kind == 17 || kind == 21) {
      un->modes.clear();
      again();
      if (kind == 17) D += std::string("\n") + un->t->name + "\n";
    } else if (kind == 18) {
      if (two.empty()) continue;
      D = two[0] + " " + two[1] + " " + two[2] + " " + two[3] + "\n" + D;
    }
    h::at("%s, multiplet %s", kinds[kind], un->t->name);
    const End e = forked([&] { load(P, D); });
    if (e.how == 0) h::fail(std::string("accepted/") + kinds[kind], "the tables are accepted");
    if (e.how > 1) h::fail(std::string("crash/") + kinds[kind], "the tables lead to a %s", e.how == 2 ? "crash" : "hang");
    h::count(kinds[kind]);
    h::evaluated(std::string(kinds[kind]) + un->t->name);
  }
}

// tables with random damage are loaded or refused, and nothing else
SECTION(damaged) {
  for (int k = h::tier(250); k > 0; k--) {
    Made m = make(rng);
    std::string story;
    for (int i = h::range(rng, 1, 4); i > 0; i--) {
      std::string &s = h::chance(rng, .6) ? m.decays : m.particles;
      if (s.empty()) continue;
      std::vector<std::string> l;
      std::istringstream in(s);
      for (std::string x; std::getline(in, x);) l.push_back(x);
      const size_t at = size_t(h::below(rng, int(l.size())));
      const int way = h::below(rng, 8);
      story += char('0' + way);
      if (way == 0) l.erase(l.begin() + long(at));
      else if (way == 1) l.insert(l.begin() + long(at), h::pick(rng, l));
      else if (way == 2) std::swap(l[at], h::pick(rng, l));
      else if (way == 3 && !l[at].empty()) l[at].resize(size_t(h::below(rng, int(l[at].size()))));
      else if (way == 4 && !l[at].empty()) l[at][size_t(h::below(rng, int(l[at].size())))] = char(h::range(rng, 1, 255));
      else if (way == 5) l[at] += " " + std::to_string(h::range(rng, -3000, 3000));
      else if (way == 6) l[at] = "";
      else {
        auto w = tab::lines(l[at] + "\n");
        if (!w.empty()) {
          auto &v = w[0];
          static const std::vector<std::string> odd = {"0", "-1", "1e999", "nan", "inf", "1e-300", "π", "N", "Δ⁺⁺", "γ", "+", "-", "99999999999", "⁺"};
          v[size_t(h::below(rng, int(v.size())))] = h::pick(rng, odd);
          l[at] = "";
          for (auto &x : v) l[at] += x + " ";
        }
      }
      s.clear();
      for (auto &x : l) s += x + "\n";
    }
    h::at("damage %s", story.c_str());
    const End e = forked([&] {
      FILE *f = fopen("last_particles.txt", "w");
      fwrite(m.particles.data(), 1, m.particles.size(), f);
      fclose(f);
      f = fopen("last_decaymodes.txt", "w");
      fwrite(m.decays.data(), 1, m.decays.size(), f);
      fclose(f);
      load(m.particles, m.decays);
    });
    if (e.how > 1) {
      h::fail("damaged", "%s", e.how == 2 ? "crash" : "hang");
      std::error_code c;
      std::filesystem::copy_file("last_particles.txt", "crash_particles.txt", c);
      std::filesystem::copy_file("last_decaymodes.txt", "crash_decaymodes.txt", c);
    }
    h::count(e.how == 0 ? "loaded" : "refused");
    h::evaluated(m.particles + m.decays);
  }
}
HARNESS_MAIN
