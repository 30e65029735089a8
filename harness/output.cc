// R11: what is written to the output files is what was given to the output
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <filesystem>
#include <functional>
#include <map>
#include <optional>
#include <sstream>
#include <vector>

#include "smash/action.h"
#include "smash/binaryoutput.h"
#include "smash/file.h"
#include "smash/fluidizationaction.h"
#include "smash/oscaroutput.h"
#include "smash/outputformatter.h"
#include "smash/outputparameters.h"
#include "smash/particles.h"
#include "smash/thermodynamiclatticeoutput.h"
#include "smash/thermodynamicoutput.h"
#include "smash/vtkoutput.h"

#include "h.h"
#include "params.h"
#include "smashenv.h"
using namespace smash;
namespace fs = std::filesystem;
namespace {
ThreeVector random_vec(h::Rng &rng, double s) { return {h::uni(rng, -s, s), h::uni(rng, -s, s), h::uni(rng, -s, s)}; }
const std::vector<const char *> species{"211", "-211", "2212", "2112", "3122", "-2212", "321", "2224", "22", "113", "-3122", "111"};
const std::vector<ProcessType> types{ProcessType::None, ProcessType::Elastic, ProcessType::TwoToOne, ProcessType::TwoToTwo, ProcessType::Decay, ProcessType::Wall, ProcessType::StringHard, ProcessType::Bremsstrahlung};
/// sometimes of an unusual size
double number(h::Rng &rng, double a, double b) {
  if (h::chance(rng, .02)) return 0;
  if (h::chance(rng, .05)) return (h::chance(rng, .5) ? 1 : -1) * std::pow(10., h::uni(rng, -250, -3));
  return h::uni(rng, a, b);
}
ParticleData particle(h::Rng &rng, bool timelike = true) {
  ParticleData d(ParticleType::find(PdgCode(std::string(h::pick(rng, species)))));
  const double m = d.pole_mass() < 1e-3 || d.type().is_stable() ? d.pole_mass() : d.pole_mass() * h::uni(rng, .95, 1.2);
  d.set_4momentum(m, ThreeVector(number(rng, -2, 2), number(rng, -2, 2), number(rng, -2, 2)));
  const ThreeVector x(number(rng, -9, 9), number(rng, -9, 9), number(rng, -9, 9));
  d.set_4position(FourVector(timelike ? std::abs(x.x3()) + h::uni(rng, .1, 50.) : h::uni(rng, -5., 5.), x));
  HistoryData hist;
  hist.collisions_per_particle = h::range(rng, 0, 50);
  hist.id_process = uint32_t(h::range(rng, 0, 100000));
  hist.process_type = h::pick(rng, types);
  hist.time_last_collision = number(rng, -3, 40);
  if (h::chance(rng, .8)) hist.p1 = PdgCode(std::string(h::pick(rng, species)));
  if (h::chance(rng, .6)) hist.p2 = PdgCode(std::string(h::pick(rng, species)));
  d.set_history(std::move(hist));
  d.set_slow_formation_times(h::uni(rng, -2., 1.), h::uni(rng, 1., 9.));
  d.set_cross_section_scaling_factor(number(rng, 0., 1.));
  d.set_spin_vector(FourVector(number(rng, -1, 1), number(rng, -1, 1), number(rng, -1, 1), number(rng, -1, 1)));
  d.set_perturbative_weight(number(rng, 0, 3));
  return d;
}
struct Quantity {
  bool integer;
  bool precise;
  std::function<double(const ParticleData &)> get;
};
const std::map<std::string, Quantity> &table() {
  using P = const ParticleData &;
  const auto id = [](P p) { return double(p.id()); };
  const auto eta = [](P p) { return std::atanh(p.position().x3() / p.position().x0()); };
  const auto rap = [](P p) { return std::atanh(p.momentum().x3() / p.momentum().x0()); };
  const auto mass = [](P p) {
    const FourVector q = p.momentum();
    return p.type().mass() < 1e-6 ? p.type().mass() : std::sqrt(q.x0() * q.x0() - q.x1() * q.x1() - q.x2() * q.x2() - q.x3() * q.x3());
  };
  static const std::map<std::string, Quantity> t{
      {"t", {false, false, [](P p) { return p.position().x0(); }}},
      {"x", {false, false, [](P p) { return p.position().x1(); }}},
      {"y", {false, false, [](P p) { return p.position().x2(); }}},
      {"z", {false, false, [](P p) { return p.position().x3(); }}},
      {"mass", {false, false, mass}},
      {"p0", {false, true, [](P p) { return p.momentum().x0(); }}},
      {"px", {false, true, [](P p) { return p.momentum().x1(); }}},
      {"py", {false, true, [](P p) { return p.momentum().x2(); }}},
      {"pz", {false, true, [](P p) { return p.momentum().x3(); }}},
      {"pdg", {true, false, [](P p) { return double(p.type().pdgcode().get_decimal()); }}},
      {"ID", {true, false, id}},
      {"id", {true, false, id}},
      {"charge", {true, false, [](P p) { return double(p.type().charge()); }}},
      {"ncoll", {true, false, [](P p) { return double(p.get_history().collisions_per_particle); }}},
      {"form_time", {false, false, [](P p) { return p.formation_time(); }}},
      {"xsecfac", {false, false, [](P p) { return p.initial_xsec_scaling_factor() * 0 + p.xsec_scaling_factor(); }}},
      {"proc_id_origin", {true, false, [](P p) { return double(p.get_history().id_process); }}},
      {"proc_type_origin", {true, false, [](P p) { return double(int(p.get_history().process_type)); }}},
      {"time_last_coll", {false, false, [](P p) { return p.get_history().time_last_collision; }}},
      {"pdg_mother1", {true, false, [](P p) { return double(p.get_history().p1.get_decimal()); }}},
      {"pdg_mother2", {true, false, [](P p) { return double(p.get_history().p2.get_decimal()); }}},
      {"baryon_number", {true, false, [](P p) { return double(p.type().baryon_number()); }}},
      {"strangeness", {true, false, [](P p) { return double(p.type().strangeness()); }}},
      {"spin0", {false, false, [](P p) { return p.spin_vector()[0]; }}},
      {"spinx", {false, false, [](P p) { return p.spin_vector()[1]; }}},
      {"spiny", {false, false, [](P p) { return p.spin_vector()[2]; }}},
      {"spinz", {false, false, [](P p) { return p.spin_vector()[3]; }}},
      {"0", {true, false, [](P) { return 0.; }}},
      {"tau", {false, false, [](P p) { return std::sqrt(p.position().x0() * p.position().x0() - p.position().x3() * p.position().x3()); }}},
      {"eta", {false, false, eta}},
      {"eta_s", {false, false, eta}},
      {"mt", {false, false, [](P p) { return std::sqrt(p.momentum().x0() * p.momentum().x0() - p.momentum().x3() * p.momentum().x3()); }}},
      {"Rap", {false, false, rap}},
      {"y_rap", {false, false, rap}},
      {"perturbative_weight", {false, false, [](P p) { return p.perturbative_weight(); }}}};
  return t;
}
const std::vector<std::string> q2013{"t", "x", "y", "z", "mass", "p0", "px", "py", "pz", "pdg", "ID", "charge"};
const std::vector<std::string> qextended{"t", "x", "y", "z", "mass", "p0", "px", "py", "pz", "pdg", "ID", "charge", "ncoll", "form_time", "xsecfac", "proc_id_origin", "proc_type_origin", "time_last_coll", "pdg_mother1", "pdg_mother2", "baryon_number", "strangeness"};
const std::vector<std::string> q1999{"id", "pdg", "0", "px", "py", "pz", "p0", "mass", "x", "y", "z", "t"};
std::vector<std::string> random_quantities(h::Rng &rng) {
  std::vector<std::string> all;
  for (const auto &q : table()) all.push_back(q.first);
  std::shuffle(all.begin(), all.end(), rng);
  std::vector<std::string> r;
  const size_t n = size_t(h::range(rng, 1, 20));
  for (const auto &q : all) {
    if (r.size() == n) break;
    bool alias = false;
    for (const auto &p : std::vector<std::pair<std::string, std::string>>{{"ID", "id"}, {"eta_s", "eta"}, {"y_rap", "Rap"}})
      for (const auto &o : r) alias |= (q == p.first && o == p.second) || (q == p.second && o == p.first);
    if (!alias) r.push_back(q);
  }
  return r;
}
bool matches(double got, double want, const Quantity &q, bool text, const std::string &name) {
  if (q.integer) return got == want;
  const bool rapidity = name == "eta" || name == "eta_s" || name == "Rap" || name == "y_rap";
  if (rapidity && std::abs(want) > 15) return std::abs(got) > 14;
  if (!std::isfinite(want)) return std::isnan(want) ? std::isnan(got) : got == want;
  double tol = 0;
  if (text) tol = (q.precise ? 5.01e-9 : 5.01e-6) * std::abs(want);
  // derived quantities are calculated in another way here
  if (name == "mass" || name == "tau" || name == "mt") tol += 1e-7;
  if (rapidity) tol += 1e-9 * std::cosh(std::min(2 * std::abs(want), 100.));
  if (std::abs(want) < 1e-300) tol += 1e-300;
  return std::abs(got - want) <= tol;
}
/// compares the columns of one line with a particle
bool same_line(const std::string &line, const ParticleData &p, const std::vector<std::string> &qs, std::string &why) {
  std::istringstream in(line);
  std::vector<std::string> cols;
  for (std::string c; in >> c;) cols.push_back(c);
  if (cols.size() != qs.size()) {
    why = "there are " + std::to_string(cols.size()) + " columns instead of " + std::to_string(qs.size());
    return false;
  }
  for (size_t i = 0; i < qs.size(); i++) {
    const auto &q = table().at(qs[i]);
    char *end;
    const double v = std::strtod(cols[i].c_str(), &end);
    if (*end || !matches(v, q.get(p), q, true, qs[i])) {
      char b[200];
      snprintf(b, sizeof b, "%s is '%s', the particle has %.12g", qs[i].c_str(), cols[i].c_str(), q.get(p));
      why = b;
      return false;
    }
  }
  return true;
}
class TestAction : public Action {
 public:
  TestAction(const ParticleList &in, const ParticleList &out, double t, ProcessType ty, double w, double pw) : Action(in, out, t, ty), w_(w), pw_(pw) {}
  double get_total_weight() const override { return w_; }
  double get_partial_weight() const override { return pw_; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &o) const override { o << "test"; }

 private:
  double w_, pw_;
};
struct Scratch {
  fs::path dir;
  Scratch() {
    std::string t = (fs::temp_directory_path() / "voutputXXXXXX").string();
    if (!mkdtemp(t.data())) exit(3);
    dir = t;
  }
  ~Scratch() {
    std::error_code ec;
    fs::remove_all(dir, ec);
  }
};
/// one thing that happens to an output
struct Step {
  enum Kind { Start, Time, Interaction, End } kind;
  EventLabel label;
  EventInfo info;
  ParticleList list, in, out;
  double rho, weight, partial, t;
  ProcessType type;
};
void fill(Particles &p, const ParticleList &l) {
  for (const auto &d : l) p.insert(d);
}
ParticleList identified(h::Rng &rng, int n) {
  // ids as in a list of particles with some removed
  Particles p;
  for (int i = 0; i < n + 3; i++) p.insert(particle(rng));
  for (int i = 0; i < 3; i++) {
    const auto all = p.copy_to_vector();
    p.remove(all[size_t(h::below(rng, int(all.size())))]);
  }
  return p.copy_to_vector();
}
std::vector<Step> history(h::Rng &rng, bool ic, int ensembles) {
  std::vector<Step> s;
  const int events = h::range(rng, 1, 3), first = h::chance(rng, .2) ? h::range(rng, 1, 200) : 0;
  for (int ev = first; ev < first + events; ev++) {
    EventInfo info{};
    info.impact_parameter = h::chance(rng, .3) ? 0. : h::uni(rng, 0., 15.);
    info.test_particles = 1, info.n_ensembles = ensembles;
    const auto step = [&](Step::Kind k, int ens) {
      Step x{};
      x.kind = k, x.label = EventLabel{ev, ens}, x.info = info;
      x.info.empty_event = h::chance(rng, .3);
      if (k == Step::Interaction) {
        x.in = identified(rng, ic ? 1 : h::range(rng, 1, 4));
        x.out = ic ? x.in : identified(rng, h::range(rng, 0, 5));
        x.rho = number(rng, 0, 2), x.weight = h::uni(rng, 0, 200), x.partial = h::uni(rng, 0, 100);
        if (h::chance(rng, .1)) x.weight *= 1e-4;
        x.type = h::pick(rng, types);
        x.t = h::uni(rng, 0, 10);
      } else {
        x.list = identified(rng, h::chance(rng, .1) ? 0 : h::range(rng, 1, 25));
      }
      s.push_back(x);
    };
    for (int e = 0; e < ensembles; e++) step(Step::Start, e);
    const int n = h::range(rng, 0, 10);
    for (int i = 0; i < n; i++) {
      if (h::chance(rng, .3))
        for (int e = 0; e < ensembles; e++) step(Step::Time, e);
      else
        step(Step::Interaction, 0);
    }
    for (int e = 0; e < ensembles; e++) step(Step::End, e);
  }
  return s;
}
void feed(OutputInterface &out, const Step &s, bool ic) {
  const std::unique_ptr<Clock> clock = std::make_unique<UniformClock>(0., 1., 10.);
  const ExperimentParameters par = h::params();
  const DensityParameters dens(par);
  Particles p;
  // ids are those of the list
  if (!s.list.empty()) {
    int at = 0;
    std::vector<ParticleData> fillers;
    for (const auto &d : s.list) {
      while (at < d.id()) {
        ParticleData f(ParticleType::find(PdgCode("111")));
        f.set_4momentum(f.pole_mass(), ThreeVector());
        fillers.push_back(p.insert(f));
        at++;
      }
      p.insert(d);
      at++;
    }
    for (const auto &f : fillers) p.remove(f);
  }
  switch (s.kind) {
    case Step::Start:
      out.at_eventstart(p, s.label, s.info);
      break;
    case Step::Time:
      out.at_intermediate_time(p, clock, dens, s.label, s.info);
      break;
    case Step::End:
      out.at_eventend(p, s.label, s.info);
      break;
    case Step::Interaction:
      if (ic) {
        FluidizationAction::remove_particle_ = true;
        FluidizationAction a(s.in[0], s.in[0], 0.);
        out.at_interaction(a, s.rho);
      } else {
        out.at_interaction(TestAction(s.in, s.out, s.t, s.type, s.weight, s.partial), s.rho);
      }
  }
}
struct Setup {
  std::string content, format;
  OutputParameters par;
  std::vector<std::string> quantities;
  bool ic, start_end, times, at_start, at_end, at_end_not_empty, interactions;
  int ensembles;
  explicit Setup(h::Rng &rng, bool binary) {
    const std::vector<std::string> contents{"Particles", "Particles", "Collisions", "Dileptons", "Photons", "Initial_Conditions"};
    content = h::pick(rng, contents);
    ic = content == "Initial_Conditions";
    const std::vector<std::string> text{"Oscar2013", "Oscar1999", "ASCII"}, bin{"Oscar2013_bin", "Binary"};
    format = binary ? h::pick(rng, bin) : h::pick(rng, text);
    for (const char *c : {"Particles", "Collisions", "Dileptons", "Photons", "Initial_Conditions"}) par.quantities[c] = {};
    const bool extended = h::chance(rng, .5);
    // the others the other way round
    par.part_extended = extended == (content == "Particles");
    par.coll_extended = extended == (content == "Collisions");
    par.dil_extended = extended == (content == "Dileptons");
    par.photons_extended = extended == (content == "Photons");
    par.ic_extended = extended == ic;
    quantities = extended ? qextended : q2013;
    if (format == "Oscar1999") quantities = q1999;
    if (format == "ASCII" || (format == "Binary" && h::chance(rng, .7))) {
      quantities = random_quantities(rng);
      if (h::chance(rng, .1)) quantities = h::chance(rng, .5) ? q2013 : qextended;
      par.quantities[content] = quantities;
    }
    const int only = h::below(rng, 3);
    par.part_only_final = only == 0 ? OutputOnlyFinal::Yes : only == 1 ? OutputOnlyFinal::No : OutputOnlyFinal::IfNotEmpty;
    par.coll_printstartend = h::chance(rng, .5);
    const bool particles = content == "Particles", collisions = content != "Particles" && !ic;
    // in binary dileptons and photons follow the option of collisions
    start_end = collisions && par.coll_printstartend && (binary || content == "Collisions");
    times = particles && only == 1;
    at_start = times || start_end;
    at_end = (particles && only != 2) || start_end;
    at_end_not_empty = particles && only == 2;
    interactions = collisions;
    ensembles = h::chance(rng, .6) ? 1 : h::range(rng, 2, 3);
  }
};
std::string words(const char *f, ...) {
  char b[1000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
/// compares word by word, numbers with the given precision
bool same_words(const std::string &got, const std::string &want) {
  std::istringstream a(got), b(want);
  std::string x, y;
  for (;;) {
    const bool p = bool(a >> x), q = bool(b >> y);
    if (p != q) return false;
    if (!p) return true;
    if (x == y) continue;
    if (y.find('~') == 0) {  // ~value~tolerance
      const size_t k = y.find('~', 1);
      const double v = std::stod(y.substr(1, k - 1)), tol = std::stod(y.substr(k + 1));
      char *end;
      const double g = std::strtod(x.c_str(), &end);
      if (!*end && std::abs(g - v) <= tol) continue;
    }
    return false;
  }
}
}  // namespace

SECTION(oscar) {
  h::load_mid(false);
  const Scratch scratch;
  const int N = h::tier(250);
  for (int n = 0; n < N; n++) {
    const Setup s(rng, false);
    const bool old = s.format == "Oscar1999";
    const auto steps = history(rng, s.ic, s.ensembles);
    std::string name = s.content == "Particles" ? "particle_lists" : s.content == "Collisions" ? "full_event_history" : s.ic ? "SMASH_IC" : s.content;
    const fs::path file = scratch.dir / (name + (s.format == "ASCII" ? ".dat" : ".oscar") + (old ? "1999" : ""));
    h::at("%s %s, %zu quantities, %zu steps, final %d, start and end %d", s.content.c_str(), s.format.c_str(), s.quantities.size(), steps.size(), int(s.par.part_only_final), s.par.coll_printstartend);
    struct Line {
      std::string header;
      std::optional<ParticleData> p;
    };
    std::vector<Line> want;
    const auto all = [&](const ParticleList &l) {
      for (const auto &d : l) want.push_back({"", d});
    };
    bool complete = true;
    {
      const auto out = create_oscar_output(s.format, s.content, scratch.dir, s.par);
      if (out->is_IC_output() != s.ic) h::fail("kind", "%s is %staken as output of initial conditions", s.content.c_str(), s.ic ? "not " : "");
      if (out->is_dilepton_output() != (s.content == "Dileptons") || out->is_photon_output() != (s.content == "Photons")) h::fail("kind", "kind of output of %s", s.content.c_str());
      for (const auto &x : steps) {
        feed(*out, x, s.ic);
        const int ev = x.label.event_number, en = x.label.ensemble_number;
        const size_t k = x.list.size();
        switch (x.kind) {
          case Step::Start:
            if (s.ic)
              want.push_back({old ? words("0 0 %d %d", ev, en) : words("# event %d ensemble %d start", ev, en), {}});
            else if (s.at_start)
              want.push_back({old ? words("0 %zu %d %d", k, ev, en) : words("# event %d ensemble %d in %zu", ev, en, k), {}}), all(x.list);
            break;
          case Step::Time:
            if (s.times) want.push_back({old ? words("%zu 0 %d %d", k, ev, en) : words("# event %d ensemble %d out %zu", ev, en, k), {}}), all(x.list);
            break;
          case Step::Interaction:
            if (s.ic) {
              all(x.in);
            } else if (s.interactions) {
              const double w = x.weight, tw = std::abs(w) * 5.1e-7;
              want.push_back({old ? words("%zu %zu ~%.17g~5.1e-8 ~%.17g~5.1e-8 ~%.17g~5.1e-8 %d", x.in.size(), x.out.size(), x.rho, w, x.partial, int(x.type))
                                  : words("# interaction in %zu out %zu rho ~%.17g~5.1e-8 weight ~%.17g~%g partial ~%.17g~5.1e-8 type %d", x.in.size(), x.out.size(), x.rho, w, tw, x.partial, int(x.type)),
                              {}});
              all(x.in), all(x.out);
            }
            break;
          case Step::End:
            if (s.at_end || (s.at_end_not_empty && !x.info.empty_event))
              want.push_back({old ? words("%zu 0 %d %d", k, ev, en) : words("# event %d ensemble %d out %zu", ev, en, k), {}}), all(x.list);
            if (old)
              want.push_back({words("0 0 %d %d ~%.17g~5.1e-4", ev, en, x.info.impact_parameter), {}});
            else if (s.ic)
              want.push_back({words("# event %d ensemble %d end", ev, en), {}});
            else
              want.push_back({words("# event %d ensemble %d end 0 impact ~%.17g~5.1e-4 scattering_projectile_target %s", ev, en, x.info.impact_parameter, x.info.empty_event ? "no" : "yes"), {}});
            // completed events are on the disk
            complete = fs::exists(file.string() + ".unfinished") && !fs::exists(file);
            if (!complete) h::fail("unfinished", "while writing the output is not in %s.unfinished", file.filename().c_str());
            {
              const std::string text = h::slurp(file.string() + ".unfinished");
              if (size_t(std::count(text.begin(), text.end(), '\n')) < want.size() || text.back() != '\n') h::fail("flushed", "after the end of event %d not everything is written to the file", ev);
            }
            break;
        }
      }
    }
    if (!fs::exists(file) || fs::exists(file.string() + ".unfinished")) {
      h::fail("finished", "%s does not have its final name", file.filename().c_str());
      continue;
    }
    std::istringstream in(h::slurp(file.string()));
    std::vector<std::string> lines;
    for (std::string l; std::getline(in, l);) lines.push_back(l);
    fs::remove(file);
    // header
    std::string cols;
    for (const auto &q : s.quantities) cols += " " + q;
    size_t i = 0;
    if (!old) {
      const std::string tag = s.format == "ASCII" ? "#!ASCII" : s.quantities == qextended ? "#!OSCAR2013Extended" : "#!OSCAR2013";
      if (lines.size() < 3 || !same_words(lines[0], tag + " " + name + cols)) h::fail("header", "first line is '%s', expected '%s %s%s'", lines.empty() ? "" : lines[0].c_str(), tag.c_str(), name.c_str(), cols.c_str());
      if (lines.size() > 1) {
        std::istringstream u(lines[1]);
        std::vector<std::string> w;
        for (std::string x; u >> x;) w.push_back(x);
        if (w.size() != s.quantities.size() + 2 || w[0] != "#" || w[1] != "Units:") h::fail("units", "line of units '%s' for %zu quantities", lines[1].c_str(), s.quantities.size());
      }
      i = 3;
    } else {
      if (lines.empty() || !same_words(lines[0], "# OSC1999A")) h::fail("header", "first line is '%s'", lines.empty() ? "" : lines[0].c_str());
      while (i < lines.size() && lines[i][0] == '#') i++;
    }
    size_t k = 0;
    for (; i < lines.size() && k < want.size(); i++, k++) {
      std::string why;
      if (want[k].p) {
        if (!same_line(lines[i], *want[k].p, s.quantities, why)) {
          h::fail("particle", "%s in line %zu", why.c_str(), i + 1);
          break;
        }
        h::count("particle lines");
      } else {
        if (!same_words(lines[i], want[k].header)) {
          h::fail("block", "line %zu is '%s', expected '%s'", i + 1, lines[i].c_str(), want[k].header.c_str());
          break;
        }
        h::count("block lines");
      }
    }
    if (i < lines.size() && k == want.size()) h::fail("more", "%zu lines more than expected", lines.size() - i);
    if (i == lines.size() && k < want.size()) h::fail("less", "%zu lines are missing", want.size() - k);
    h::evaluated(h::current);
  }
}

namespace {
struct Reader {
  std::string data;
  size_t at = 0;
  bool ok = true;
  template <class T>
  T get() {
    T v{};
    if (at + sizeof v > data.size()) {
      ok = false;
      return v;
    }
    memcpy(&v, data.data() + at, sizeof v);
    at += sizeof v;
    return v;
  }
};
bool read_particle(Reader &r, const ParticleData &p, const std::vector<std::string> &qs, std::string &why) {
  for (const auto &name : qs) {
    const auto &q = table().at(name);
    const double v = q.integer ? double(r.get<int32_t>()) : r.get<double>();
    if (!r.ok || !matches(v, q.get(p), q, false, name)) {
      char b[200];
      snprintf(b, sizeof b, "%s is %.17g, the particle has %.17g", name.c_str(), v, q.get(p));
      why = r.ok ? b : "the file ends";
      return false;
    }
  }
  return true;
}
}  // namespace

SECTION(binary) {
  h::load_mid(false);
  const Scratch scratch;
  const int N = h::tier(250);
  for (int n = 0; n < N; n++) {
    const Setup s(rng, true);
    const auto steps = history(rng, s.ic, s.ensembles);
    std::string name = s.content == "Particles" ? "particles" : s.content == "Collisions" ? "collisions" : s.ic ? "SMASH_IC" : s.content;
    const bool is2013 = s.quantities == q2013, isext = s.quantities == qextended;
    const fs::path file = scratch.dir / (name + (is2013 ? "_oscar2013" : isext ? "_oscar2013_extended" : "_custom") + ".bin");
    h::at("%s %s, %zu quantities, %zu steps, final %d, start and end %d", s.content.c_str(), s.format.c_str(), s.quantities.size(), steps.size(), int(s.par.part_only_final), s.par.coll_printstartend);
    {
      const auto out = create_binary_output(s.format, s.content, scratch.dir, s.par);
      for (const auto &x : steps) {
        feed(*out, x, s.ic);
        if (x.kind == Step::End) {
          if (!fs::exists(file.string() + ".unfinished") || fs::exists(file)) {
            h::fail("unfinished", "while writing the output is not in %s.unfinished", file.filename().c_str());
          } else {
            // completed events are on the disk
            const std::string text = h::slurp(file.string() + ".unfinished");
            Reader t{text, text.size() < 18 ? 0 : text.size() - 18};
            if (t.get<char>() != 'f' || t.get<int32_t>() != x.label.event_number || t.get<int32_t>() != x.label.ensemble_number) h::fail("flushed", "after event %d the file does not end with its end", x.label.event_number);
          }
        }
      }
    }
    if (!fs::exists(file) || fs::exists(file.string() + ".unfinished")) {
      h::fail("finished", "%s does not have its final name", file.filename().c_str());
      continue;
    }
    Reader r{h::slurp(file.string())};
    fs::remove(file);
    if (r.data.substr(0, 4) != "SMSH") h::fail("header", "magic number");
    r.at = 4;
    const int version = r.get<uint16_t>(), variant = r.get<uint16_t>();
    if (version != 10 || variant != (is2013 ? 0 : isext ? 1 : 2)) h::fail("header", "format version %d variant %d", version, variant);
    const uint32_t len = r.get<uint32_t>();
    if (r.data.substr(r.at, 5) != "SMASH") h::fail("header", "version of SMASH");
    r.at += len;
    std::string why;
    bool good = true;
    const auto list = [&](const ParticleList &l) {
      for (const auto &d : l) {
        if (!good) return;
        if (!read_particle(r, d, s.quantities, why)) good = false, h::fail("particle", "%s, at byte %zu", why.c_str(), r.at);
        h::count("particles");
      }
    };
    const auto block = [&](char want) {
      const char c = r.get<char>();
      if (!good) return;
      if (!r.ok || c != want) good = false, h::fail("block", "block '%c' instead of '%c' at byte %zu of %zu", r.ok ? c : '?', want, r.at, r.data.size());
      h::count("blocks");
    };
    const auto label = [&](const EventLabel &l) {
      const int ev = r.get<int32_t>(), en = r.get<int32_t>();
      if (good && (ev != l.event_number || en != l.ensemble_number)) good = false, h::fail("label", "event %d ensemble %d instead of %d %d", ev, en, l.event_number, l.ensemble_number);
    };
    const auto size = [&](size_t want) {
      const uint32_t k = r.get<uint32_t>();
      if (good && k != want) good = false, h::fail("size", "block of %u particles instead of %zu", k, want);
    };
    for (const auto &x : steps) {
      if (!good) break;
      switch (x.kind) {
        case Step::Start:
          if (s.at_start && !s.ic) block('p'), label(x.label), size(x.list.size()), list(x.list);
          break;
        case Step::Time:
          if (s.times) block('p'), label(x.label), size(x.list.size()), list(x.list);
          break;
        case Step::Interaction:
          if (s.ic) {
            block('p'), size(x.in.size()), list(x.in);
          } else if (s.interactions) {
            block('i'), size(x.in.size()), size(x.out.size());
            const double rho = r.get<double>(), w = r.get<double>(), p = r.get<double>();
            const uint32_t t = r.get<uint32_t>();
            if (good && (rho != x.rho || w != x.weight || p != x.partial || t != uint32_t(int(x.type)))) good = false, h::fail("interaction", "density %g weight %g partial %g type %u", rho, w, p, t);
            list(x.in), list(x.out);
          }
          break;
        case Step::End: {
          if (s.at_end || (s.at_end_not_empty && !x.info.empty_event)) block('p'), label(x.label), size(x.list.size()), list(x.list);
          block('f'), label(x.label);
          const double b = r.get<double>();
          const char e = r.get<char>();
          if (good && (b != x.info.impact_parameter || bool(e) != x.info.empty_event)) good = false, h::fail("end", "impact parameter %g empty %d", b, e);
        }
      }
    }
    if (good && r.at != r.data.size()) h::fail("more", "%zu bytes more than expected", r.data.size() - r.at);
    h::evaluated(h::current);
  }
}

SECTION(formatter) {
  h::load_mid(false);
  for (int n = 0; n < h::tier(400); n++) {
    const auto qs = random_quantities(rng);
    OutputFormatter<ToASCII> text(qs);
    OutputFormatter<ToBinary> binary(qs);
    Particles parts;
    const int many = h::range(rng, 0, 30);
    for (int i = 0; i < many; i++) parts.insert(particle(rng));
    const ParticleList list = parts.copy_to_vector();
    h::at("%zu quantities, %d particles", qs.size(), many);
    std::string all;
    std::vector<char> bytes;
    std::string why;
    for (const auto &d : list) {
      const std::string l = text.single_particle_data(d);
      if (l.empty() || l.back() != '\n' || l.find('\0') != std::string::npos) h::fail("line", "line '%s'", l.c_str());
      else if (!same_line(l, d, qs, why)) h::fail("text", "%s", why.c_str());
      if (text.compute_single_size(d) != l.size()) h::fail("size", "size %zu, calculated %zu", l.size(), text.compute_single_size(d));
      const auto b = binary.single_particle_data(d);
      Reader r{std::string(b.begin(), b.end())};
      if (!read_particle(r, d, qs, why) || r.at != b.size()) h::fail("binary", "%s, %zu of %zu bytes", why.c_str(), r.at, b.size());
      if (binary.compute_single_size(d) != b.size()) h::fail("size", "size %zu, calculated %zu", b.size(), binary.compute_single_size(d));
      all += l;
      bytes.insert(bytes.end(), b.begin(), b.end());
    }
    if (text.particles_data_chunk(list) != all || text.particles_data_chunk(parts) != all) h::fail("chunk", "a chunk of lines differs from the lines");
    if (binary.particles_data_chunk(list) != bytes || binary.particles_data_chunk(parts) != bytes) h::fail("chunk", "a binary chunk differs from its parts");
    std::string got, line;
    write_in_chunk<ToASCII>(parts, text, [&](const std::string &b) { got += b; });
    if (got != all) h::fail("chunks", "writing in chunks changes the text");
    // small chunks
    if (many) {
      size_t longest = 0;
      for (const auto &d : list) longest = std::max(longest, text.single_particle_data(d).size());
      got = "";
      size_t biggest = 0;
      const size_t limit = 2 * longest + size_t(h::range(rng, 0, 300));
      details::write_in_chunk_impl<ToASCII>(list, text, [&](const std::string &b) { got += b, biggest = std::max(biggest, b.size()); }, limit);
      if (got != all) h::fail("chunks", "writing in chunks of %zu changes the text", limit);
      std::vector<char> gotb;
      details::write_in_chunk_impl<ToBinary>(parts, binary, [&](const std::vector<char> &b) { gotb.insert(gotb.end(), b.begin(), b.end()); }, 2 * bytes.size() / size_t(many) + size_t(h::range(rng, 0, 100)));
      if (gotb != bytes) h::fail("chunks", "writing in chunks changes binary data");
      h::count("chunked lists");
    }
    line = text.quantities_line();
    std::string want;
    for (const auto &q : qs) want += (want.empty() ? "" : " ") + q;
    if (line != want + "\n") h::fail("quantities", "line of quantities '%s'", line.c_str());
    // wrong lists are refused
    auto wrong = qs;
    const int kind = h::below(rng, 4);
    if (kind == 0) wrong.push_back(qs[size_t(h::below(rng, int(qs.size())))]);
    if (kind == 1) wrong.push_back("gibberish");
    if (kind == 2) wrong = {"x", "id", "ID"};
    if (kind == 3) wrong = {};
    bool refused = false;
    try {
      OutputFormatter<ToASCII> f(wrong);
    } catch (const std::exception &) {
      refused = true;
    }
    if (!refused) h::fail("refused", "list of quantities of kind %d is accepted", kind);
    h::evaluated(h::current);
  }
}

SECTION(finish) {
  const Scratch scratch;
  struct Stop {};
  for (int n = 0; n < h::tier(60); n++) {
    const fs::path f = scratch.dir / ("file" + std::to_string(n) + ".dat"), u = f.string() + ".unfinished";
    const bool older = h::chance(rng, .5);
    if (older) {
      FilePtr o = smash::fopen(f, "w");
      std::fputs("older", o.get());
    }
    std::string text;
    const int len = h::range(rng, 0, 20000);
    for (int i = 0; i < len; i++) text += char('a' + h::below(rng, 26));
    const int kind = h::below(rng, 5);
    h::at("kind %d, %d characters, older %d", kind, len, older);
    const auto write = [&](bool stop) {
      RenamingFilePtr p(f, "w");
      std::fputs(text.c_str(), p.get());
      if (older ? h::slurp(f.string()) != "older" : fs::exists(f)) h::fail("early", "the file is there before it is finished");
      if (!fs::exists(u)) h::fail("unfinished", "there is no unfinished file");
      if (stop) throw Stop();
    };
    bool done = false;
    if (kind == 0) {
      write(false);
      done = true;
    } else if (kind == 1) {
      try {
        write(true);
      } catch (Stop) {
      }
    } else if (kind == 2) {
      // an exception that ends inside does not matter
      RenamingFilePtr p(f, "w");
      try {
        throw Stop();
      } catch (Stop) {
      }
      std::fputs(text.c_str(), p.get());
      done = true;
    } else if (kind == 3) {
      // written while another exception is on its way
      struct Late {
        std::function<void()> f;
        ~Late() { f(); }
      };
      try {
        Late late{[&] { write(false); }};
        throw Stop();
      } catch (Stop) {
      }
      done = true;
    } else {
      // killed
      const pid_t pid = fork();
      if (!pid) {
        RenamingFilePtr p(f, "w");
        std::fputs(text.c_str(), p.get());
        std::fflush(p.get());
        kill(getpid(), SIGKILL);
      }
      int st;
      waitpid(pid, &st, 0);
    }
    // the renamed file is looked at after the scope of the pointer
    if (kind == 2) done = true;
    if (done) {
      if (!fs::exists(f) || h::slurp(f.string()) != text) h::fail("finished", "the finished file does not contain what was written");
      if (fs::exists(u)) h::fail("finished", "the unfinished file is still there");
    } else {
      if (older ? h::slurp(f.string()) != "older" : fs::exists(f)) h::fail("interrupted", "an interrupted output has its final name");
      if (!fs::exists(u) || h::slurp(u.string()) != text) h::fail("interrupted", "what was written before the interruption is not in the unfinished file");
    }
    h::evaluated(h::current);
  }
}

namespace {
std::vector<std::string> tokens(const fs::path &f) {
  std::istringstream in(h::slurp(f.string()));
  std::vector<std::string> t;
  for (std::string x; in >> x;) t.push_back(x);
  return t;
}
struct Vtk {
  std::vector<std::string> t;
  size_t at = 0;
  bool ok = true;
  bool word(const std::string &w) {
    // up to the next occurrence
    while (at < t.size() && t[at] != w) at++;
    if (at == t.size()) return ok = false;
    at++;
    return true;
  }
  double num() {
    if (at >= t.size()) return ok = false, 0;
    char *end;
    const double v = std::strtod(t[at].c_str(), &end);
    if (*end) ok = false;
    at++;
    return v;
  }
};
bool near6(double a, double b) { return std::abs(a - b) <= 5.01e-6 * std::abs(b) + 1e-300; }
}  // namespace

SECTION(vtk) {
  h::load_mid(false);
  for (int n = 0; n < h::tier(25); n++) {
    const Scratch scratch;
    OutputParameters par;
    const int ensembles = h::chance(rng, .5) ? 1 : h::range(rng, 2, 3);
    const auto steps = history(rng, false, ensembles);
    h::at("%zu steps %d ensembles", steps.size(), ensembles);
    std::map<std::string, ParticleList> want;
    {
      VtkOutput out(scratch.dir, "Particles", par);
      std::map<std::pair<int, int>, int> counter;
      for (const auto &s : steps) {
        feed(out, s, false);
        if (s.kind == Step::Start || s.kind == Step::Time) {
          int &c = counter[{s.label.event_number, s.label.ensemble_number}];
          want[words("pos_ev%05d_ens%05d_tstep%05d.vtk", s.label.event_number, s.label.ensemble_number, c++)] = s.list;
        }
      }
    }
    size_t files = 0;
    for (const auto &f : fs::directory_iterator(scratch.dir)) files += f.is_regular_file();
    if (files != want.size()) h::fail("files", "%zu files instead of %zu", files, want.size());
    for (const auto &w : want) {
      const fs::path f = scratch.dir / w.first;
      if (!fs::exists(f)) {
        h::fail("files", "no file %s", w.first.c_str());
        continue;
      }
      Vtk v{tokens(f)};
      const auto &l = w.second;
      bool good = true;
      const auto check = [&](const char *what, std::function<double(const ParticleData &)> get, bool integer) {
        if (!good) return;
        if (!v.word(what)) {
          good = false;
          h::fail("section", "no %s in %s", what, w.first.c_str());
          return;
        }
        if (!v.word("default")) good = false;
        for (const auto &d : l) {
          const double x = v.num(), y = get(d);
          if (good && (!v.ok || (integer ? x != y : !near6(x, y) && !(std::isnan(x) && std::isnan(y))))) good = false, h::fail(what, "%s is %.9g, the particle has %.9g", what, x, y);
        }
      };
      v.word("POINTS");
      if (v.num() != double(l.size())) h::fail("points", "number of points");
      v.word("double");
      for (const auto &d : l)
        for (size_t k = 0; k < 3; k++) {
          const double x = v.num();
          if (good && (!v.ok || !near6(x, d.position().threevec()[k]))) good = false, h::fail("position", "coordinate %.9g instead of %.9g", x, d.position().threevec()[k]);
        }
      check("pdg_codes", [](const ParticleData &d) { return double(d.type().pdgcode().get_decimal()); }, true);
      double now = 0;
      if (!l.empty()) now = l[0].position().x0();
      bool one = true;  // are all particles at the same time?
      for (const auto &d : l) one &= d.position().x0() == now;
      if (one) check("is_formed", [&](const ParticleData &d) { return d.formation_time() > now ? 0. : 1.; }, true);
      check("cross_section_scaling_factor", [](const ParticleData &d) { return d.xsec_scaling_factor(); }, false);
      check("mass", [](const ParticleData &d) { return d.effective_mass(); }, false);
      check("N_coll", [](const ParticleData &d) { return double(d.get_history().collisions_per_particle); }, true);
      check("particle_ID", [](const ParticleData &d) { return double(d.id()); }, true);
      check("baryon_number", [](const ParticleData &d) { return double(d.type().baryon_number()); }, true);
      check("strangeness", [](const ParticleData &d) { return double(d.type().strangeness()); }, true);
      if (good) {
        v.word("momentum");
        v.word("double");
        for (const auto &d : l)
          for (size_t k = 0; k < 3; k++) {
            const double x = v.num();
            if (good && (!v.ok || !near6(x, d.momentum().threevec()[k]))) good = false, h::fail("momentum", "momentum %.9g instead of %.9g", x, d.momentum().threevec()[k]);
          }
        if (good && v.at != v.t.size()) h::fail("more", "more in the file than expected");
      }
      h::count("particle files");
    }
    h::evaluated(h::current);
  }
}

namespace {
struct Fluid {
  double e, p;
  ThreeVector v;
  EnergyMomentumTensor T() const {
    const double g = 1 / std::sqrt(1 - v.sqr());
    const double u[4] = {g, g * v.x1(), g * v.x2(), g * v.x3()};
    EnergyMomentumTensor::tmn_type t;
    for (int a = 0; a < 4; a++)
      for (int b = a; b < 4; b++) t[size_t(EnergyMomentumTensor::tmn_index(size_t(a), size_t(b)))] = (e + p) * u[a] * u[b] - (a == b ? (a ? -p : p) : 0);
    return EnergyMomentumTensor(t);
  }
};
struct Lat {
  std::array<double, 3> l, o;
  std::array<int, 3> n;
  explicit Lat(h::Rng &rng) {
    for (size_t k = 0; k < 3; k++) l[k] = h::uni(rng, 2., 9.), o[k] = h::uni(rng, -5., 2.), n[k] = h::range(rng, 1, 4);
  }
  template <class T>
  RectangularLattice<T> make() const {
    return RectangularLattice<T>(l, n, o, false, LatticeUpdate::AtOutput);
  }
  size_t size() const { return size_t(n[0] * n[1] * n[2]); }
};
const DensityType kinds[] = {DensityType::Hadron, DensityType::Baryon, DensityType::BaryonicIsospin, DensityType::Pion, DensityType::Isospin3_tot, DensityType::Charge, DensityType::Strangeness};
const char *names[] = {"hadron", "net_baryon", "net_baryonI3", "pion", "tot_isospin3", "charge", "strangeness"};
/// density and current of particles at a point in the smeared or not smeared way, by hand
FourVector current(const std::vector<Particles> &ens, const DensityParameters &d, const ExperimentParameters &p, ThreeVector r, std::function<double(const ParticleType &)> f, bool smearing) {
  FourVector j;
  const double s = p.gaussian_sigma, cut = p.gauss_cutoff_in_sigma;
  const double inside = std::erf(cut / std::sqrt(2.)) - std::sqrt(2 / M_PI) * cut * std::exp(-cut * cut / 2);
  const double norm = 1 / (std::pow(2 * M_PI * s * s, 1.5) * inside * p.testparticles * p.n_ensembles);
  for (const auto &e : ens)
    for (const auto &x : e) {
      const double w = f(x.type());
      if (w == 0 || (d.only_participants() && x.get_history().collisions_per_particle == 0)) continue;
      const FourVector u = x.momentum() / std::sqrt(x.momentum().sqr());
      const ThreeVector dr = x.position().threevec() - r;
      const double rr = dr.sqr() + (dr * u.threevec()) * (dr * u.threevec());
      double k = 1;
      if (smearing) {
        if (rr > cut * cut * s * s) continue;
        k = u.x0() * std::exp(-rr / (2 * s * s)) * norm;
      }
      j += FourVector(1, x.velocity()) * (k * w);
    }
  return j;
}
double weight(DensityType t, const ParticleType &p) {
  switch (t) {
    case DensityType::Hadron:
      return p.is_hadron();
    case DensityType::Baryon:
      return p.baryon_number();
    case DensityType::BaryonicIsospin:
      return p.baryon_number() ? p.isospin3_rel() : 0;
    case DensityType::Pion:
      return p.pdgcode().is_pion();
    case DensityType::Isospin3_tot:
      return p.is_hadron() ? p.isospin3() : 0;
    case DensityType::Charge:
      return p.charge();
    case DensityType::Strangeness:
      return p.strangeness();
    default:
      return 0;
  }
}
std::vector<Particles> matter(h::Rng &rng, int ensembles, int many) {
  std::vector<Particles> r(static_cast<size_t>(ensembles));
  const std::vector<const char *> s{"211", "-211", "2212", "2112", "3122", "-2212", "321", "2224"};
  for (auto &e : r)
    for (int i = 0; i < many; i++) {
      ParticleData d(ParticleType::find(PdgCode(std::string(h::pick(rng, s)))));
      d.set_4momentum(d.pole_mass(), random_vec(rng, .8));
      d.set_4position(FourVector(1., random_vec(rng, 3.)));
      HistoryData hist;
      hist.collisions_per_particle = h::range(rng, 0, 2);
      d.set_history(std::move(hist));
      e.insert(d);
    }
  return r;
}
bool near(double a, double b, double abs, double rel) { return std::abs(a - b) <= abs + rel * std::abs(b); }
}  // namespace

SECTION(lattice) {
  h::load_mid(false);
  for (int n = 0; n < h::tier(40); n++) {
    const Scratch scratch;
    const int kind = h::below(rng, 7), ensembles = h::range(rng, 1, 2), q = h::below(rng, 5);
    const DensityType dt = kinds[kind];
    const Lat L(rng);
    ExperimentParameters ep = h::params(h::range(rng, 1, 3), .1, 0., 300., h::uni(rng, .6, 1.5), h::uni(rng, 2., 5.), ensembles);
    OutputParameters par;
    par.td_dens_type = dt;
    par.td_smearing = h::chance(rng, .8);
    par.td_rho_eckart = q == 0, par.td_tmn = q == 1, par.td_tmn_landau = q == 2, par.td_v_landau = q == 3, par.td_jQBS = q == 4;
    const ThermodynamicQuantity tqs[] = {ThermodynamicQuantity::EckartDensity, ThermodynamicQuantity::Tmn, ThermodynamicQuantity::TmnLandau, ThermodynamicQuantity::LandauVelocity, ThermodynamicQuantity::j_QBS};
    const char *tq[] = {"rho_eckart", "tmn", "tmn_landau", "v_landau", "j_QBS"};
    h::at("%s %s lattice %dx%dx%d smearing %d", names[kind], tq[q], L.n[0], L.n[1], L.n[2], par.td_smearing);
    ThermodynamicLatticeOutput text(scratch.dir, "Thermodynamics", par, true, false), binary(scratch.dir, "Thermodynamics", par, false, true);
    VtkOutput vtk(scratch.dir, "Thermodynamics", par);
    const int events = h::range(rng, 1, 2);
    for (int ev = 0; ev < events; ev++) {
      auto dens = L.make<DensityOnLattice>();
      auto tmn = L.make<EnergyMomentumTensor>();
      for (auto *o : {&text, &binary}) {
        if (q == 0 || q == 4) o->at_eventstart(ev, tqs[q], dt, dens);
        else o->at_eventstart(ev, tqs[q], dt, tmn);
      }
      Particles none;
      for (int e = 0; e < ensembles; e++) vtk.at_eventstart(none, EventLabel{ev, e}, EventInfo{});
      std::vector<double> want;
      std::vector<std::vector<double>> want_vtk;
      const int times = h::range(rng, 0, 3);
      for (int k = 0; k < times; k++) {
        const double now = h::uni(rng, -2., 30.);
        want.push_back(now);
        const DensityParameters dp(ep);
        const auto ens = matter(rng, ensembles, 12);
        std::vector<double> w;
        if (q == 0) {
          update_lattice_accumulating_ensembles(&dens, LatticeUpdate::AtOutput, dt, dp, ens, false);
          for (size_t c = 0; c < L.size(); c++) w.push_back(dens[c].rho());
          text.thermodynamics_lattice_output(dens, now), binary.thermodynamics_lattice_output(dens, now);
          vtk.thermodynamics_output(tqs[q], dt, dens);
        } else if (q == 4) {
          text.thermodynamics_lattice_output(dens, now, ens, dp), binary.thermodynamics_lattice_output(dens, now, ens, dp);
          for (size_t c = 0; c < L.size(); c++) {
            const ThreeVector r = dens.cell_center(int(c));
            for (const DensityType t : {DensityType::Charge, DensityType::Baryon, DensityType::Strangeness}) {
              const FourVector j = current(ens, dp, ep, r, [&](const ParticleType &p) { return weight(t, p); }, par.td_smearing);
              for (size_t i = 0; i < 4; i++) w.push_back(j[i]);
            }
          }
        } else {
          std::vector<Fluid> f;
          for (size_t c = 0; c < L.size(); c++) {
            const double e = h::uni(rng, .1, 3.);
            f.push_back({e, e * h::uni(rng, .1, .33), random_vec(rng, .4)});
            tmn[c] = f[c].T();
          }
          text.thermodynamics_lattice_output(tqs[q], tmn, now), binary.thermodynamics_lattice_output(tqs[q], tmn, now);
          vtk.thermodynamics_output(tqs[q], dt, tmn);
          if (q == 3) {
            for (const auto &x : f)
              for (size_t i = 0; i < 3; i++) w.push_back(x.v[i]);
          } else {
            for (size_t a = 0; a < 4; a++)
              for (size_t b = a; b < 4; b++)
                for (const auto &x : f) w.push_back(q == 1 ? x.T()[size_t(EnergyMomentumTensor::tmn_index(a, b))] : a != b ? 0 : a ? x.p : x.e);
          }
        }
        want.insert(want.end(), w.begin(), w.end());
        want_vtk.push_back(w);
      }
      text.at_eventend(tqs[q]), binary.at_eventend(tqs[q]);
      // numbers after the header
      const std::string base = words("%s_%s_%07d", names[kind], tq[q], ev);
      const fs::path fa = scratch.dir / (base + ".dat"), fb = scratch.dir / (base + ".bin");
      if (!fs::exists(fa) || !fs::exists(fb)) {
        h::fail("files", "no file %s", base.c_str());
        continue;
      }
      std::istringstream in(h::slurp(fa.string()));
      std::vector<double> got;
      std::string head;
      for (std::string l; std::getline(in, l);) {
        if (l[0] == '#') {
          head += l.substr(1) + " ";
          continue;
        }
        std::istringstream c(l);
        for (double x; c >> x;) got.push_back(x);
      }
      const std::string wanthead = words("Thermodynamic Lattice Output version: 1.00 Quantity: %s Grid dimensions: %d %d %d Grid spacing: ~%.17g~1e-6 ~%.17g~1e-6 ~%.17g~1e-6 Grid origin: ~%.17g~1e-6 ~%.17g~1e-6 ~%.17g~1e-6", tq[q],
                                         L.n[0], L.n[1], L.n[2], L.l[0] / L.n[0], L.l[1] / L.n[1], L.l[2] / L.n[2], L.o[0], L.o[1], L.o[2]);
      if (!same_words(head, wanthead)) h::fail("header", "header '%s'", head.c_str());
      Reader r{h::slurp(fb.string())};
      if (r.get<double>() != 1.0 || r.get<int32_t>() != q) h::fail("binary_header", "version and quantity");
      for (size_t k = 0; k < 3; k++)
        if (r.get<int32_t>() != L.n[k]) h::fail("binary_header", "dimensions");
      for (size_t k = 0; k < 3; k++)
        if (!near(r.get<double>(), L.l[k] / L.n[k], 1e-12, 1e-12)) h::fail("binary_header", "spacing");
      for (size_t k = 0; k < 3; k++)
        if (r.get<double>() != L.o[k]) h::fail("binary_header", "origin");
      std::vector<double> gotb;
      while (r.at < r.data.size() && r.ok) gotb.push_back(r.get<double>());
      if (got.size() != want.size() || gotb.size() != want.size()) {
        h::fail("count", "%zu numbers in text, %zu in binary, %zu expected", got.size(), gotb.size(), want.size());
      } else {
        for (size_t i = 0; i < want.size(); i++) {
          if (!near(gotb[i], want[i], 2e-7, 2e-6)) {
            h::fail("value", "number %zu is %.12g, expected %.12g", i, gotb[i], want[i]);
            break;
          }
          if (!near(got[i], gotb[i], 1e-300, 1e-13)) {
            h::fail("agree", "number %zu is %.17g in text and %.17g in binary", i, got[i], gotb[i]);
            break;
          }
        }
        h::count("lattice values", int(want.size()));
      }
      // VTK
      if (q == 4) continue;
      for (size_t k = 0; k < want_vtk.size(); k++) {
        const fs::path fv = scratch.dir / words("%s_%s_%05d_tstep%05zu.vtk", names[kind], tq[q], ev, k);
        if (!fs::exists(fv)) {
          h::fail("vtk_files", "no file %s", fv.filename().c_str());
          continue;
        }
        Vtk v{tokens(fv)};
        v.word("DIMENSIONS");
        for (size_t i = 0; i < 3; i++)
          if (v.num() != L.n[i]) h::fail("vtk_header", "dimensions");
        v.word("SPACING");
        for (size_t i = 0; i < 3; i++)
          if (!near(v.num(), L.l[i] / L.n[i], 0, 1e-5)) h::fail("vtk_header", "spacing");
        v.word("ORIGIN");
        for (size_t i = 0; i < 3; i++)
          if (!near(v.num(), L.o[i], 1e-6, 1e-5)) h::fail("vtk_header", "origin");
        v.word("POINT_DATA");
        if (v.num() != double(L.size())) h::fail("vtk_header", "number of points");
        const size_t per = q == 3 ? 3 * L.size() : L.size();
        for (size_t i = 0; i < want_vtk[k].size(); i++) {
          if (i % per == 0) v.word(q == 3 ? "double" : "default");
          const double x = v.num();
          if (!v.ok || !near(x, want_vtk[k][i], 5.01e-4 + 2e-7, 0)) {
            h::fail("vtk_value", "number %zu is %.6g, expected %.6g in %s", i, x, want_vtk[k][i], fv.filename().c_str());
            break;
          }
        }
        h::count("lattice files");
      }
    }
    h::evaluated(h::current);
  }
}

SECTION(thermodynamics) {
  h::load_mid(false);
  for (int n = 0; n < h::tier(60); n++) {
    const Scratch scratch;
    const int kind = h::below(rng, 7), ensembles = h::range(rng, 1, 3);
    const DensityType dt = kinds[kind];
    ExperimentParameters ep = h::params(h::range(rng, 1, 3), .1, 0., 300., h::uni(rng, .6, 1.5), h::uni(rng, 2., 5.), ensembles);
    OutputParameters par;
    par.td_dens_type = dt;
    par.td_position = random_vec(rng, 2.);
    par.td_smearing = h::chance(rng, .6), par.td_only_participants = ep.only_participants = h::chance(rng, .4);
    par.td_rho_eckart = par.td_smearing && h::chance(rng, .6), par.td_tmn = h::chance(rng, .6), par.td_tmn_landau = h::chance(rng, .4), par.td_v_landau = h::chance(rng, .4), par.td_jQBS = h::chance(rng, .5);
    h::at("%s smearing %d participants %d quantities %d%d%d%d%d", names[kind], par.td_smearing, par.td_only_participants, par.td_rho_eckart, par.td_tmn, par.td_tmn_landau, par.td_v_landau, par.td_jQBS);
    const DensityParameters dp(ep);
    std::vector<std::vector<double>> want;
    {
      ThermodynamicOutput out(scratch.dir, "Thermodynamics", par);
      for (int ev = 0; ev < 2; ev++) {
        const auto first = matter(rng, ensembles, 3);
        out.at_eventstart(first, ev);
        want.push_back({-1e9, double(ev)});
        std::unique_ptr<Clock> clock = std::make_unique<UniformClock>(h::range(rng, 0, 5), .25 * h::range(rng, 1, 8), 1000.);
        for (int k = h::range(rng, 0, 4); k > 0; k--) {
          const auto ens = matter(rng, ensembles, 20);
          out.at_intermediate_time(ens, clock, dp);
          std::vector<double> w{clock->current_time()};
          ++*clock;
          const auto jj = [&](DensityType t, bool smear) { return current(ens, dp, ep, par.td_position, [&](const ParticleType &p) { return weight(t, p); }, smear); };
          if (par.td_rho_eckart) {
            const auto part = [&](int sign) {
              return current(ens, dp, ep, par.td_position, [&](const ParticleType &p) { return std::max(0., sign * weight(dt, p)); }, true).abs();
            };
            w.push_back(part(1) - part(-1));
          }
          EnergyMomentumTensor T;
          double sum[4][4] = {};
          for (const auto &e : ens)
            for (const auto &x : e) {
              // the contribution of one particle to the current, as a weight
              std::vector<Particles> one(1);
              one[0].insert(x);
              const double f = current(one, dp, ep, par.td_position, [&](const ParticleType &p) { return weight(dt, p); }, par.td_smearing).x0();
              for (size_t a = 0; a < 4; a++)
                for (size_t b = 0; b < 4; b++) sum[a][b] += f * x.momentum()[a] * x.momentum()[b] / x.momentum().x0();
            }
          EnergyMomentumTensor::tmn_type t;
          for (size_t a = 0; a < 4; a++)
            for (size_t b = a; b < 4; b++) t[size_t(EnergyMomentumTensor::tmn_index(a, b))] = sum[a][b];
          T = EnergyMomentumTensor(t);
          if (par.td_tmn)
            for (size_t i = 0; i < 10; i++) w.push_back(t[i]);
          // the frame of net charges is ill-defined
          const bool definite = dt == DensityType::Hadron || dt == DensityType::Pion;
          const FourVector u = T.landau_frame_4velocity();
          const EnergyMomentumTensor TL = T.boosted(u);
          if (par.td_tmn_landau)
            for (size_t i = 0; i < 10; i++) w.push_back(definite ? TL[i] : NAN);
          if (par.td_v_landau)
            for (size_t i = 1; i < 4; i++) w.push_back(definite ? -u[i] / u[0] : NAN);
          if (par.td_jQBS)
            for (const DensityType q : {DensityType::Charge, DensityType::Baryon, DensityType::Strangeness})
              for (size_t i = 0; i < 4; i++) w.push_back(jj(q, par.td_smearing)[i]);
          want.push_back(w);
        }
        out.at_eventend(first, ev);
      }
    }
    const fs::path f = scratch.dir / "thermodynamics.dat";
    if (!fs::exists(f)) {
      h::fail("files", "no thermodynamics.dat");
      continue;
    }
    std::istringstream in(h::slurp(f.string()));
    size_t i = 0;
    int head = 0;
    for (std::string l; std::getline(in, l);) {
      int ev;
      if (l[0] == '#' && sscanf(l.c_str(), "# event %d", &ev) != 1) {
        if (head == 1 + par.td_only_participants + 1 && !same_words(l, std::string("# ") + names[kind])) h::fail("header", "type of density is '%s'", l.c_str());
        head++;
        continue;
      }
      if (i >= want.size()) {
        h::fail("more", "more lines than expected");
        break;
      }
      const auto &w = want[i++];
      if (l[0] == '#') {
        if (w.size() != 2 || w[0] != -1e9 || int(w[1]) != ev) h::fail("event", "unexpected line '%s'", l.c_str());
        continue;
      }
      std::istringstream c(l);
      std::vector<double> v;
      for (double x; c >> x;) v.push_back(x);
      if (v.size() != w.size()) {
        h::fail("columns", "%zu columns instead of %zu", v.size(), w.size());
        break;
      }
      for (size_t k = 0; k < w.size(); k++)
        if (!near(v[k], w[k], k ? 2e-7 : 5.01e-3, k ? 2e-5 : 0) && std::isfinite(w[k])) {
          h::fail("value", "column %zu is %.12g, expected %.12g", k + 1, v[k], w[k]);
          break;
        }
      h::count("lines");
    }
    if (i < want.size()) h::fail("less", "%zu lines are missing", want.size() - i);
    h::evaluated(h::current);
  }
}
HARNESS_MAIN
