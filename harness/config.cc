// The configuration: keys, sections, values and their validation, against an independent tree.
#pragma GCC optimize("O0")
#include <fstream>
#include <map>
#include <memory>

#include "h.h"
#include "smash/configuration.h"
#include "smash/inputfunctions.h"
#include "smash/library.h"
#include "smash/logging.h"
#include "smash/setup_particles_decaymodes.h"
#include "smash/input_keys.h"
#include "smash/stringify.h"
#include "smashenv.h"
#include "yaml-cpp/yaml.h"

using namespace smash;

namespace {
constexpr char S = Configuration::InitializeFromYAMLString;
template <class E>
using Names = std::vector<std::pair<const char *, E>>;
// what the user guide promises
template <class E>
const Names<E> &names();
#define NAMES(E, ...)                         \
  template <>                                 \
  const Names<E> &names<E>() {                \
    static const Names<E> n = __VA_ARGS__;    \
    return n;                                 \
  }
NAMES(CalculationFrame, {{"center of velocity", CalculationFrame::CenterOfVelocity}, {"center of mass", CalculationFrame::CenterOfMass}, {"fixed target", CalculationFrame::FixedTarget}})
NAMES(FermiMotion, {{"off", FermiMotion::Off}, {"on", FermiMotion::On}, {"frozen", FermiMotion::Frozen}})
NAMES(DensityType, {{"hadron", DensityType::Hadron}, {"baryon", DensityType::Baryon}, {"baryonic isospin", DensityType::BaryonicIsospin}, {"pion", DensityType::Pion}, {"total isospin", DensityType::Isospin3_tot}, {"none", DensityType::None}})
NAMES(ExpansionMode, {{"NoExpansion", ExpansionMode::NoExpansion}, {"MasslessFRW", ExpansionMode::MasslessFRW}, {"MassiveFRW", ExpansionMode::MassiveFRW}, {"Exponential", ExpansionMode::Exponential}})
NAMES(DerivativesMode, {{"Covariant Gaussian", DerivativesMode::CovariantGaussian}, {"Finite difference", DerivativesMode::FiniteDifference}, {"Off", DerivativesMode::Off}})
NAMES(FieldDerivativesMode, {{"Chain Rule", FieldDerivativesMode::ChainRule}, {"Direct", FieldDerivativesMode::Direct}})
NAMES(SmearingMode, {{"Covariant Gaussian", SmearingMode::CovariantGaussian}, {"Discrete", SmearingMode::Discrete}, {"Triangular", SmearingMode::Triangular}})
NAMES(TimeStepMode, {{"None", TimeStepMode::None}, {"Fixed", TimeStepMode::Fixed}})
NAMES(BoxInitialCondition, {{"thermal momenta", BoxInitialCondition::ThermalMomentaBoltzmann}, {"thermal momenta quantum", BoxInitialCondition::ThermalMomentaQuantum}, {"peaked momenta", BoxInitialCondition::PeakedMomenta}})
NAMES(SphereInitialCondition, {{"thermal momenta", SphereInitialCondition::ThermalMomentaBoltzmann}, {"thermal momenta quantum", SphereInitialCondition::ThermalMomentaQuantum}, {"IC_ES", SphereInitialCondition::IC_ES}, {"IC_1M", SphereInitialCondition::IC_1M}, {"IC_2M", SphereInitialCondition::IC_2M}, {"IC_Massive", SphereInitialCondition::IC_Massive}})
NAMES(NNbarTreatment, {{"no annihilation", NNbarTreatment::NoAnnihilation}, {"resonances", NNbarTreatment::Resonances}, {"two to five", NNbarTreatment::TwoToFive}, {"strings", NNbarTreatment::Strings}})
NAMES(Sampling, {{"quadratic", Sampling::Quadratic}, {"custom", Sampling::Custom}, {"uniform", Sampling::Uniform}})
NAMES(ThermalizationAlgorithm, {{"mode sampling", ThermalizationAlgorithm::ModeSampling}, {"biased BF", ThermalizationAlgorithm::BiasedBF}, {"unbiased BF", ThermalizationAlgorithm::UnbiasedBF}})
NAMES(CollisionCriterion, {{"Geometric", CollisionCriterion::Geometric}, {"Stochastic", CollisionCriterion::Stochastic}, {"Covariant", CollisionCriterion::Covariant}})
NAMES(SpinInteractionType, {{"On", SpinInteractionType::On}, {"Off", SpinInteractionType::Off}})
NAMES(TotalCrossSectionStrategy, {{"BottomUp", TotalCrossSectionStrategy::BottomUp}, {"TopDown", TotalCrossSectionStrategy::TopDown}, {"TopDownMeasured", TotalCrossSectionStrategy::TopDownMeasured}})
NAMES(PseudoResonance, {{"None", PseudoResonance::None}, {"Largest", PseudoResonance::Largest}, {"Closest", PseudoResonance::Closest}, {"LargestFromUnstable", PseudoResonance::LargestFromUnstable}, {"ClosestFromUnstable", PseudoResonance::ClosestFromUnstable}})
NAMES(FluidizationType, {{"Constant_Tau", FluidizationType::ConstantTau}, {"Dynamic", FluidizationType::Dynamic}})
NAMES(OutputOnlyFinal, {{"Yes", OutputOnlyFinal::Yes}, {"No", OutputOnlyFinal::No}, {"IfNotEmpty", OutputOnlyFinal::IfNotEmpty}})
NAMES(ThermodynamicQuantity, {{"rho_eckart", ThermodynamicQuantity::EckartDensity}, {"tmn", ThermodynamicQuantity::Tmn}, {"tmn_landau", ThermodynamicQuantity::TmnLandau}, {"landau_velocity", ThermodynamicQuantity::LandauVelocity}, {"j_QBS", ThermodynamicQuantity::j_QBS}})
NAMES(einhard::LogLevel, {{"ALL", einhard::ALL}, {"TRACE", einhard::TRACE}, {"DEBUG", einhard::DEBUG}, {"INFO", einhard::INFO}, {"WARN", einhard::WARN}, {"ERROR", einhard::ERROR}, {"FATAL", einhard::FATAL}, {"OFF", einhard::OFF}})
using Bits = std::vector<const char *>;
const Bits &bits(const ReactionsBitSet *) {
  static const Bits b = {"Elastic", "NN_to_NR", "NN_to_DR", "KN_to_KN", "KN_to_KDelta", "Strangeness_exchange", "NNbar", "PiDeuteron_to_NN", "PiDeuteron_to_pidprime", "NDeuteron_to_Ndprime"};
  return b;
}
const Bits &bits(const MultiParticleReactionsBitSet *) {
  static const Bits b = {"Meson_3to1", "Deuteron_3to2", "NNbar_5to2", "A3_Nuclei_4to2"};
  return b;
}
const Bits &bits(const FluidizableProcessesBitSet *) {
  static const Bits b = {"Elastic", "Decay", "Inelastic", "SoftString", "HardString"};
  return b;
}
std::string num(double x) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
std::string word(h::Rng &rng) {
  static const char *w[] = {"alpha", "a b", "x_y", "ftf", "../in put", "Oscar2013", "p.txt", "Z", "3x", "a-b", "e.g.", "#7"};
  return w[h::below(rng, 12)];
}
std::string quoted(const std::string &s) { return "\"" + s + "\""; }

template <class T, class = void>
struct Gen;  // value(), text(), wrong()
template <>
struct Gen<bool> {
  static bool value(h::Rng &rng) { return h::chance(rng, .5); }
  static std::string text(h::Rng &rng, bool b) {
    static const char *t[] = {"true", "True", "TRUE", "yes", "Yes", "on", "On"}, *f[] = {"false", "False", "FALSE", "no", "No", "off", "Off"};
    return (b ? t : f)[h::below(rng, 7)];
  }
  static std::vector<std::string> wrong() { return {"7", "maybe", "[true]", "1.5"}; }
};
template <class T>
struct Gen<T, std::enable_if_t<std::is_same_v<T, int> || std::is_same_v<T, int64_t>>> {
  static T value(h::Rng &rng) {
    if (h::chance(rng, .1)) return h::chance(rng, .5) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    return T(h::range(rng, -100000, 100000));
  }
  static std::string text(h::Rng &, T v) { return std::to_string(v); }
  static std::vector<std::string> wrong() { return {"1.5", "abc", "[1]", "99999999999999999999999", "3 4", "true"}; }
};
template <>
struct Gen<double> {
  static double value(h::Rng &rng) {
    if (h::chance(rng, .2)) return h::range(rng, -20, 20);
    return (h::chance(rng, .5) ? 1 : -1) * std::exp(h::uni(rng, -20, 20));
  }
  static std::string text(h::Rng &, double v) { return num(v); }
  static std::vector<std::string> wrong() { return {"abc", "[1.0]", "1.0 2.0", "1.5x"}; }
};
template <>
struct Gen<std::string> {
  static std::string value(h::Rng &rng) { return word(rng); }
  static std::string text(h::Rng &, const std::string &v) { return quoted(v); }
  static std::vector<std::string> wrong() { return {"[a, b]"}; }
};
template <class T, size_t N>
struct Gen<std::array<T, N>> {
  static std::array<T, N> value(h::Rng &rng) {
    std::array<T, N> a;
    for (auto &x : a) x = Gen<T>::value(rng);
    return a;
  }
  static std::string text(h::Rng &rng, const std::array<T, N> &v) {
    std::string s;
    for (auto &x : v) s += (s.empty() ? "" : ", ") + Gen<T>::text(rng, x);
    return "[" + s + "]";
  }
  static std::vector<std::string> wrong() { return {"abc", "[1]", "[1, 2, 3, 4]", "[1, 2, x]", "[]", "7"}; }
};
template <>
struct Gen<std::pair<double, double>> {
  using T = std::pair<double, double>;
  static T value(h::Rng &rng) { return {Gen<double>::value(rng), Gen<double>::value(rng)}; }
  static std::string text(h::Rng &, const T &v) { return "[" + num(v.first) + ", " + num(v.second) + "]"; }
  static std::vector<std::string> wrong() { return {"abc", "[1]", "[1, 2, 3]", "[1, x]", "7"}; }
};
template <class T>
struct Gen<std::vector<T>> {
  static std::vector<T> value(h::Rng &rng) {
    std::vector<T> a(size_t(h::range(rng, 0, 5)));
    for (auto &x : a) x = Gen<T>::value(rng);
    return a;
  }
  static std::string text(h::Rng &rng, const std::vector<T> &v) {
    std::string s;
    for (auto &x : v) s += (s.empty() ? "" : ", ") + Gen<T>::text(rng, x);
    return "[" + s + "]";
  }
  static std::vector<std::string> wrong() {
    if (std::is_same_v<T, double>) return {"abc", "[1, x]", "[1.0 2.0]", "7"};
    return {"abc", "[a, [b]]", "7"};
  }
};
template <>
struct Gen<PdgCode> {
  static PdgCode value(h::Rng &rng) {
    static const char *c[] = {"211", "-211", "111", "2212", "2112", "-2212", "321", "3122", "1114", "-3334", "1000010020", "22", "443"};
    return PdgCode(c[h::below(rng, 13)]);
  }
  static std::string text(h::Rng &, const PdgCode &p) { return p.string(); }
  static std::vector<std::string> wrong() { return {"[211]"}; }
};
template <>
struct Gen<std::map<PdgCode, int>> {
  using T = std::map<PdgCode, int>;
  static T value(h::Rng &rng) {
    T m;
    for (int n = h::range(rng, 1, 5); n-- > 0;) m[Gen<PdgCode>::value(rng)] = h::range(rng, 0, 500);
    return m;
  }
  static std::string text(h::Rng &, const T &v) {
    std::string s;
    for (auto &x : v) s += (s.empty() ? "" : ", ") + x.first.string() + ": " + std::to_string(x.second);
    return "{" + s + "}";
  }
  static std::vector<std::string> wrong() { return {"[211, 3]", "7", "{211: x}"}; }
};
template <>
struct Gen<std::map<std::string, std::string>> {
  using T = std::map<std::string, std::string>;
  static T value(h::Rng &rng) {
    T m;
    for (int n = h::range(rng, 1, 4); n-- > 0;) m["k" + std::to_string(h::below(rng, 9))] = word(rng);
    return m;
  }
  static std::string text(h::Rng &, const T &v) {
    std::string s;
    for (auto &x : v) s += (s.empty() ? "" : ", ") + x.first + ": " + quoted(x.second);
    return "{" + s + "}";
  }
  static std::vector<std::string> wrong() { return {"[a, b]", "7"}; }
};
template <class E>
struct Gen<std::set<E>> {
  using T = std::set<E>;
  static T value(h::Rng &rng) {
    T s;
    for (auto &n : names<E>())
      if (h::chance(rng, .4)) s.insert(n.second);
    return s;
  }
  static std::string text(h::Rng &, const T &v) {
    std::string s;
    for (auto &n : names<E>())
      if (v.count(n.second)) s += (s.empty() ? "" : ", ") + quoted(n.first);
    return "[" + s + "]";
  }
  static std::vector<std::string> wrong() { return {"[nonsense]", "tmn", "[tmn, TMN]", "[\"\"]"}; }
};
template <size_t N>
struct Gen<std::bitset<N>> {
  using T = std::bitset<N>;
  static T value(h::Rng &rng) { return h::chance(rng, .1) ? T().set() : T(rng()); }
  static std::string text(h::Rng &rng, const T &v) {
    const auto &b = bits(static_cast<const T *>(nullptr));
    if (b.size() != N) h::fail("enumeration", "%zu reactions, %zu documented", N, b.size());
    if (v.all() && h::chance(rng, .5)) return h::chance(rng, .5) ? "[All]" : std::string("[") + b[N / 2] + ", All]";
    std::string s;
    std::vector<size_t> order;
    for (size_t i = 0; i < N; i++)
      if (v[i]) order.push_back(i);
    std::shuffle(order.begin(), order.end(), rng);
    for (size_t i : order) s += (s.empty() ? "" : ", ") + quoted(b[i]);
    return "[" + s + "]";
  }
  static std::vector<std::string> wrong() { return {"[nonsense]", "All", "[Elastic, elastic]", "[\"\"]"}; }
};
template <class E>
struct Gen<E, std::enable_if_t<std::is_enum_v<E>>> {
  static E value(h::Rng &rng) { return names<E>()[size_t(h::below(rng, int(names<E>().size())))].second; }
  static std::string text(h::Rng &, E v) {
    for (auto &n : names<E>())
      if (n.second == v) return quoted(n.first);
    return "?";
  }
  static std::vector<std::string> wrong() {
    std::vector<std::string> w = {"nonsense", "\"\"", "[1, 2]"};
    for (auto &n : names<E>()) {
      w.push_back(quoted(std::string(n.first) + "x"));
      w.push_back(quoted(std::string(n.first).substr(1)));
    }
    return w;
  }
};
constexpr bool covered(const void *) { return true; }
constexpr bool covered(const RestFrameDensityDerivativesMode *) { return false; }

std::string path(const KeyLabels &l) { return smash::join(l, "/"); }
std::string nest(const KeyLabels &l, const std::string &v) {
  std::string s = v;
  for (size_t i = l.size(); i-- > 0;) s = "{" + l[i] + ": " + s + "}";
  return s;
}
template <class F>
void each(F f) {
  for (const auto &k : InputKeys::list) std::visit([&](auto &&v) { f(v.get()); }, k);
}
/// what an action throws: 0 nothing, 1 wrong type, 2 taken twice, 3 other
template <class F>
std::string thrown(F f) {
  try {
    f();
    return "";
  } catch (const Configuration::IncorrectTypeInAssignment &) {
    return "type";
  } catch (const Configuration::TakeSameKeyTwice &) {
    return "twice";
  } catch (const std::invalid_argument &) {
    return "invalid_argument";
  } catch (const std::logic_error &) {
    return "logic_error";
  } catch (const std::exception &e) {
    return std::string("other: ") + e.what();
  }
}
template <class T>
std::string default_of(const Key<T> &k, T &v) {
  return k.has_dependent_default() ? "dependent" : thrown([&] {
    try {
      v = k.default_value();
    } catch (std::bad_optional_access &) {
      throw std::invalid_argument("none");
    }
  });
}
template <class K>
void one_key(h::Rng &rng, const K &key) {
  using T = typename K::type;
  if constexpr (covered(static_cast<const T *>(nullptr))) {
    const KeyLabels &l = key.labels();
    const std::string name = path(l);
    constexpr bool map = std::is_same_v<T, std::map<PdgCode, int>> || std::is_same_v<T, std::map<std::string, std::string>>;
    const T v = Gen<T>::value(rng);
    const std::string yaml = nest(l, Gen<T>::text(rng, v));
    h::at("%s", yaml.c_str());
    h::evaluated(yaml);
    {  // validation knows the key
      Configuration c(yaml.c_str(), S);
      const auto want = !key.is_allowed() ? Configuration::Is::Invalid : key.is_deprecated() ? Configuration::Is::Deprecated : Configuration::Is::Valid;
      for (bool full : {true, false})
        if (c.validate(full) != want) h::fail("validate", "key %s is judged %d, expected %d", name.c_str(), int(c.validate(full)), int(want));
      if (map ? c.has_value(key) || !c.has_section(l) : !c.has_value(key) || !c.has_key(key) || c.has_section(l)) h::fail("exists", "the key %s is not found", name.c_str());
      const T a = c.read(key), b = c.read(key);
      if (!(a == v) || !(b == v)) h::fail("value", "%s is read as another value", yaml.c_str());
      if (thrown([&] {
            Configuration d(yaml.c_str(), S);
            d.read(key);
          }) != "logic_error")
        h::fail("unused", "no complaint about the unused key %s", name.c_str());
      if (!(c.take(key) == v)) h::fail("value", "%s is taken as another value", yaml.c_str());
      if (!c.is_empty()) h::fail("remains", "something remains after taking %s", name.c_str());
      if (c.has_value(key) || c.has_key(key) || c.has_section(l)) h::fail("remains", "%s is there after it was taken", name.c_str());
      if (thrown([&] { c.take(key); }) != "twice") h::fail("twice", "the key %s can be taken twice", name.c_str());
    }
    {  // defaults
      Configuration c("", S);
      T d{};
      const std::string have = default_of(key, d);
      if (have == "dependent") {
        const T w = Gen<T>::value(rng);
        if (!(c.take(key, w) == w) || !(c.read(key, w) == w)) h::fail("default", "%s does not take the default of the caller", name.c_str());
        if (thrown([&] { c.take(key); }) != "invalid_argument") h::fail("default", "%s needs a default", name.c_str());
        Configuration e(yaml.c_str(), S);
        if (!map && !(e.read(key, w) == v)) h::fail("default", "the default of the caller hides the value %s", yaml.c_str());
        if (!map && !(e.take(key, w) == v)) h::fail("default", "the default of the caller hides the value %s", yaml.c_str());
        e.clear();
      } else {
        const std::string t = thrown([&] {
          if (!(c.take(key) == d) || !(c.read(key) == d)) h::fail("default", "%s has another default", name.c_str());
        });
        if (t != have) h::fail("default", "%s without value: '%s', expected '%s'", name.c_str(), t.c_str(), have.c_str());
        if (thrown([&] { c.take(key, v); }) != "logic_error") h::fail("default", "%s takes a default of the caller", name.c_str());
        if (thrown([&] { c.read(key, v); }) != "logic_error") h::fail("default", "%s takes a default of the caller", name.c_str());
      }
      if (!c.is_empty()) h::fail("remains", "asking for the missing key %s leaves something behind", name.c_str());
    }
    // wrong types are refused, by the name of the key
    for (const auto &w : Gen<T>::wrong()) {
      const std::string bad = nest(l, w);
      h::at("%s", bad.c_str());
      Configuration c(bad.c_str(), S);
      for (int k = 0; k < 2; k++) {
        std::string r;
        try {
          if (k)
            c.take(key);
          else
            c.read(key);
        } catch (const std::exception &e) {
          r = e.what();
        }
        // arrays: the list of wrong ones contains lengths which are right for some
        if (r.empty() && !(w == "[1, 2, x]" || w == "7" || w == "[211]")) h::fail("type", "%s is accepted", bad.c_str());
        if (!r.empty() && r.find(l.back()) == std::string::npos && !std::is_same_v<T, einhard::LogLevel> && !std::is_same_v<T, std::pair<double, double>> && !map) h::fail("type", "%s: the message does not name the key: %s", bad.c_str(), r.c_str());
      }
      c.clear();
    }
    if constexpr (!map) {  // a section where a value belongs, and a value where a section belongs
      const std::string deeper = nest(l + "Nested", "1");
      Configuration c(deeper.c_str(), S);
      h::at("%s", deeper.c_str());
      if (c.validate() != Configuration::Is::Invalid || c.validate(false) != Configuration::Is::Invalid) h::fail("validate", "%s is valid", deeper.c_str());
      if (c.has_value(key) || !c.has_section(l)) h::fail("exists", "the section %s is taken for a value", name.c_str());
      if (thrown([&] { c.take(key); }) != "logic_error" || thrown([&] { c.read(key); }) != "logic_error") h::fail("type", "a section %s is taken as value", name.c_str());
      c.clear();
    }
    if constexpr (!std::is_same_v<T, einhard::LogLevel> && !std::is_same_v<T, std::pair<double, double>> && !map) {  // values that were set
      Configuration c("", S);
      if constexpr (std::is_enum_v<T>) {
        c.set_value(key, T(v));
      } else if constexpr (std::is_same_v<T, bool> || std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) {
        c.set_value(key, T(v));
      } else {
        c.merge_yaml(yaml);
      }
      if (!(c.read(key) == v)) h::fail("set", "%s is read back as another value after it was set", yaml.c_str());
      const std::string text = c.to_string();
      Configuration d(text.c_str(), S);
      if (!(d.read(key) == v)) h::fail("text", "%s is read back as another value from its text", yaml.c_str());
      c.clear(), d.clear();
    }
  }
}
// ---------------------------------------------------------------- a tree of its own
struct Tree {
  std::string leaf;
  std::map<std::string, std::unique_ptr<Tree>> sub;
  bool is_leaf = false;
  Tree *find(const KeyLabels &l) {
    Tree *t = this;
    for (const auto &x : l) {
      if (t->is_leaf) return nullptr;
      auto i = t->sub.find(x);
      if (i == t->sub.end()) return nullptr;
      t = i->second.get();
    }
    return t;
  }
  Tree &make(const KeyLabels &l) {
    Tree *t = this;
    for (const auto &x : l) {
      auto &u = t->sub[x];
      if (!u) u = std::make_unique<Tree>();
      t = u.get();
    }
    return *t;
  }
  std::string yaml(int indent = 0) const {
    if (is_leaf) return leaf;
    std::string s = "\n";
    for (auto &x : sub) s += std::string(size_t(indent), ' ') + x.first + ": " + x.second->yaml(indent + 2) + (x.second->is_leaf ? "\n" : "");
    return s;
  }
  std::string flow() const {
    if (is_leaf) return leaf;
    std::string s;
    for (auto &x : sub) s += (s.empty() ? "" : ", ") + x.first + ": " + x.second->flow();
    return "{" + s + "}";
  }
  bool prune() {  // remove empty sections
    if (is_leaf) return false;
    for (auto i = sub.begin(); i != sub.end();) i = i->second->prune() ? sub.erase(i) : std::next(i);
    return sub.empty();
  }
  void leaves(const KeyLabels &at, std::vector<KeyLabels> &out) const {
    if (is_leaf) {
      out.push_back(at);
      return;
    }
    for (auto &x : sub) x.second->leaves(at + x.first, out);
  }
  void sections(const KeyLabels &at, std::vector<KeyLabels> &out) const {
    if (is_leaf) return;
    if (!at.empty()) out.push_back(at);
    for (auto &x : sub) x.second->sections(at + x.first, out);
  }
  std::unique_ptr<Tree> copy() const {
    auto t = std::make_unique<Tree>();
    t->leaf = leaf, t->is_leaf = is_leaf;
    for (auto &x : sub) t->sub[x.first] = x.second->copy();
    return t;
  }
  void merge(const Tree &o) {
    if (o.is_leaf) {
      leaf = o.leaf, is_leaf = true;
      sub.clear();
      return;
    }
    for (auto &x : o.sub) {
      auto &u = sub[x.first];
      if (!u) u = std::make_unique<Tree>();
      u->merge(*x.second);
    }
  }
};
/// the tree a YAML text stands for
std::unique_ptr<Tree> parse(const YAML::Node &n) {
  auto t = std::make_unique<Tree>();
  if (n.IsMap()) {
    for (auto x : n) t->sub[x.first.as<std::string>()] = parse(x.second);
  } else {
    t->is_leaf = true;
    YAML::Emitter e;
    e << YAML::Flow << n;
    t->leaf = e.c_str();
  }
  return t;
}
std::string canonical(const std::string &yaml) {
  const auto n = YAML::Load(yaml);
  if (n.IsNull()) return "{}";
  return parse(n)->flow();
}
template <class K>
std::string random_text(h::Rng &rng, const K &key) {
  using T = typename K::type;
  if constexpr (covered(static_cast<const T *>(nullptr)))
    return Gen<T>::text(rng, Gen<T>::value(rng));
  else
    return "On";
}
struct KeyInfo {
  KeyLabels labels;
  std::function<std::string(h::Rng &)> text;
  std::function<std::string(Configuration &)> take;  // empty if as expected
  bool map, allowed, deprecated;
};
std::vector<KeyInfo> &all_keys() {
  static std::vector<KeyInfo> v;
  if (v.empty())
    each([](const auto &key) {
      using T = typename std::decay_t<decltype(key)>::type;
      constexpr bool map = std::is_same_v<T, std::map<PdgCode, int>> || std::is_same_v<T, std::map<std::string, std::string>>;
      if constexpr (covered(static_cast<const T *>(nullptr)))
        v.push_back({key.labels(), [&key](h::Rng &r) { return random_text(r, key); },
                     [&key](Configuration &c) { return thrown([&] { c.take(key); }); }, map, key.is_allowed(), key.is_deprecated()});
    });
  return v;
}
std::unique_ptr<Tree> random_tree(h::Rng &rng, int n, bool with_maps) {
  auto t = std::make_unique<Tree>();
  for (int i = 0; i < n; i++) {
    const auto &k = h::pick(rng, all_keys());
    if (!k.allowed || (k.map && !with_maps)) continue;
    Tree &x = t->make(k.labels);
    if (x.is_leaf || !x.sub.empty()) continue;
    const std::string s = k.text(rng);
    if (k.map) {
      const auto sub = parse(YAML::Load(s));
      x.merge(*sub);
    } else {
      x.leaf = s, x.is_leaf = true;
    }
  }
  t->prune();
  return t;
}
bool same(const Configuration &c, const Tree &t) { return canonical(c.to_string()) == canonical(t.flow()); }
}  // namespace

SECTION(keys) {
  std::set<std::string> seen;
  int n = 0;
  each([&](const auto &key) {
    if (!seen.insert(path(key.labels())).second) h::fail("unique", "two keys %s", path(key.labels()).c_str());
    if (key.introduced_in().empty()) h::fail("version", "no version for %s", path(key.labels()).c_str());
    if (!key.is_allowed() && !key.is_deprecated()) h::fail("version", "%s was removed without being deprecated", path(key.labels()).c_str());
    if (!key.has_same_labels(key.labels()) || key.has_same_labels(key.labels() + "x")) h::fail("labels", "comparison of labels of %s", path(key.labels()).c_str());
    n++;
  });
  if (n < 250) h::fail("keys", "only %d keys", n);
  for (int k = 0; k < h::tier(2, 8); k++) each([&](const auto &key) { one_key(rng, key); });
}
SECTION(enumerations) {
  auto one = [&](auto e) {
    using E = decltype(e);
    for (auto &n : names<E>())
      if (smash::to_string(n.second) != n.first) h::fail("enumeration", "'%s' is written as '%s'", n.first, smash::to_string(n.second).c_str());
    h::evaluated(names<E>().front().first);
  };
  one(CalculationFrame{}), one(FermiMotion{}), one(DensityType{}), one(ExpansionMode{}), one(DerivativesMode{}), one(FieldDerivativesMode{}), one(SmearingMode{}), one(TimeStepMode{});
  one(BoxInitialCondition{}), one(SphereInitialCondition{}), one(NNbarTreatment{}), one(Sampling{}), one(ThermalizationAlgorithm{}), one(CollisionCriterion{}), one(SpinInteractionType{});
  one(TotalCrossSectionStrategy{}), one(PseudoResonance{}), one(FluidizationType{}), one(OutputOnlyFinal{}), one(ThermodynamicQuantity{});
  // the lists of reactions
  for (int k = 0; k < 300; k++) {
    auto list = [&](auto v) {
      using B = decltype(v);
      v = B(rng());
      const auto s = smash::to_string(v);
      std::set<std::string> want, got(s.begin(), s.end());
      for (size_t i = 0; i < v.size(); i++)
        if (v[i]) want.insert(bits(static_cast<const B *>(nullptr))[i]);
      if (v.all() && got == std::set<std::string>{"All"}) return;
      if (want != got || got.size() != s.size()) h::fail("enumeration", "a list of %zu reactions is written as %zu", want.size(), s.size());
    };
    list(ReactionsBitSet{}), list(MultiParticleReactionsBitSet{}), list(FluidizableProcessesBitSet{});
  }
}
SECTION(model) {
  for (int k = 0; k < h::tier(500, 20); k++) {
    auto t = random_tree(rng, h::range(rng, 0, 25), true);
    const std::string yaml = h::chance(rng, .5) ? t->yaml() : t->flow();
    h::at("%s", yaml.c_str());
    h::evaluated(yaml);
    Configuration c(yaml.c_str(), S);
    std::string log;
    std::set<std::string> taken;
    for (int step = 0; step < 12; step++) {
      h::at("%.700s after %.300s", yaml.c_str(), log.c_str());
      std::vector<KeyLabels> secs;
      t->sections({}, secs);
      switch (h::below(rng, 8)) {
        case 0:
        case 1: {  // take
          const auto &key = h::pick(rng, all_keys());
          Tree *x = t->find(key.labels);
          if (key.map && x && x->is_leaf) break;
          log += " take " + path(key.labels);
          const std::string r = key.take(c);
          if (x && (x->is_leaf || key.map)) {
            if (!r.empty()) h::fail("take", "%s: %s", path(key.labels).c_str(), r.c_str());
            auto up = key.labels;
            up.pop_back();
            t->find(up)->sub.erase(key.labels.back());
            t->prune();
            taken.insert(path(key.labels));
          } else if (taken.count(path(key.labels))) {
            if (r != "twice") h::fail("twice", "%s can be taken twice: '%s'", path(key.labels).c_str(), r.c_str());
          }
          break;
        }
        case 2: {  // sub-configuration
          if (secs.empty()) break;
          const auto l = h::pick(rng, secs);
          const bool complete = h::chance(rng, .5);
          log += (complete ? " complete " : " extract ") + path(l);
          const auto part = t->find(l)->copy();
          Configuration s = complete ? c.extract_complete_sub_configuration(l) : c.extract_sub_configuration(l);
          Tree want;
          if (complete)
            want.make(l).merge(*part);
          else
            want.merge(*part);
          if (!same(s, want)) h::fail("extract", "section %s is extracted as %.200s, expected %.200s", path(l).c_str(), s.to_string().c_str(), want.flow().c_str());
          s.clear();
          auto up = l;
          up.pop_back();
          t->find(up)->sub.erase(l.back());
          t->prune();
          // a missing section
          if (thrown([&] { c.extract_sub_configuration(l); }).empty()) h::fail("extract", "section %s is extracted twice", path(l).c_str());
          Configuration none = c.extract_sub_configuration(l, Configuration::GetEmpty::Yes);
          if (!none.is_empty()) h::fail("extract", "a missing section %s is not empty", path(l).c_str());
          break;
        }
        case 3: {  // merge
          const auto o = random_tree(rng, h::range(rng, 1, 8), true);
          if (o->sub.empty()) break;
          // a value never meets a section
          std::vector<KeyLabels> lv, sc;
          o->leaves({}, lv), o->sections({}, sc);
          bool clash = false;
          for (auto &l : lv)
            if (Tree *x = t->find(l)) clash |= !x->is_leaf;
          for (auto &l : sc)
            if (Tree *x = t->find(l)) clash |= x->is_leaf;
          if (clash) break;
          log += " merge " + o->flow();
          c.merge_yaml(o->flow());
          t->merge(*o);
          break;
        }
        case 4: {  // keep one entry of a section
          if (secs.empty()) break;
          const auto l = h::pick(rng, secs);
          Tree *x = t->find(l);
          auto i = x->sub.begin();
          std::advance(i, h::below(rng, int(x->sub.size())));
          const std::string keep = i->first;
          log += " keep " + path(l) + "/" + keep;
          if (thrown([&] { c.remove_all_entries_in_section_but_one("no such entry", l); }) != "invalid_argument") h::fail("keep", "a missing entry is kept");
          c.remove_all_entries_in_section_but_one(keep, l);
          for (auto j = x->sub.begin(); j != x->sub.end();) j = j->first == keep ? std::next(j) : x->sub.erase(j);
          break;
        }
        case 5: {  // enclose
          if (t->sub.empty() || !h::chance(rng, .2)) break;
          log += " enclose";
          c.enclose_into_section({"Outer", "Inner"});
          auto n = std::make_unique<Tree>();
          n->make({"Outer", "Inner"}).merge(*t);
          t = std::move(n);
          Configuration s = c.extract_sub_configuration({"Outer", "Inner"});
          if (!c.is_empty()) h::fail("enclose", "something remains outside of the enclosing section");
          c = std::move(s);
          taken.clear();
          auto inner = t->find({"Outer", "Inner"})->copy();
          t = std::move(inner);
          break;
        }
        case 6: {  // move
          log += " move";
          Configuration d(std::move(c));
          if (!c.is_empty()) h::fail("move", "a configuration that was moved away is not empty");
          c = std::move(d);
          break;
        }
        default: {  // questions do not change anything
          for (int q = 0; q < 5; q++) {
            const auto &key = h::pick(rng, all_keys());
            Tree *x = t->find(key.labels);
            if (c.has_section(key.labels) != (x && !x->is_leaf)) h::fail("exists", "has_section(%s) is wrong", path(key.labels).c_str());
          }
          std::vector<std::string> up = c.list_upmost_nodes(), want;
          for (auto &x : t->sub) want.push_back(x.first);
          std::sort(up.begin(), up.end());
          if (up != want) h::fail("list", "%zu nodes at the top, expected %zu", up.size(), want.size());
        }
      }
      if (!same(c, *t)) {
        h::fail("tree", "the configuration is %.300s, expected %.300s", canonical(c.to_string()).c_str(), canonical(t->flow()).c_str());
        break;
      }
      if (c.is_empty() != t->sub.empty()) h::fail("tree", "is_empty() is wrong");
    }
    const bool left = !c.is_empty();
    const std::string r = thrown([&] { Configuration d(std::move(c)); });
    if (r != (left ? "logic_error" : "")) h::fail("unused", "destroyed %s unused keys: '%s'", left ? "with" : "without", r.c_str());
    c.clear();
  }
}
SECTION(validation) {
  // the marks of a key list of its own
  for (int k = 0; k < h::tier(2000); k++) {
    auto t = random_tree(rng, h::range(rng, 1, 20), true);
    bool dep = false;
    for (const auto &key : all_keys()) {
      Tree *x = t->find(key.labels);
      if (x && (x->is_leaf || key.map) && key.deprecated) dep = true;
    }
    const std::string yaml = t->flow();
    h::at("%s", yaml.c_str());
    h::evaluated(yaml);
    {
      Configuration c(yaml.c_str(), S);
      const auto want = dep ? Configuration::Is::Deprecated : Configuration::Is::Valid;
      if (c.validate(true) != want || c.validate(false) != want) h::fail("validate", "a configuration of known keys is judged %d, expected %d", int(c.validate()), int(want));
      c.clear();
    }
    // one unknown, misplaced, removed, shortened or extended key
    std::vector<KeyLabels> lv;
    t->leaves({}, lv);
    if (lv.empty()) continue;
    KeyLabels l = h::pick(rng, lv);
    bool inside_map = false;
    for (const auto &key : all_keys())
      if (key.map && l.size() > key.labels.size() && std::equal(key.labels.begin(), key.labels.end(), l.begin())) inside_map = true;
    if (inside_map) continue;
    auto u = t->copy();
    KeyLabels up(l.begin(), l.end() - 1);
    std::string value = "1";
    switch (h::below(rng, 7)) {
      case 0: u->find(up)->sub[l.back() + "s"] = parse(YAML::Load("1")); break;
      case 1: u->find(up)->sub[l.back().substr(1) + "_"] = parse(YAML::Load("[1, 2]")); break;
      case 2: {  // other case
        std::string s = l.back();
        s[0] = char(islower(s[0]) ? toupper(s[0]) : tolower(s[0]));
        if (s == l.back() || u->find(up + s)) continue;
        u->find(up)->sub[s] = parse(YAML::Load("1"));
        break;
      }
      case 3: u->make({"Unknown_Section", l.back()}).is_leaf = true; u->make({"Unknown_Section", l.back()}).leaf = "1"; break;
      case 4: {  // a value instead of a section
        if (up.empty()) continue;
        KeyLabels cut(l.begin(), l.begin() + h::range(rng, 1, int(l.size()) - 1));
        Tree *x = u->find(cut);
        x->sub.clear();
        x->is_leaf = true;
        x->leaf = h::chance(rng, .5) ? "3" : "[1, 2, 3]";
        break;
      }
      case 5: {  // a section instead of a value
        Tree *x = u->find(l);
        x->is_leaf = false;
        x->sub["Value"] = parse(YAML::Load("1"));
        break;
      }
      default: {  // a key that was removed
        std::vector<const KeyInfo *> old;
        for (const auto &key : all_keys())
          if (!key.allowed) old.push_back(&key);
        if (old.empty()) continue;
        const auto &o = *h::pick(rng, old);
        if (u->find(o.labels)) continue;
        bool blocked = false;
        for (size_t i = 1; i < o.labels.size(); i++)
          if (Tree *x = u->find(KeyLabels(o.labels.begin(), o.labels.begin() + long(i)))) blocked |= x->is_leaf;
        if (blocked) continue;
        Tree &x = u->make(o.labels);
        x.is_leaf = true, x.leaf = "1";
      }
    }
    const std::string bad = u->flow();
    h::at("%s", bad.c_str());
    h::evaluated(bad);
    std::vector<KeyLabels> now;
    u->leaves({}, now);
    bool wrong = false;
    for (const auto &x : now) {
      bool known = false;
      for (const auto &key : all_keys())
        known |= key.allowed && (key.labels == x || (key.map && x.size() > key.labels.size() && std::equal(key.labels.begin(), key.labels.end(), x.begin())));
      wrong |= !known;
    }
    if (!wrong) continue;
    Configuration c(bad.c_str(), S);
    if (c.validate(true) != Configuration::Is::Invalid) h::fail("validate", "a configuration with one wrong key is judged %d", int(c.validate(true)));
    if (c.validate(false) == Configuration::Is::Valid) h::fail("validate", "a configuration with one wrong key is valid, when asked quickly");
    c.clear();
  }
}
SECTION(files) {
  char dir[] = "/tmp/verif_config_XXXXXX";
  if (!mkdtemp(dir)) return;
  const std::string d = dir, file = d + "/config.yaml";
  auto write = [&](const std::string &s, const std::string &f) {
    std::ofstream o(f, std::ios::binary);
    o << s;
  };
  auto load = [&](std::string *out = nullptr) -> std::string {
    try {
      Configuration c{std::filesystem::path(d)};
      if (out) *out = c.to_string();
      c.validate(true);
      c.validate(false);
      c.clear();
      return "";
    } catch (const Configuration::FileDoesNotExist &) {
      return "missing";
    } catch (const Configuration::ParseError &) {
      return "parse";
    } catch (const std::exception &e) {
      return e.what();
    }
  };
  if (load() != "missing") h::fail("file", "a missing file is not noticed");
  for (int k = 0; k < h::tier(1500); k++) {
    auto t = random_tree(rng, h::range(rng, 1, 12), true);
    if (t->sub.empty()) continue;
    std::string yaml = t->yaml();
    h::at("%s", yaml.c_str());
    h::evaluated(yaml);
    std::string text;
    write(yaml, file);
    if (const auto r = load(&text); !r.empty()) h::fail("file", "a valid file is refused: %s", r.c_str());
    if (canonical(text) != canonical(yaml)) h::fail("file", "a file is read as something else");
    // the line ends of another system
    std::string crlf;
    for (char ch : yaml) crlf += ch == '\n' ? "\r\n" : std::string(1, ch);
    write(crlf, file);
    if (load().empty()) h::fail("file", "line ends CR LF are accepted");
    // damaged text: any answer, no crash
    for (int m = h::range(rng, 1, 6); m-- > 0;) {
      if (yaml.empty()) break;
      const size_t at = size_t(h::below(rng, int(yaml.size())));
      switch (h::below(rng, 5)) {
        case 0: yaml.erase(at, size_t(h::range(rng, 1, 9))); break;
        case 1: yaml.insert(at, std::string(1, char(rng()))); break;
        case 2: yaml[at] = "{}[]:,-#&*!|>'\"%@` \n\t~"[h::below(rng, 22)]; break;
        case 3: yaml.insert(at, yaml.substr(size_t(h::below(rng, int(yaml.size()))), size_t(h::range(rng, 1, 30)))); break;
        default: yaml.resize(at + 1);
      }
    }
    h::at("damaged %s", yaml.c_str());
    write(yaml, file);
    load();
  }
  const std::vector<std::string> odd = {"Modi: 3", "Modi: {Sphere: 3}", "Modi: {Box: [1, 2]}", "Logging: 3", "Output: {Rivet: 1}", "[1, 2, 3]", "3", "", "\"\": 1", "~", "? {a: 1} : 2", "{1: {2: {3: 4}}}", "Modi: ~", "Modi: {}", "Modi: {Box: {Init_Multiplicities: 3}}", "Modi: {Collider: 1}", "Modi: {Collider: {Projectile: 1}}", "{[1, 2]: 3}", "Modi: {Sphere: {Init_Multiplicities: {211: {1: 2}}}}"};
  for (const auto &s : odd) {
    h::at("odd %s", s.c_str());
    h::evaluated(s);
    write(s, file);
    load();
    try {
      Configuration c(s.c_str(), S);
      each([&](const auto &key) {
        if constexpr (!covered(static_cast<const typename std::decay_t<decltype(key)>::type *>(nullptr))) return;
        else {
        try {
          c.has_key(key), c.has_value(key), c.has_section(key.labels());
        } catch (const std::exception &) {
        }
        try {
          c.take(key);
        } catch (const std::exception &) {
        }
        }
      });
      c.clear();
    } catch (const std::exception &) {
    }
  }
  std::filesystem::remove_all(d);
}
/// what the program does with its configuration file, the options -c, -p and -d and the levels of logging
SECTION(setup) {
  char dir[] = "/tmp/verif_config_XXXXXX";
  if (!mkdtemp(dir)) return;
  const std::string d = dir, file = d + "/any.yaml", pfile = d + "/p", dfile = d + "/d";
  auto write = [&](const std::string &s, const std::string &f) {
    std::ofstream o(f, std::ios::binary);
    o << s;
  };
  const auto standard = load_particles_and_decaymodes({}, {});
  auto random_table = [&] {
    std::string s;
    for (int n = h::range(rng, 0, 200); n > 0; n--) s += h::chance(rng, .2) ? "\n" : std::string(1, "abc #\t:π"[h::below(rng, 8)]);
    for (char &c : s)
      if (c < 0) c = 'x';
    return s;
  };
  for (int k = 0; k < h::tier(400); k++) {
    auto t = random_tree(rng, h::range(rng, 1, 12), true);
    t->sub.erase("particles"), t->sub.erase("decaymodes"), t->sub.erase("Logging");
    auto leaf = [&](Tree &to, const KeyLabels &l, const std::string &v) {
      Tree &x = to.make(l);
      x.sub.clear();
      x.is_leaf = true, x.leaf = v;
    };
    // levels of logging
    static const char *level[] = {"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL", "OFF"};
    std::map<std::string, int> levels;
    auto areas = [&](Tree &to) {
      if (h::chance(rng, .6)) {
        levels["default"] = h::below(rng, 8);
        leaf(to, {"Logging", "default"}, level[levels["default"]]);
      }
      std::apply([&](auto... area) {
        ((h::chance(rng, .1) ? (levels[decltype(area)::textual()] = h::below(rng, 8),
                                leaf(to, {"Logging", decltype(area)::textual()}, level[levels[decltype(area)::textual()]]))
                             : void()), ...);
      }, LogArea::AreaTuple());
    };
    areas(*t);
    std::string own[2];
    for (int i = 0; i < 2; i++)
      if (h::chance(rng, .3)) own[i] = "own" + std::to_string(k), leaf(*t, {i ? "decaymodes" : "particles"}, own[i]);
    if (t->sub.empty()) leaf(*t, {"General", "Nevents"}, "3");
    write(t->yaml(), file);
    std::string all = t->yaml();
    // options -c
    std::vector<std::string> extra;
    auto want = t->copy();
    for (int n = h::range(rng, 0, 3); n > 0; n--) {
      auto e = random_tree(rng, h::range(rng, 1, 3), false);
      e->sub.erase("particles"), e->sub.erase("decaymodes"), e->sub.erase("Logging");
      areas(*e);
      bool clash = e->sub.empty();  // a value where a section is or the other way round
      std::vector<KeyLabels> lv;
      e->leaves({}, lv);
      for (const auto &l : lv) {
        for (size_t i = 1; i <= l.size(); i++)
          if (Tree *x = want->find(KeyLabels(l.begin(), l.begin() + long(i)))) clash |= x->is_leaf != (i == l.size());
      }
      if (clash) {
        for (auto &x : levels) {
          Tree *w = want->find({"Logging", x.first});
          x.second = w ? int(std::find(level, level + 8, w->leaf) - level) : -1;
        }
        continue;
      }
      want->merge(*e);
      extra.push_back(e->flow());
      all += extra.back();
    }
    for (auto i = levels.begin(); i != levels.end();) i = i->second < 0 ? levels.erase(i) : std::next(i);
    // options -p and -d
    std::string table[2];
    bool given[2], missing = false, foreign = false;
    for (int i = 0; i < 2; i++) {
      given[i] = h::chance(rng, .4);
      const std::string f = i ? dfile : pfile;
      std::filesystem::remove(f);
      if (!given[i]) continue;
      if (h::chance(rng, .1)) {
        missing = true;
        continue;
      }
      table[i] = random_table();
      if (h::chance(rng, .1)) table[i] += "\r\n", foreign = true;
      write(table[i], f);
    }
    const bool wrong = h::chance(rng, .2);
    if (wrong) {
      auto u = want->copy();
      std::vector<KeyLabels> lv;
      t->leaves({}, lv);
      const bool by_option = h::chance(rng, .3);
      const std::string name = h::chance(rng, .5) ? "Unknown" : "generaL";
      if (by_option)
        extra.push_back(name + ": {Value: 1}");
      else
        leaf(*t, {name, "Value"}, "1"), write(t->yaml(), file);
    }
    h::at("%s\nextra %s\n%d %d", t->yaml().c_str(), all.c_str(), given[0], given[1]);
    h::evaluated(all);
    std::string why;
    try {
      Configuration c = setup_config_and_logging(file, given[0] ? pfile : "", given[1] ? dfile : "", extra);
      for (int i = 0; i < 2; i++) {
        const auto &key = i ? InputKeys::decaymodes : InputKeys::particles;
        const std::string expect = given[i] ? table[i] : !own[i].empty() ? own[i] : i ? standard.second : standard.first;
        if (c.take(key) != expect) h::fail("setup/table", "the wrong %s are used, file %d, in the configuration '%s'", i ? "decay modes" : "particles", given[i], own[i].c_str());
      }
      want->sub.erase("particles"), want->sub.erase("decaymodes"), want->sub.erase("Logging");
      if (!same(c, *want)) h::fail("setup/value", "the configuration is %.300s, expected %.300s", c.to_string().c_str(), want->flow().c_str());
      const int base = levels.count("default") ? levels["default"] : int(InputKeys::log_default.default_value());
      std::apply([&](auto... area) {
        ((levels.emplace(decltype(area)::textual(), base),
          int(logg[decltype(area)::id].getVerbosity()) != levels[decltype(area)::textual()]
              ? h::fail("setup/logging", "%s logs at level %d, expected %s", decltype(area)::textual(), int(logg[decltype(area)::id].getVerbosity()), level[levels[decltype(area)::textual()]])
              : void()), ...);
      }, LogArea::AreaTuple());
      c.clear();
    } catch (const std::exception &e) {
      why = e.what();
      if (why.empty()) why = "?";
    }
    const bool bad = wrong || missing || foreign;
    if (bad && why.empty()) h::fail("setup/refuse", "accepted: unknown key %d, missing file %d, foreign line ends %d", wrong, missing, foreign);
    if (!bad && !why.empty()) h::fail("setup/accept", "refused: %s", why.c_str());
    h::count(bad ? "setups refused" : "setups accepted");
    set_default_loglevel(einhard::OFF);
    create_all_loggers(Configuration{""});
  }
  std::filesystem::remove_all(d);
}
HARNESS_MAIN
