// R27: initial conditions for hydrodynamics: particles that leave at a hypersurface or in dense regions
#include <cmath>
#include <filesystem>
#include <map>
#include <optional>
#include <vector>

#include "smash/collidermodus.h"
#include "smash/configuration.h"
#include "smash/dynamicfluidfinder.h"
#include "smash/energymomentumtensor.h"
#include "smash/fluidizationaction.h"
#include "smash/hypersurfacecrossingfinder.h"
#include "smash/icoutput.h"
#include "smash/outputparameters.h"
#include "smash/particles.h"

#include "h.h"
#include "params.h"
#include "smashenv.h"
using namespace smash;
namespace {
ThreeVector random_vec(h::Rng &rng, double s) { return {h::uni(rng, -s, s), h::uni(rng, -s, s), h::uni(rng, -s, s)}; }
const std::vector<const char *> species{"211", "-211", "2212", "2112", "3122", "-2212", "321", "2224", "22", "113"};
HistoryData history(int collisions, ProcessType type = ProcessType::None) {
  HistoryData x;
  x.collisions_per_particle = collisions;
  x.process_type = type;
  return x;
}
/// time at which a straight line crosses the hyperbola of proper time tau for t > |z|
std::optional<double> crossing(const FourVector &x, double vz, double tau) {
  // (t0+s)² - (z0+vz s)² = τ²
  const double t = x.x0(), z = x.x3(), a = 1 - vz * vz, b = t - vz * z, c = t * t - z * z - tau * tau;
  const double d = b * b - a * c;
  if (d < 0) return {};
  // the later solution is the one in the future light cone
  const double s = (-b + std::sqrt(d)) / a;
  return t + s;
}
FluidizableProcessesBitSet bits(h::Rng &rng) {
  FluidizableProcessesBitSet b;
  for (size_t i = 0; i < b.size(); i++) b.set(i, h::chance(rng, .5));
  return b;
}
}  // namespace

SECTION(hypersurface) {
  h::load_mid(false);
  const int N = h::tier(800);
  for (int n = 0; n < N; n++) {
    const double tau = h::uni(rng, .3, 8.), ycut = h::chance(rng, .5) ? 0 : h::uni(rng, .2, 2.), pcut = h::chance(rng, .5) ? 0 : h::uni(rng, .2, 2.);
    const HyperSurfaceCrossActionsFinder finder(tau, ycut, pcut);
    Particles parts;
    const double t0 = h::chance(rng, .2) ? -h::uni(rng, 0., .9) * tau : h::uni(rng, 0., 3.);
    const int many = h::range(rng, 1, 10);
    std::vector<FourVector> beam;
    if (h::chance(rng, .5))
      for (int k = 0; k < many; k++) {
        const double v = h::uni(rng, -3., 3.);
        beam.push_back(FourVector(std::sqrt(.88 + v * v), ThreeVector(0, 0, v)));
      }
    for (int k = 0; k < many; k++) {
      ParticleData d(ParticleType::find(PdgCode(std::string(h::pick(rng, species)))));
      ThreeVector p = random_vec(rng, h::chance(rng, .5) ? 1. : .2);
      p.set_x3(h::uni(rng, -4., 4.));
      d.set_4momentum(d.pole_mass(), p);
      d.set_4position(FourVector(t0, random_vec(rng, 4.)));
      d.set_formation_time(t0);
      d.set_history(history(h::chance(rng, .4) ? 0 : 2));
      if (h::chance(rng, .1)) d.fluidize();
      parts.insert(d);
    }
    h::at("tau=%.17g y=%.6g pT=%.6g from t=%.17g, %d particles, beam %zu", tau, ycut, pcut, t0, many, beam.size());
    std::map<int, int> found;
    std::map<int, bool> vague;
    double t = t0;
    std::map<int, double> first_tau;
    const int steps = h::range(rng, 10, 40);
    for (int s = 0; s < steps; s++) {
      const double dt = h::uni(rng, .02, .8);
      const ParticleList list = parts.copy_to_vector();
      const auto actions = finder.find_actions_in_cell(list, dt, 1., beam);
      std::map<int, double> when;
      for (const auto &a : actions) {
        if (a->incoming_particles().size() != 1) {
          h::fail("one", "%zu particles leave together", a->incoming_particles().size());
          continue;
        }
        const int id = a->incoming_particles()[0].id();
        if (when.count(id)) h::fail("twice", "particle leaves twice in one step");
        when[id] = a->time_of_execution();
      }
      for (const auto &d : list) {
        const bool frozen = size_t(d.id()) < beam.size() && d.get_history().collisions_per_particle == 0;
        const FourVector mom = d.momentum();
        const double vz = frozen ? beam[size_t(d.id())].x3() / beam[size_t(d.id())].x0() : mom.x3() / mom.x0();
        const auto c = crossing(d.position(), vz, tau);
        const double end = t + dt;
        bool due = c && *c > t && *c <= end && *c >= 0;
        if (c && (std::abs(*c - t) < 1e-7 || std::abs(*c - end) < 1e-7)) vague[d.id()] = true;
        const double y = .5 * std::log((mom.x0() + mom.x3()) / (mom.x0() - mom.x3())), pt = std::hypot(mom.x1(), mom.x2());
        if (ycut > 0 && std::abs(std::abs(y) - ycut) < 1e-9) vague[d.id()] = true;
        const bool cut = (ycut > 0 && std::abs(y) > ycut) || (pcut > 0 && pt > pcut);
        if (due && cut) h::count("outside of the cuts");
        if (due && d.is_core()) h::count("already in the fluid");
        due = due && !cut && !d.is_core();
        if (vague[d.id()]) continue;
        h::count(due ? "crossings" : "no crossing");
        if (frozen && due) h::count("crossings with the beam velocity");
        if (due != (when.count(d.id()) > 0))
          h::fail("crossing", "%s %s found, crosses at %.9g in the step from %.9g to %.9g (z=%.6g vz=%.6g)", d.type().name().c_str(), due ? "not" : "wrongly", c ? *c : -1., t, end,
                  d.position().x3(), vz);
        else if (due) {
          found[d.id()]++;
          if (std::abs(when[d.id()] - *c) > 1e-6 * (1 + *c)) h::fail("time", "leaves at %.9g, crosses at %.9g", when[d.id()], *c);
        }
      }
      // move on
      t += dt;
      for (auto &d : parts) {
        const bool frozen = size_t(d.id()) < beam.size() && d.get_history().collisions_per_particle == 0;
        const ThreeVector v = frozen ? beam[size_t(d.id())].threevec() * (1 / beam[size_t(d.id())].x0()) : d.momentum().threevec() * (1 / d.momentum().x0());
        d.set_4position(FourVector(t, d.position().threevec() + v * dt));
      }
      h::count("steps");
    }
    for (const auto &f : found)
      if (f.second > 1 && !vague[f.first]) h::fail("again", "a particle leaves %d times", f.second);
    h::evaluated(h::current);
    if (!finder.find_actions_with_neighbors({}, {}, .1, {}).empty() || !finder.find_final_actions(parts).empty()) h::fail("others", "actions of the hypersurface with neighbours");
  }
}

SECTION(action) {
  h::load_mid(false);
  for (int n = 0; n < h::tier(200); n++) {
    Particles parts;
    const int many = h::range(rng, 1, 10);
    for (int k = 0; k < many; k++) {
      ParticleData d(ParticleType::find(PdgCode(std::string(h::pick(rng, species)))));
      d.set_4momentum(d.pole_mass(), random_vec(rng, 1.));
      d.set_4position(FourVector(1., random_vec(rng, 4.)));
      d.set_formation_time(0);
      d.set_history(history(1));
      parts.insert(d);
    }
    const ParticleList list = parts.copy_to_vector();
    const auto &which = list[size_t(h::below(rng, many))];
    FluidizationAction::remove_particle_ = n % 2 == 0;
    h::at("%s, %d particles", n % 2 ? "kept" : "removed", many);
    FluidizationAction a(which, which, .5);
    if (a.get_type() != (n % 2 ? ProcessType::FluidizationNoRemoval : ProcessType::Fluidization)) h::fail("type", "process type %d", int(a.get_type()));
    if (std::abs(a.time_of_execution() - 1.5) > 1e-12) h::fail("time", "executed at %.9g", a.time_of_execution());
    a.generate_final_state();
    a.check_conservation(1);
    a.perform(&parts, 1);
    if (n % 2 == 0) {
      if (int(parts.size()) != many - 1) h::fail("removed", "%zu particles left of %d", parts.size(), many);
      for (const auto &d : parts)
        if (d.id() == which.id()) h::fail("removed", "the particle is still there");
    } else {
      int core = 0;
      for (const auto &d : parts) {
        core += d.is_core();
        if (d.is_core() && (d.momentum().x0() != which.momentum().x0() || d.type() != which.type() || d.position() != which.position())) h::fail("kept", "another particle is in the fluid");
      }
      if (int(parts.size()) != many || core != 1) h::fail("kept", "%zu particles of %d, %d in the fluid", parts.size(), many, core);
    }
    h::evaluated(h::current);
  }
}

SECTION(dynamic) {
  h::load_mid(false);
  const int N = h::tier(1500);
  const std::vector<ProcessType> types{ProcessType::None, ProcessType::Elastic, ProcessType::TwoToOne, ProcessType::TwoToTwo, ProcessType::TwoToThree, ProcessType::TwoToFour, ProcessType::TwoToFive,
                                       ProcessType::Decay, ProcessType::Wall, ProcessType::Thermalization, ProcessType::MultiParticleThreeMesonsToOne, ProcessType::MultiParticleThreeToTwo,
                                       ProcessType::MultiParticleFourToTwo, ProcessType::MultiParticleFiveToTwo, ProcessType::StringSoftDoubleDiffractive, ProcessType::StringSoftSingleDiffractiveAX,
                                       ProcessType::StringSoftSingleDiffractiveXB, ProcessType::StringSoftAnnihilation, ProcessType::StringSoftNonDiffractive, ProcessType::StringHard,
                                       ProcessType::FailedString, ProcessType::Freeforall, ProcessType::Bremsstrahlung};
  for (int n = 0; n < N; n++) {
    const double L = 10;
    const int cells = h::range(rng, 2, 4);
    RectangularLattice<EnergyMomentumTensor> lat({L, L, L}, {cells, cells, cells}, {-L / 2, -L / 2, -L / 2}, false, LatticeUpdate::EveryTimestep);
    std::vector<double> density(lat.size());
    for (size_t c = 0; c < lat.size(); c++) {
      // an ideal fluid at rest or moving
      const double e = density[c] = h::uni(rng, .1, 2.), p = e * h::uni(rng, .1, .33);
      const ThreeVector v = h::chance(rng, .3) ? ThreeVector() : random_vec(rng, .45);
      const double g = 1 / std::sqrt(1 - v.sqr());
      const double u[4] = {g, g * v.x1(), g * v.x2(), g * v.x3()};
      EnergyMomentumTensor::tmn_type T;
      const auto put = [&](int a, int b) { T[size_t(EnergyMomentumTensor::tmn_index(size_t(a), size_t(b)))] = (e + p) * u[a] * u[b] - (a == b ? (a == 0 ? p : -p) : 0); };
      for (int a = 0; a < 4; a++)
        for (int b = a; b < 4; b++) put(a, b);
      lat[c] = EnergyMomentumTensor(T);
    }
    InitialConditionParameters ic;
    ic.type = FluidizationType::Dynamic;
    ic.energy_density_threshold = h::uni(rng, .1, 1.5);
    ic.min_time = h::uni(rng, 0., 3.);
    ic.max_time = *ic.min_time + h::uni(rng, .5, 30.);
    ic.num_fluid_cells = cells;
    ic.formation_time_fraction = h::chance(rng, .3) ? 1. : h::uni(rng, 0., 1.5);
    ic.smearing_kernel_at_0 = h::chance(rng, .3) ? 0. : h::uni(rng, 0., .4);
    ic.fluidizable_processes = bits(rng);
    if (h::chance(rng, .4)) ic.fluidizable_processes->set();
    ic.delay_initial_elastic = h::chance(rng, .5);
    std::map<int32_t, double> background;
    Particles parts;
    const double t = h::chance(rng, .85) ? h::uni(rng, *ic.min_time, *ic.max_time) : h::uni(rng, 0., 40.), dt = h::uni(rng, .05, 1.);
    const int many = h::range(rng, 1, 8);
    for (int k = 0; k < many; k++) {
      ParticleData d(ParticleType::find(PdgCode(std::string(h::pick(rng, species)))));
      d.set_4momentum(d.pole_mass(), random_vec(rng, 1.));
      d.set_4position(FourVector(t, random_vec(rng, .6 * L)));
      const double birth = t - h::uni(rng, 0., 3.);
      d.set_slow_formation_times(birth, birth + h::uni(rng, .01, 4.));
      if (h::chance(rng, .5)) d.set_formation_time(birth);
      d.set_cross_section_scaling_factor(h::chance(rng, .5) ? 1. : h::uni(rng, 0., 1.));
      d.set_history(history(h::range(rng, 0, 3), h::pick(rng, types)));
      if (h::chance(rng, .1)) d.fluidize();
      const auto &in = parts.insert(d);
      if (h::chance(rng, .5)) background[in.id()] = h::uni(rng, 0., 1.);
    }
    h::at("t=%.17g dt=%.6g between %.6g and %.6g, threshold %.6g kernel %.6g fraction %.6g", t, dt, *ic.min_time, *ic.max_time, *ic.energy_density_threshold, *ic.smearing_kernel_at_0, *ic.formation_time_fraction);
    const DynamicFluidizationFinder finder(lat, background, ic);
    const ParticleList list = parts.copy_to_vector();
    const auto actions = finder.find_actions_in_cell(list, dt, 1., {});
    std::map<int, double> when;
    for (const auto &a : actions) {
      if (when.count(a->incoming_particles()[0].id())) h::fail("twice", "particle joins the fluid twice");
      when[a->incoming_particles()[0].id()] = a->time_of_execution();
    }
    for (const auto &d : list) {
      bool inside = true;
      size_t cell = 0, f = 1;
      for (size_t k = 0; k < 3; k++) {
        const double r = (d.position().threevec()[k] + L / 2) / L * cells;
        if (r < 0 || r >= cells) inside = false;
        else cell += f * size_t(r);
        f *= size_t(cells);
      }
      bool above = false, near = false;
      if (inside) {
        const double e = density[cell] + (background.count(d.id()) ? background[d.id()] : 0), limit = *ic.energy_density_threshold + d.pole_mass() * *ic.smearing_kernel_at_0;
        above = e >= limit;
        near = std::abs(e - limit) < 1e-5;
      }
      if (near) continue;
      if (finder.above_threshold(d) != above) h::fail("dense", "%s is %sin a dense region of %.6g", d.type().name().c_str(), above ? "" : "not ", inside ? density[cell] : 0.);
      const auto &hist = d.get_history();
      bool kind = false;
      const auto &b = *ic.fluidizable_processes;
      switch (hist.process_type) {
        case ProcessType::Elastic:
          kind = b[From_Elastic] && !(hist.collisions_per_particle == 1 && *ic.delay_initial_elastic);
          break;
        case ProcessType::Decay:
          kind = b[From_Decay];
          break;
        case ProcessType::TwoToOne:
        case ProcessType::TwoToTwo:
        case ProcessType::TwoToThree:
        case ProcessType::TwoToFour:
        case ProcessType::TwoToFive:
        case ProcessType::MultiParticleThreeMesonsToOne:
        case ProcessType::MultiParticleThreeToTwo:
        case ProcessType::MultiParticleFourToTwo:
        case ProcessType::MultiParticleFiveToTwo:
          kind = b[From_Inelastic];
          break;
        case ProcessType::StringSoftDoubleDiffractive:
        case ProcessType::StringSoftSingleDiffractiveAX:
        case ProcessType::StringSoftSingleDiffractiveXB:
        case ProcessType::StringSoftAnnihilation:
        case ProcessType::StringSoftNonDiffractive:
          kind = b[From_SoftString];
          break;
        case ProcessType::StringHard:
          kind = b[From_HardString];
          break;
        default:
          break;
      }
      if (finder.is_process_fluidizable(hist) != kind) h::fail("process", "process %d after %d collisions %s", int(hist.process_type), hist.collisions_per_particle, kind ? "is not accepted" : "is accepted");
      const double begin = d.begin_formation_time(), form = begin + *ic.formation_time_fraction * (d.formation_time() - begin);
      if (std::abs(form - (t + dt)) < 1e-9) continue;
      const bool due = above && kind && !d.is_core() && form < t + dt && t + dt >= *ic.min_time && t <= *ic.max_time;
      h::count(due ? "joins the fluid" : "stays");
      if (due != (when.count(d.id()) > 0)) {
        h::fail("join", "%s %s: dense %d, kind %d, in the fluid %d, formed at %.6g", d.type().name().c_str(), due ? "does not join" : "joins", above, kind, d.is_core(), form);
      } else if (due) {
        const double want = d.xsec_scaling_factor() >= 1 - 1e-6 ? t : std::max(t, form);
        if (std::abs(when[d.id()] - want) > 1e-9) h::fail("time", "joins at %.9g, expected %.9g", when[d.id()], want);
      }
    }
    // at the end the fluid is taken out
    int core = 0;
    for (const auto &d : list) core += d.is_core();
    const auto last = finder.find_final_actions(parts);
    if (core) {
      if (int(last.size()) != core) h::fail("final", "%zu particles taken out at the end, %d are in the fluid", last.size(), core);
      for (const auto &a : last)
        if (a->incoming_particles().size() != 1 || !a->incoming_particles()[0].is_core()) h::fail("final", "a particle that is not in the fluid is taken out");
      h::count("final removals", core);
    }
    h::evaluated(h::current);
  }
}

namespace {
std::string str(const char *f, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
struct Beam {
  int pz, pn, tz, tn;
  double s;
};
std::string collider(const Beam &b, const std::string &ic) {
  return str("Modi: {Collider: {Projectile: {Particles: {2212: %d, 2112: %d}}, Target: {Particles: {2212: %d, 2112: %d}}, Sqrtsnn: %.17g, Initial_Conditions: {%s}}}", b.pz, b.pn, b.tz, b.tn, b.s, ic.c_str());
}
ColliderModus modus(const std::string &text, const ExperimentParameters &p) {
  Configuration c(text.c_str());
  return ColliderModus(c.extract_complete_sub_configuration(InputSections::modi), p);
}
}  // namespace

SECTION(parameters) {
  h::load_full(false);
  for (int n = 0; n < h::tier(60); n++) {
    const Beam b{h::range(rng, 1, 80), h::range(rng, 1, 120), h::range(rng, 1, 80), h::range(rng, 1, 120), h::uni(rng, 2.5, 200.)};
    const double sigma = h::uni(rng, .5, 2.5);
    const auto par = h::params(1, .1, 0., 300., sigma);
    if (n % 2 == 0) {
      const bool given = h::chance(rng, .5), y = h::chance(rng, .5), pt = h::chance(rng, .5);
      const double tau = h::uni(rng, .1, 9.), low = h::uni(rng, .1, 3.), scale = h::uni(rng, .3, 2.), yc = h::uni(rng, .1, 3.), pc = h::uni(rng, .1, 3.);
      std::string ic = "Type: Constant_Tau";
      if (given) ic += str(", Proper_Time: %.17g", tau);
      else ic += str(", Lower_Bound: %.17g, Proper_Time_Scaling: %.17g", low, scale);
      if (y) ic += str(", Rapidity_Cut: %.17g", yc);
      if (pt) ic += str(", pT_Cut: %.17g", pc);
      h::at("%s", collider(b, ic).c_str());
      const auto m = modus(collider(b, ic), par);
      const auto &q = m.IC_parameters();
      if (!m.is_IC_for_hybrid() || q.type != FluidizationType::ConstantTau) h::fail("type", "initial conditions of another type");
      if (given ? !(q.proper_time && *q.proper_time == tau) : !(q.lower_bound && *q.lower_bound == low && q.proper_time_scaling && *q.proper_time_scaling == scale && !q.proper_time))
        h::fail("values", "proper time is not the one given");
      if (*q.rapidity_cut != (y ? yc : 0) || *q.pT_cut != (pt ? pc : 0)) h::fail("cuts", "cuts %.6g %.6g", *q.rapidity_cut, *q.pT_cut);
      if (!FluidizationAction::remove_particle_) h::fail("remove", "particles are not removed at the hypersurface");
      // time to pass: both radii contracted at the velocity in the centre of mass of two nucleons
      const auto radius = [](int A) { return A == 1 ? 0 : std::abs(A - 0); };
      (void)radius;
      const double g = b.s / (2 * .938), v = std::sqrt(1 - 1 / (g * g));
      const double R = m.nuclei_passing_time() * g * v;
      const auto r = [](double A) { return A <= 16 ? 1.25 * std::cbrt(A) + .3 : 1.12 * std::cbrt(A) - .86 / std::cbrt(A); };
      const double want = r(b.pz + b.pn) + r(b.tz + b.tn);
      if (std::abs(R - want) > .25 * want) h::fail("passing", "passing time is that of %.6g fm, radii add up to about %.6g", R, want);
      h::count("hypersurface");
    } else {
      const double thr = h::uni(rng, .1, 2.), t1 = h::uni(rng, 0., 60.), t2 = t1 + h::uni(rng, .1, 30.), frac = h::uni(rng, 0., 1.5);
      const int cells = h::range(rng, 2, 20);
      const bool def = h::chance(rng, .3), delay = h::chance(rng, .5);
      std::string ic = "Type: Dynamic";
      const bool frozen_bits = h::chance(rng, .5);
      if (!def) ic += str(", Energy_Density_Threshold: %.17g, Minimum_Time: %.17g, Maximum_Time: %.17g, Fluidization_Cells: %d, Formation_Time_Fraction: %.17g, Delay_Initial_Elastic: %s", thr, t1, t2, cells, frac,
                          delay ? "True" : "False");
      if (frozen_bits) ic += ", Fluidizable_Processes: [\"Decay\", \"Inelastic\", \"HardString\"]";
      h::at("sigma=%.17g %s", sigma, collider(b, ic).c_str());
      const auto m = modus(collider(b, ic), par);
      const auto &q = m.IC_parameters();
      if (q.type != FluidizationType::Dynamic || FluidizationAction::remove_particle_) h::fail("type", "not dynamic");
      if (def) {
        if (*q.energy_density_threshold != .5 || *q.min_time != 0 || *q.max_time != 100 || *q.formation_time_fraction != 1 || *q.delay_initial_elastic != true)
          h::fail("default", "default %.6g %.6g %.6g %.6g", *q.energy_density_threshold, *q.min_time, *q.max_time, *q.formation_time_fraction);
      } else if (*q.energy_density_threshold != thr || *q.min_time != t1 || *q.max_time != t2 || *q.num_fluid_cells != cells || *q.formation_time_fraction != frac || *q.delay_initial_elastic != delay) {
        h::fail("values", "parameters are not those given");
      }
      const auto &f = *q.fluidizable_processes;
      if (frozen_bits ? (f[From_Elastic] || !f[From_Decay] || !f[From_Inelastic] || f[From_SoftString] || !f[From_HardString]) : !f.all()) h::fail("processes", "processes %s", f.to_string().c_str());
      // what a particle adds to the density where it is
      const double kernel = std::pow(2 * M_PI * sigma * sigma, -1.5);
      if (!h::close(*q.smearing_kernel_at_0, kernel, 1e-9)) h::fail("kernel", "kernel %.9g at the origin, Gaussian of width %.6g has %.9g", *q.smearing_kernel_at_0, sigma, kernel);
      h::count("dynamic");
    }
    h::evaluated(h::current);
  }
  // nonsense is refused
  const Beam b{10, 10, 10, 10, 5.};
  for (const char *ic : {"Type: Constant_Tau, Rapidity_Cut: -1", "Type: Constant_Tau, pT_Cut: -0.5", "Type: Dynamic, Energy_Density_Threshold: 0", "Type: Dynamic, Energy_Density_Threshold: -1",
                         "Type: Dynamic, Minimum_Time: 5, Maximum_Time: 4", "Type: Dynamic, Minimum_Time: -1", "Type: Dynamic, Fluidization_Cells: 1", "Type: Dynamic, Formation_Time_Fraction: -0.1"}) {
    h::at("%s", ic);
    bool refused = false;
    Configuration c(collider(b, ic).c_str());
    auto sub = c.extract_complete_sub_configuration(InputSections::modi);
    try {
      const auto p = h::params();
      ColliderModus m(std::move(sub), p);
    } catch (const std::exception &) {
      refused = true;
    }
    try {
      sub.clear();
    } catch (...) {
    }
    if (!refused) h::fail("refused", "%s accepted", ic);
    h::evaluated(ic);
  }
}

SECTION(lattice) {
  // the lattice grows with time and holds the tensor of all particles
  h::load_full(false);
  for (int n = 0; n < h::tier(3); n++) {
    const double t1 = h::uni(rng, 0., 3.), t2 = h::uni(rng, 60., 90.);
    const Beam b{5, 5, 5, 5, 5.};
    const auto par = h::params(1, .1, 0., 300., h::uni(rng, 2., 3.), 4.);
    auto m = modus(collider(b, str("Type: Dynamic, Minimum_Time: %.17g, Maximum_Time: %.17g, Fluidization_Cells: %d", t1, t2, h::range(rng, 8, 16))), par);
    const DensityParameters dens(par);
    std::vector<Particles> ens(1);
    double E = 0;
    FourVector P;
    for (int k = 0; k < 60; k++) {
      ParticleData d(ParticleType::find(PdgCode(std::string(h::pick(rng, species)))));
      if (!d.is_hadron()) continue;
      d.set_4momentum(d.pole_mass(), random_vec(rng, .5));
      d.set_4position(FourVector(0, random_vec(rng, 15.)));
      ens[0].insert(d);
      E += d.momentum().x0();
      P += d.momentum();
    }
    double side = 0;
    const double start = t1 + .5;
    for (double t : {t1 * .5, start, start + 20, start + 41, start + 44, start + 46, start + 50, t2 + 1}) {
      h::at("t=%.6g between %.6g and %.6g", t, t1, t2);
      m.build_fluidization_lattice(t, ens, dens);
      const auto &lat = m.fluid_lattice();
      const auto size = lat.lattice_sizes();
      const auto origin = lat.origin();
      for (size_t k = 0; k < 3; k++)
        if (std::abs(origin[k] + size[k] / 2) > 1e-9) h::fail("centre", "lattice is not centred");
      if (size[0] < side) h::fail("shrinks", "lattice shrinks from %.6g to %.6g", side, size[0]);
      side = size[0];
      if (t < t1 || t > t2) continue;
      // cells do not resolve the kernel exactly: compare energies of cells with direct sums
      const auto c = lat.cell_sizes();
      double total = 0;
      FourVector mom;
      for (size_t i = 0; i < lat.size(); i++) {
        const auto x = lat.cell_center(int(i));
        double e = 0;
        for (const auto &d : ens[0]) {
          const auto f = unnormalized_smearing_factor(x - d.position().threevec(), d.momentum(), 1 / d.momentum().abs(), dens);
          e += f.first * dens.norm_factor_sf() * d.momentum().x0();
        }
        const double got = EnergyMomentumTensor(lat[i])[0];
        if (std::abs(got - e) > 2e-2 * e + 1e-6) h::fail("cell", "energy density %.6g in a cell, sum over particles %.6g", got, e);
        total += got * c[0] * c[1] * c[2];
      }
      h::count("lattices");
    }
    h::evaluated(h::current);
  }
}

SECTION(output) {
  h::load_mid(false);
  std::string t = (std::filesystem::temp_directory_path() / "vextractXXXXXX").string();
  if (!mkdtemp(t.data())) exit(3);
  const std::filesystem::path dir = t, file = dir / "SMASH_IC_For_vHLLE.dat";
  FluidizationAction::remove_particle_ = true;
  for (int n = 0; n < h::tier(20); n++) {
    const double tau = h::uni(rng, .5, 5.);
    std::vector<std::vector<double>> want;
    {
      ICOutput out(dir, "Initial_Conditions", OutputParameters());
      if (!std::filesystem::exists(file.string() + ".unfinished")) h::fail("unfinished", "no unfinished file");
      Particles none;
      for (int ev = 0; ev < 2; ev++) {
        EventInfo info{0., 0., 0., 0., 0., 0., 1, 1, false};
        out.at_eventstart(none, EventLabel{ev, 0}, info);
        want.push_back({-1, double(ev)});
        for (int k = 0; k < 20; k++) {
          ParticleData d(ParticleType::find(PdgCode(std::string(h::pick(rng, species)))));
          d.set_4momentum(d.pole_mass(), random_vec(rng, 2.));
          const double eta = h::uni(rng, -2., 2.);
          d.set_4position(FourVector(tau * std::cosh(eta), ThreeVector(h::uni(rng, -5., 5.), h::uni(rng, -5., 5.), tau * std::sinh(eta))));
          const int coll = h::chance(rng, .3) ? 0 : h::range(rng, 1, 3);
          d.set_history(history(coll));
          FluidizationAction a(d, d, 0.);
          a.generate_final_state();
          out.at_interaction(a, 0.);
          if (coll) {
            const auto p = d.momentum();
            want.push_back({tau, d.position().x1(), d.position().x2(), eta, std::sqrt(p.x0() * p.x0() - p.x3() * p.x3()), p.x1(), p.x2(), .5 * std::log((p.x0() + p.x3()) / (p.x0() - p.x3())),
                            double(d.pdgcode().get_decimal()), double(d.type().charge()), double(d.type().baryon_number()), double(d.type().strangeness())});
          } else {
            h::count("spectators");
          }
        }
        out.at_eventend(none, EventLabel{ev, 0}, info);
        want.push_back({-2, double(ev)});
      }
    }
    if (!std::filesystem::exists(file)) h::fail("finished", "no file");
    std::istringstream in(h::slurp(file.string()));
    std::string line;
    size_t i = 0;
    int head = 0;
    while (std::getline(in, line)) {
      h::at("line %s", line.c_str());
      if (line[0] == '#' && line.find("event") != 2) {
        head++;
        continue;
      }
      if (i >= want.size()) {
        h::fail("more", "more lines than particles");
        break;
      }
      const auto &w = want[i++];
      if (line[0] == '#') {
        int ev = -1, en = -1;
        char word[20] = "";
        if (sscanf(line.c_str(), "# event %d ensemble %d %19s", &ev, &en, word) != 3 || w[0] != (std::string(word) == "start" ? -1 : -2) || ev != int(w[1]) || en != 0) h::fail("event", "unexpected event line");
        continue;
      }
      std::istringstream cols(line);
      std::vector<double> v;
      for (double x; cols >> x;) v.push_back(x);
      if (v.size() != w.size()) {
        h::fail("columns", "%zu columns instead of %zu", v.size(), w.size());
        continue;
      }
      for (size_t k = 0; k < v.size(); k++)
        if (!h::close(v[k], w[k], 1e-5, 2e-5)) h::fail("value", "column %zu is %.9g, expected %.9g", k, v[k], w[k]);
      h::count("lines");
    }
    if (i != want.size()) h::fail("missing", "%zu of %zu lines", i, want.size());
    if (head != 3) h::fail("head", "%d lines of header", head);
    std::filesystem::remove(file);
    h::evaluated(uint64_t(n));
  }
  std::filesystem::remove(dir);
}
HARNESS_MAIN
