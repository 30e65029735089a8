// R33: the cache of tabulated integrals never changes their values
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <optional>
#include <vector>

#include "smash/configuration.h"
#include "smash/file.h"
#include "smash/filelock.h"
#include "smash/input_keys.h"
#include "smash/isoparticletype.h"
#include "smash/library.h"
#include "smash/sha256.h"
#include "smash/tabulation.h"

#include "h.h"
#include "smashenv.h"
using namespace smash;
namespace fs = std::filesystem;
namespace {
struct Lists {
  std::string particles, modes, version;
};
Lists lists(h::Rng &rng) {
  const auto n = [&](double a, double b) {
    char s[20];
    snprintf(s, sizeof s, "%.3f", h::uni(rng, a, b));
    return std::string(s);
  };
  Lists l;
  l.particles = "π 0.138 7.7e-9 - 111 211\nN 0.938 0 + 2112 2212\nK 0.494 0 - 311 321\nΛ 1.116 0 + 3122\nγ 0 0 - 22\nη 0.548 1.31e-6 - 221\n";
  l.modes = "π\n1 1 γ γ\n\nη\n1 1 γ γ\n";
  if (h::chance(rng, .7)) {
    l.particles += "ρ 0.776 " + n(.13, .16) + " - 113 213\n";
    l.modes += "\nρ\n1 1 π π\n";
    if (h::chance(rng, .3)) {
      l.particles += "h₁(1170) 1.17 .36 + 10223\n";
      l.modes += "\nh₁(1170)\n1 0 π ρ\n";
    }
  }
  if (h::chance(rng, .8)) {
    l.particles += "Δ 1.232 " + n(.1, .13) + " + 1114 2114 2214 2224\n";
    l.modes += "\nΔ\n1 1 N π\n";
  }
  if (h::chance(rng, .7)) {
    l.particles += "N(1440) " + n(1.40, 1.47) + " " + n(.2, .4) + " + 12112 12212\n";
    l.modes += "\nN(1440)\n1 1 N π\n";
  }
  if (h::chance(rng, .7)) {
    l.particles += "N(1535) " + n(1.49, 1.54) + " " + n(.09, .15) + " - 22112 22212\n";
    l.modes += "\nN(1535)\n0.5 0 N π\n0.5 0 N η\n";
  }
  if (h::chance(rng, .5)) {
    l.particles += "Λ(1520) 1.52 " + n(.012, .02) + " - 3124\n";
    l.modes += "\nΛ(1520)\n1 2 N K̅\n";
  }
  l.version = "SMASH-" + std::to_string(h::range(rng, 1, 3));
  return l;
}
/// everything that is tabulated, at fixed energies
std::vector<double> values() {
  std::vector<double> v;
  IsoParticleType *delta = nullptr, *rho = nullptr, *h1 = nullptr;
  std::vector<IsoParticleType *> res;
  for (const auto &t : ParticleType::list_all()) {
    IsoParticleType *i = t.iso_multiplet();
    if (!i) continue;
    if (i->name() == "Δ") delta = i;
    if (i->name() == "ρ") rho = i;
    if (i->name() == "h₁(1170)") h1 = i;
    if (t.is_baryon() && !t.is_stable() && t.antiparticle_sign() > 0 && (res.empty() || res.back() != i)) res.push_back(i);
  }
  for (double s = 1.2; s < 5; s += .137) {
    for (auto r : res) {
      v.push_back(r->get_integral_NR(s));
      v.push_back(r->get_integral_piR(s));
      v.push_back(r->get_integral_RK(s));
      if (delta) v.push_back(r->get_integral_RR(delta, s));
    }
    if (rho) v.push_back(rho->get_integral_RR(rho, s));
    if (rho && h1) v.push_back(h1->get_integral_RR(rho, s));
  }
  return v;
}
void quiet() {
  const int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  dup2(fd, 2);
}
/// a process of its own, which writes the values to a file
pid_t start(const Lists &l, const std::string &dir, const std::string &out, int delay_us = 0) {
  fflush(stdout);
  const pid_t pid = fork();
  if (pid) return pid;
  quiet();
  usleep(useconds_t(delay_us));
  int rc = 7;
  try {
    Configuration c{"Version: 1\n"};
    c.set_value(InputKeys::particles, l.particles);
    c.set_value(InputKeys::decaymodes, l.modes);
    const auto hash = initialize_particles_decays_and_return_hash(c, l.version);
    c.clear();
    tabulate_resonance_integrals(hash, dir);
    const auto v = values();
    FILE *f = fopen((out + ".part").c_str(), "w");
    for (double x : v) fprintf(f, "%a\n", x);
    fclose(f);
    fs::rename(out + ".part", out);
    rc = 0;
  } catch (std::exception &e) {
    FILE *f = fopen((out + ".what").c_str(), "w");
    fprintf(f, "%s", e.what());
    fclose(f);
  }
  _exit(rc);
}
struct End {
  int status;
  std::string values;
  bool ok() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; }
};
End finish(pid_t pid, const std::string &out) {
  End e;
  waitpid(pid, &e.status, 0);
  if (e.ok()) e.values = h::slurp(out);
  else e.values = h::slurp(out + ".what");
  fs::remove(out);
  return e;
}
End run(const Lists &l, const std::string &dir, const std::string &out) { return finish(start(l, dir, out), out); }
std::map<std::string, std::string> content(const fs::path &dir) {
  std::map<std::string, std::string> m;
  for (const auto &e : fs::directory_iterator(dir)) m[e.path().filename().string()] = h::slurp(e.path().string());
  return m;
}
void check(const End &e, const std::string &fresh, const char *what) {
  if (!e.ok()) h::fail(std::string("cache/run/") + what, "%s: ended with status %d %s", what, e.status, e.values.c_str());
  else if (e.values != fresh) {
    std::istringstream a(e.values), b(fresh);
    std::string x, y;
    size_t n = 0, bad = 0;
    std::string first;
    for (;; n++) {
      const bool p = bool(getline(a, x)), q = bool(getline(b, y));
      if (!p || !q) break;
      if (x != y && !bad++) first = std::to_string(std::strtod(x.c_str(), nullptr)) + " instead of " + std::to_string(std::strtod(y.c_str(), nullptr));
    }
    h::fail(std::string("cache/values/") + what, "%s: %zu of %zu integrals are not those computed afresh, the first is %s", what, bad, n, first.c_str());
  }
  h::evaluated(std::string(what) + h::current);
  h::count(what);
}
/// a lock left by a killed process is removed by its user
void unlock(const std::string &dir) { fs::remove(dir + "/tabulations.lock"); }

void states(h::Rng &rng, int number) {
  for (int n = 0; n < h::tier(2, 6); n++) {
    const Lists l = lists(rng), other = lists(rng);
    const std::string top = fs::absolute("c" + std::to_string(number)).string(), dir = top + "/cache", out = top + "/values";
    fs::remove_all(top);
    fs::create_directories(top);
    h::at("lists %d/%d", number, n);
    const End f = run(l, "", out);
    if (!f.ok()) {
      h::fail("cache/fresh", "no values without a cache: status %d %s", f.status, f.values.c_str());
      continue;
    }
    if (f.values.empty()) continue;
    const std::string &fresh = f.values;
    h::count("integrals", std::count(fresh.begin(), fresh.end(), '\n'));
    check(run(l, dir, out), fresh, "no directory");
    const auto full = content(dir);
    if (full.count("tabulations.lock")) h::fail("cache/lock", "the lock is left behind");
    if (full.empty()) h::fail("cache/none", "nothing was stored");
    check(run(l, dir, out), fresh, "complete");
    if (content(dir) != full) h::fail("cache/rewritten", "a complete cache was changed");
    std::vector<std::string> names;
    for (const auto &[k, v] : full) names.push_back(k);
    const auto restore = [&] {
      fs::remove_all(dir);
      fs::create_directories(dir);
      for (const auto &[k, v] : full) std::ofstream(dir + "/" + k, std::ios::binary) << v;
    };
    const auto healed = [&](const char *what) {
      if (content(dir) != full) h::fail(std::string("cache/healed/") + what, "%s: the cache was not completed", what);
    };
    // a file is missing, or all
    restore();
    fs::remove(dir + "/" + h::pick(rng, names));
    check(run(l, dir, out), fresh, "file missing");
    healed("file missing");
    // a process or the disk came to its end while it was written
    for (int k = 0; k < 4; k++) {
      restore();
      const std::string name = h::pick(rng, names), &text = full.at(name);
      const size_t len = k == 0 ? 0 : k == 1 ? size_t(h::range(rng, 1, 64)) : size_t(h::below(rng, int(text.size())));
      std::ofstream(dir + "/" + name, std::ios::binary) << text.substr(0, len);
      check(run(l, dir, out), fresh, "truncated");
      healed("truncated");
    }
    // written by another version or for other lists
    restore();
    Lists v = l;
    v.version += "0";
    check(run(v, dir, out), fresh, "other version");
    check(run(l, dir, out), fresh, "and back");
    const End o = run(other, "", out);
    if (o.ok() && !o.values.empty()) {
      const std::string of = o.values;
      check(run(other, dir, out), of, "other lists");
      check(run(l, dir, out), fresh, "first lists again");
    }
    // decay modes that differ although the particles do not
    Lists d = l;
    const size_t at = d.modes.find("N(1535)\n0.5 0 N π\n0.5");
    if (at != std::string::npos) {
      d.modes.replace(at, strlen("N(1535)\n0.5 0 N π\n0.5"), "N(1535)\n0.9 0 N π\n0.1");
      const End df = run(d, "", out);
      restore();
      check(run(d, dir, out), df.values, "other decay modes");
      if (df.values == fresh) h::fail("cache/same", "other branching ratios do not change anything");
    }
    // locked by somebody else: the cache must not be touched
    restore();
    std::ofstream(dir + "/tabulations.lock") << "";
    fs::remove(dir + "/" + names[0]);
    auto locked = content(dir);
    check(run(l, dir, out), fresh, "locked");
    if (content(dir) != locked) h::fail("cache/locked", "a locked cache was changed");
    unlock(dir);
    // several at once
    fs::remove_all(dir);
    std::vector<pid_t> pids;
    for (int k = 0; k < 4; k++) pids.push_back(start(l, dir, out + std::to_string(k), h::range(rng, 0, 100000)));
    for (int k = 0; k < 4; k++) check(finish(pids[size_t(k)], out + std::to_string(k)), fresh, "together");
    if (content(dir).count("tabulations.lock")) h::fail("cache/lock", "the lock is left behind");
    healed("together");
    // killed at any time
    for (int k = 0; k < 3; k++) {
      fs::remove_all(dir);
      const pid_t p = start(l, dir, out);
      // until it is about to write a certain file
      const std::string &last = h::pick(rng, names);
      for (int i = 0; i < 20000 && !fs::exists(dir + "/" + last); i++) usleep(500);
      usleep(useconds_t(h::below(rng, 300)));
      kill(p, SIGKILL);
      const bool died = !finish(p, out).ok();
      if (died) h::count("killed while caching");
      check(run(l, dir, out), fresh, "after a kill, locked");
      unlock(dir);
      check(run(l, dir, out), fresh, "after a kill");
      healed("after a kill");
    }
    fs::remove_all(top);
  }
}
template <int I>
void part(h::Rng &rng) {
  states(rng, I);
}
h::Reg r0("states0", part<0>), r1("states1", part<1>), r2("states2", part<2>), r3("states3", part<3>), r4("states4", part<4>), r5("states5", part<5>);

/// stored and read
void stored(h::Rng &rng) {
  for (int n = 0; n < h::tier(150); n++) {
    h::at("tabulation %d", n);
    const double a = h::uni(rng, -3, 3), w = h::uni(rng, .1, 5), x0 = h::uni(rng, -2, 5), range = h::uni(rng, .1, 4);
    const size_t num = size_t(h::range(rng, 2, 60));
    Tabulation t(x0, range, num, [&](double x) { return std::exp(a) * std::sin(w * x); });
    sha256::Hash hash, other;
    for (auto &b : hash) b = uint8_t(h::below(rng, 256));
    other = hash;
    other[size_t(h::below(rng, int(other.size())))] ^= uint8_t(1 << h::below(rng, 8));
    {
      std::ofstream o("tab", std::ios::binary);
      t.write(o, hash);
    }
    const auto same = [&](const Tabulation &u) {
      for (int k = 0; k < 50; k++) {
        const double x = h::uni(rng, x0 - .2, x0 + range + .3);
        if (u.get_value_linear(x) != t.get_value_linear(x) || u.get_value_step(x) != t.get_value_step(x) ||
            u.get_value_linear(x, Extrapolation::Zero) != t.get_value_linear(x, Extrapolation::Zero) ||
            u.get_value_linear(x, Extrapolation::Const) != t.get_value_linear(x, Extrapolation::Const))
          return false;
      }
      return true;
    };
    std::ifstream i1("tab", std::ios::binary), i2("tab", std::ios::binary);
    const Tabulation u = Tabulation::from_file(i1, hash);
    if (u.is_empty() || !same(u)) h::fail("stored/same", "not what was stored");
    if (!Tabulation::from_file(i2, other).is_empty()) h::fail("stored/hash", "read in spite of another hash");
    const std::string all = h::slurp("tab");
    for (int k = 0; k < 12; k++) {
      const size_t len = k < 6 ? size_t(h::below(rng, 70)) : size_t(h::below(rng, int(all.size())));
      if (len >= all.size()) continue;
      std::ofstream("cut", std::ios::binary) << all.substr(0, len);
      std::ifstream i3("cut", std::ios::binary);
      try {
        const Tabulation c = Tabulation::from_file(i3, hash);
        if (!c.is_empty()) h::fail("stored/cut", "%zu of %zu bytes were taken for a tabulation", len, all.size());
      } catch (std::exception &e) {
        h::fail("stored/cut", "%zu of %zu bytes: %s", len, all.size(), e.what());
      }
      h::evaluated(h::mix(std::hash<double>{}(a), len));
    }
  }
}
h::Reg r6("stored", stored);

/// at most one process holds a lock
void locks(h::Rng &rng) {
  struct Shared {
    std::atomic<int> inside, overlaps, acquired, failed, foreign;
  };
  auto *s = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (int n = 0; n < h::tier(12); n++) {
    h::at("contention %d", n);
    new (s) Shared{};
    const fs::path path = fs::absolute("the.lock");
    fs::remove(path);
    std::vector<pid_t> pids;
    for (int k = 0; k < 6; k++) {
      const uint64_t seed = rng();
      const pid_t pid = fork();
      if (pid == 0) {
        h::Rng r(seed);
        for (int i = 0; i < 300; i++) {
          FileLock l(path);
          if (h::chance(r, .1)) sched_yield();
          if (l.acquire()) {
            if (s->inside++ != 0) s->overlaps++;
            s->acquired++;
            if (!fs::exists(path)) s->foreign++;
            if (h::chance(r, .3)) usleep(useconds_t(h::below(r, 200)));
            s->inside--;
          } else {
            s->failed++;
            if (h::chance(r, .5)) usleep(useconds_t(h::below(r, 100)));
          }
        }
        _exit(0);
      }
      pids.push_back(pid);
    }
    for (pid_t p : pids) {
      int st;
      waitpid(p, &st, 0);
      if (st) h::fail("locks/process", "ended with status %d", st);
    }
    if (s->overlaps) h::fail("locks/overlap", "%d times two processes held the lock", s->overlaps.load());
    if (s->foreign) h::fail("locks/removed", "%d times the file of a held lock was gone", s->foreign.load());
    if (fs::exists(path)) h::fail("locks/left", "the file is left behind");
    if (!s->acquired) h::fail("locks/never", "never acquired");
    h::count("acquired", s->acquired);
    h::count("refused", s->failed);
    h::evaluated(h::mix(uint64_t(s->acquired), uint64_t(n)));
  }
  const fs::path path = fs::absolute("one.lock");
  {
    FileLock a(path), b(path);
    if (fs::exists(path)) h::fail("locks/early", "the file exists before the lock is taken");
    if (!a.acquire() || !fs::exists(path)) h::fail("locks/take", "a free lock is not taken");
    bool thrown = false;
    try {
      a.acquire();
    } catch (std::exception &) {
      thrown = true;
    }
    if (!thrown) h::fail("locks/twice", "acquired twice by the same object");
    if (b.acquire()) h::fail("locks/held", "a held lock is taken");
    {
      FileLock c(path);
      c.acquire();
    }
    if (!fs::exists(path)) h::fail("locks/released", "released by somebody who did not hold it");
  }
  if (fs::exists(path)) h::fail("locks/left", "the file is left behind");
  FileLock nowhere(fs::absolute("no/such/directory/lock"));
  if (nowhere.acquire()) h::fail("locks/nowhere", "acquired in a directory that does not exist");
}
h::Reg r7("locks", locks);

/// the integrals themselves
double own1(const ParticleType &r, double m0, double s) {
  const double a = r.min_mass_kinematic(), b = s - m0, M = r.mass(), G = std::max(r.width_at_pole(), 1e-3);
  if (b <= a) return 0;
  const double ta = std::atan(2 * (a - M) / G), tb = std::atan(2 * (b - M) / G);
  const int n = 600;
  double sum = 0;
  for (int i = 0; i < n; i++) {
    const double th = ta + (tb - ta) * (i + .5) / n, m = M + G / 2 * std::tan(th);
    const double c = std::cos(th);
    const double x = (s - m - m0) * (s + m + m0) * (s - m + m0) * (s + m - m0);
    if (x <= 0) continue;
    sum += r.spectral_function(m) * std::sqrt(x) / (2 * s) * G / (2 * c * c);
  }
  return sum * (tb - ta) / n;
}
double own2(const ParticleType &r, const ParticleType &q, double s) {
  const double a = q.min_mass_kinematic(), b = s - r.min_mass_kinematic(), M = q.mass(), G = std::max(q.width_at_pole(), 1e-3);
  if (b <= a) return 0;
  const double ta = std::atan(2 * (a - M) / G), tb = std::atan(2 * (b - M) / G);
  const int n = 150;
  double sum = 0;
  for (int i = 0; i < n; i++) {
    const double th = ta + (tb - ta) * (i + .5) / n, m = M + G / 2 * std::tan(th), c = std::cos(th);
    sum += q.spectral_function(m) * own1(r, m, s) * G / (2 * c * c);
  }
  return sum * (tb - ta) / n;
}
void integrals(h::Rng &rng) {
  h::load_mid();
  const int save = dup(1);
  fflush(stdout);
  const int null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  sha256::Hash hash{};
  fs::create_directories("integrals");
  IsoParticleType::tabulate_integrals(hash, "integrals");
  std::cout << std::flush;
  fflush(stdout);
  dup2(save, 1);
  const auto get = [](const char *n) { return std::addressof(ParticleType::find(PdgCode(std::string(n)))); };
  const ParticleType *N = get("2112"), *pi = get("111"), *K = get("311"), *D = get("2224"), *rho = get("113"), *h1 = get("10223");
  const auto test = [&](const char *what, const ParticleType &r, double got, const std::function<double(double)> &own, double s) {
    const double lo = own(s - .03), hi = own(s + .03);
    h::at("%s %s at %g GeV", what, r.name().c_str(), s);
    if (!(got >= lo * .98 - 1e-6 && got <= hi * 1.02 + 1e-6)) h::fail(std::string("integrals/") + what, "%g is not between %g and %g", got, lo, hi);
    h::evaluated(h::current);
  };
  int big = 0;
  for (int n = 0; n < h::tier(60); n++) {
    std::vector<const ParticleType *> res;
    for (const auto &t : ParticleType::list_all())
      if (t.is_baryon() && !t.is_stable() && t.antiparticle_sign() > 0) res.push_back(std::addressof(t));
    const ParticleType &r = *h::pick(rng, res);
    IsoParticleType *iso = r.iso_multiplet();
    const auto s = [&](double m) { return m + r.min_mass_kinematic() + (h::chance(rng, .05) ? -.05 : h::uni(rng, .03, 1.95)); };
    double e = s(N->mass());
    const ParticleType &state = *iso->get_states()[0];
    test("NR", r, iso->get_integral_NR(e), [&](double x) { return own1(state, N->mass(), x); }, e);
    e = s(pi->mass());
    test("piR", r, iso->get_integral_piR(e), [&](double x) { return own1(state, iso->get_states()[0] ? pi->iso_multiplet()->get_states()[0]->mass() : 0, x); }, e);
    e = s(K->mass());
    test("RK", r, iso->get_integral_RK(e), [&](double x) { return own1(state, K->mass(), x); }, e);
    // the antiparticles have the same
    if (r.has_antiparticle())
      if (r.get_antiparticle()->iso_multiplet()->get_integral_RK(e) != iso->get_integral_RK(e)) h::fail("integrals/anti", "other integrals for the antiparticles of %s", r.name().c_str());
    if (big++ < h::tier(12)) {
      e = r.min_mass_kinematic() + D->min_mass_kinematic() + h::uni(rng, .05, 2.9);
      test("DeltaR", r, iso->get_integral_RR(D->iso_multiplet(), e), [&](double x) { return own2(state, *D, x); }, e);
    }
  }
  for (int n = 0; n < h::tier(6); n++) {
    double e = 2 * rho->min_mass_kinematic() + h::uni(rng, .05, 2.9);
    test("rhorho", *rho, rho->iso_multiplet()->get_integral_RR(rho->iso_multiplet(), e), [&](double x) { return own2(*rho, *rho, x); }, e);
    e = rho->min_mass_kinematic() + h1->min_mass_kinematic() + h::uni(rng, .05, 2.9);
    test("rhoh1", *h1, h1->iso_multiplet()->get_integral_RR(rho->iso_multiplet(), e), [&](double x) { return own2(*h1, *rho, x); }, e);
  }
  // every tabulation has a file of its own
  size_t files = 0;
  for (const auto &f : fs::directory_iterator("integrals")) files += f.path().extension() == ".bin";
  std::set<IsoParticleType *> multiplets;
  for (const auto &t : ParticleType::list_all())
    if (t.is_baryon() && !t.is_stable() && t.antiparticle_sign() > 0) multiplets.insert(t.iso_multiplet());
  if (files != 4 * multiplets.size() + 2) h::fail("integrals/files", "%zu files for %zu resonances", files, multiplets.size());
}
h::Reg r8("integrals", integrals);
}  // namespace
HARNESS_MAIN
