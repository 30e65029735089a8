// widths and spectral functions do not depend on what was asked for first
#include <sys/wait.h>
#include <unistd.h>
#include "h.h"
#include "smashenv.h"
using namespace smash;

SECTION(order) {
  h::load_mid();
  struct Q {
    ParticleTypePtr t;
    double m;
    int what;
  };
  std::vector<Q> qs;
  std::mt19937_64 g = rng;
  for (const auto &t : ParticleType::list_all()) {
    if (t.is_stable() || !t.is_hadron() || t.pdgcode().is_nucleus()) continue;
    for (int k = 0; k < 4; k++) {
      const double m = k == 0 ? t.mass() : t.min_mass_kinematic() + h::uni(rng, 0.01, 1.5);
      for (int w = 0; w < 2; w++) qs.push_back({&t, m, w});
    }
  }
  auto ask = [&](const std::vector<size_t> &perm) {
    std::vector<double> v(qs.size());
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      for (size_t i : perm) {
        v[i] = qs[i].what == 0 ? qs[i].t->spectral_function(qs[i].m) : qs[i].t->total_width(qs[i].m);
      }
      const char *p = reinterpret_cast<const char *>(v.data());
      size_t n = v.size() * sizeof(double);
      while (n > 0) {
        ssize_t k = write(fd[1], p, n);
        if (k <= 0) _exit(3);
        p += k;
        n -= k;
      }
      _exit(0);
    }
    close(fd[1]);
    char *p = reinterpret_cast<char *>(v.data());
    size_t n = v.size() * sizeof(double);
    while (n > 0) {
      ssize_t k = read(fd[0], p, n);
      if (k <= 0) break;
      p += k;
      n -= k;
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (n > 0 || st != 0) throw std::runtime_error("a child that evaluates widths failed");
    return v;
  };
  std::vector<size_t> perm(qs.size());
  for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
  const auto ref = ask(perm);
  for (int k = 0; k < h::tier(3, 10); k++) {
    std::shuffle(perm.begin(), perm.end(), rng);
    const auto v = ask(perm);
    for (size_t i = 0; i < v.size(); i++) {
      h::at("%s of %s at %g after other questions", qs[i].what ? "width" : "spectral function",
            qs[i].t->name().c_str(), qs[i].m);
      if (std::abs(v[i] - ref[i]) > 1e-10 * std::abs(ref[i]) + 1e-14) {
        h::fail("order", "%.15g instead of %.15g (%g)", v[i], ref[i], v[i]/ref[i]-1);
      }
      h::evaluated(h::current);
    }
  }
}
HARNESS_MAIN
