// An independent reading of the particle and decay tables.
#ifndef VERIF_TABLES_H
#define VERIF_TABLES_H
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "smash/pdgcode.h"

namespace tab {
using smash::PdgCode;

inline double fact(int n) {
  double r = 1;
  for (int i = 2; i <= n; i++) r *= i;
  return r;
}
/// Clebsch-Gordan coefficient (Racah's formula), all arguments doubled
inline double cg(int j1, int j2, int j, int m1, int m2, int m) {
  if (m1 + m2 != m || std::abs(m1) > j1 || std::abs(m2) > j2 || std::abs(m) > j) return 0;
  if (j < std::abs(j1 - j2) || j > j1 + j2 || (j1 + j2 + j) % 2) return 0;
  if ((j1 + m1) % 2 || (j2 + m2) % 2 || (j + m) % 2) return 0;
  const double pre = std::sqrt((j + 1) * fact((j + j1 - j2) / 2) * fact((j - j1 + j2) / 2) * fact((j1 + j2 - j) / 2) / fact((j1 + j2 + j) / 2 + 1)) *
                     std::sqrt(fact((j + m) / 2) * fact((j - m) / 2) * fact((j1 - m1) / 2) * fact((j1 + m1) / 2) * fact((j2 - m2) / 2) * fact((j2 + m2) / 2));
  double sum = 0;
  for (int k = 0; k <= (j1 + j2 + j) / 2; k++) {
    const int a = (j1 + j2 - j) / 2 - k, b = (j1 - m1) / 2 - k, c = (j2 + m2) / 2 - k, d = (j - j2 + m1) / 2 + k, e = (j - j1 - m2) / 2 + k;
    if (a < 0 || b < 0 || c < 0 || d < 0 || e < 0) continue;
    sum += (k % 2 ? -1 : 1) / (fact(k) * fact(a) * fact(b) * fact(c) * fact(d) * fact(e));
  }
  return pre * sum;
}

struct State {
  std::string name, multiplet;
  double mass = 0, width = 0;
  int parity = 1;  // +1 or -1
  long code = 0;
  bool anti = false;  // made from the line of its antiparticle
  bool stable() const { return width < 1e-5; }
};
struct Mode {
  int L;
  std::vector<long> daughters;  // sorted codes
  bool operator<(const Mode &o) const { return std::tie(L, daughters) < std::tie(o.L, o.daughters); }
};
struct Tables {
  std::map<long, State> states;
  std::map<std::string, std::vector<long>> multiplets;
  std::map<long, std::map<Mode, double>> modes;  // normalised
  std::map<long, double> lowest;
  int isospin(long c) const {
    const PdgCode p = PdgCode::from_decimal(int(c));
    return p.is_hadron() ? int(multiplets.at(states.at(c).multiplet).size()) - 1 : 0;
  }
};
inline const std::vector<std::pair<std::string, std::string>> &flips() {
  static const std::vector<std::pair<std::string, std::string>> f = {{"⁺⁺", "⁻⁻"}, {"⁻⁻", "⁺⁺"}, {"⁺", "⁻"}, {"⁻", "⁺"}, {"⁰", "⁰"}};
  return f;
}
inline bool ends(const std::string &s, const std::string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
inline std::string stem(const std::string &n, std::string *charge = nullptr) {
  for (auto &f : flips())
    if (ends(n, f.first)) {
      if (charge) *charge = f.first;
      return n.substr(0, n.size() - f.first.size());
    }
  if (charge) charge->clear();
  return n;
}
inline std::string anti_name(const std::string &n, const PdgCode &p) {
  std::string charge, s = stem(n, &charge);
  for (auto &f : flips())
    if (f.first == charge) {
      charge = f.second;
      break;
    }
  if (p.baryon_number() || p.strangeness() || p.charmness() || p.bottomness() || p.is_neutrino()) {
    size_t k = 1;
    while (k < s.size() && (s[k] & 0xc0) == 0x80) k++;
    s.insert(k, "\u0305");
  }
  return s + charge;
}
inline std::string trim(const std::string &s) {
  const auto a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline std::vector<std::vector<std::string>> lines(const std::string &text) {
  std::vector<std::vector<std::string>> out;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l)) {
    l = trim(l.substr(0, l.find('#')));
    if (l.empty()) continue;
    std::istringstream w(l);
    std::vector<std::string> v;
    for (std::string s; w >> s;) v.push_back(s);
    out.push_back(v);
  }
  return out;
}
inline double lowest_mass(Tables &t, long c) {
  auto f = t.lowest.find(c);
  if (f != t.lowest.end()) return f->second;
  const State &s = t.states.at(c);
  double m = s.mass;
  if (!s.stable())
    for (auto &d : t.modes[c]) {
      double sum = 0;
      for (long x : d.first.daughters) sum += lowest_mass(t, x);
      m = std::min(m, sum);
    }
  return t.lowest[c] = m;
}
/// reads valid tables
inline Tables read(const std::string &particles, const std::string &decays) {
  Tables t;
  for (auto &w : lines(particles)) {
    for (size_t i = 4; i < w.size(); i++) {
      State s;
      s.name = w[0];
      s.mass = std::stod(w[1]);
      s.width = std::stod(w[2]);
      s.parity = w[3] == "+" ? 1 : -1;
      s.code = std::stol(w[i]);
      const PdgCode p = PdgCode::from_decimal(int(s.code));
      static const char *sup[] = {"⁻⁻", "⁻", "⁰", "⁺", "⁺⁺"};
      if (w.size() > 5) s.name += sup[p.charge() + 2];
      s.multiplet = stem(s.name);
      t.states[s.code] = s;
      if (p.has_antiparticle()) {
        State a = s;
        a.code = -s.code;
        a.anti = true;
        a.name = anti_name(s.name, p);
        a.multiplet = stem(a.name);
        if (p.spin() % 2) a.parity = -s.parity;
        t.states[a.code] = a;
      }
    }
  }
  for (auto &s : t.states) t.multiplets[s.second.multiplet].push_back(s.first);
  auto I3 = [](long c) { return PdgCode::from_decimal(int(c)).isospin3(); };
  std::string mother;
  std::map<long, std::map<Mode, double>> raw;
  for (auto &w : lines(decays)) {
    if (w.size() == 1) {
      mother = w[0];
      continue;
    }
    const double ratio = std::stod(w[0]);
    const int L = std::stoi(w[1]);
    bool multi = true;
    for (size_t i = 2; i < w.size(); i++) {
      auto m = t.multiplets.find(w[i]);
      multi = multi && m != t.multiplets.end() && PdgCode::from_decimal(int(m->second[0])).is_hadron();
    }
    for (long c : t.multiplets.at(mother)) {
      const int I = t.isospin(c);
      auto add = [&](std::vector<long> d, double r) {
        std::sort(d.begin(), d.end());
        raw[c][Mode{L, d}] += r;
      };
      if (multi) {
        const auto &A = t.multiplets.at(w[2]), &B = t.multiplets.at(w[3]);
        for (long a : A)
          for (long b : B) {
            const int Ia = t.isospin(a), Ib = t.isospin(b);
            if (w.size() == 4) {
              const double x = cg(Ia, Ib, I, I3(a), I3(b), I3(c));
              if (x * x > 1e-12) add({a, b}, ratio * x * x);
            } else {
              for (long d : t.multiplets.at(w[4])) {
                const int Id = t.isospin(d);
                double x = 0;  // the intermediate isospin is unique
                for (int Iab = std::abs(Ia - Ib); Iab <= Ia + Ib; Iab += 2)
                  x += std::pow(cg(Ia, Ib, Iab, I3(a), I3(b), I3(a) + I3(b)) * cg(Iab, Id, I, I3(a) + I3(b), I3(d), I3(c)), 2);
                if (x > 1e-12) add({a, b, d}, ratio * x);
              }
            }
          }
      } else {
        std::vector<long> d;
        int q = 0;
        for (size_t i = 2; i < w.size(); i++)
          for (auto &s : t.states)
            if (s.second.name == w[i]) {
              d.push_back(s.first);
              q += PdgCode::from_decimal(int(s.first)).charge();
            }
        if (q == PdgCode::from_decimal(int(c)).charge()) add(d, ratio);
      }
    }
  }
  for (auto &r : raw) {
    double sum = 0;
    for (auto &m : r.second) sum += m.second;
    for (auto &m : r.second) t.modes[r.first][m.first] = m.second / sum;
  }
  // antiparticles in multiplets of their own decay into the antiparticles
  for (auto &r : raw) {
    const State &s = t.states.at(r.first);
    const long a = -r.first;
    if (!t.states.count(a) || t.states.at(a).multiplet == s.multiplet) continue;
    for (auto &m : t.modes[r.first]) {
      Mode c = m.first;
      for (long &d : c.daughters)
        if (PdgCode::from_decimal(int(d)).has_antiparticle()) d = -d;
      std::sort(c.daughters.begin(), c.daughters.end());
      t.modes[a][c] = m.second;
    }
  }
  for (auto &s : t.states) lowest_mass(t, s.first);
  return t;
}
}  // namespace tab
#endif
