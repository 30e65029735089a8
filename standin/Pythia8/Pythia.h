// A small stand-in for the parts of the Pythia 8 interface SMASH uses.
//
// Pythia 8.316 is not installed and cannot be fetched here.  Nine of SMASH's
// sources (experiment, scatteraction, crosssections, ...) include it and would
// otherwise not compile at all.  This header lets them be compiled and run.
// It is NOT Pythia: the hadronisation below is a flavour-conserving phase-space
// toy.  What it guarantees is what SMASH relies on: exact conservation of
// four-momentum and of quark flavour, only known species, and a random stream
// fixed by the seed SMASH hands over.
#ifndef VERIF_STANDIN_PYTHIA8_H
#define VERIF_STANDIN_PYTHIA8_H

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <utility>
#include <vector>

#ifndef PYTHIA_XML_DIR
#define PYTHIA_XML_DIR "standin"
#endif

namespace Pythia8 {

class Rndm {
 public:
  void init(int seed) { s_ = static_cast<std::uint64_t>(seed) * 2654435761u + 1; }
  double flat() {
    s_ += 0x9E3779B97F4A7C15ull;
    std::uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    return (static_cast<double>(z >> 11) + 0.5) * 0x1.0p-53;
  }

 private:
  std::uint64_t s_ = 1;
};

class Vec4 {
 public:
  Vec4(double x = 0., double y = 0., double z = 0., double t = 0.)
      : x_(x), y_(y), z_(z), t_(t) {}
  double px() const { return x_; }
  double py() const { return y_; }
  double pz() const { return z_; }
  double e() const { return t_; }
  void px(double v) { x_ = v; }
  void py(double v) { y_ = v; }
  void pz(double v) { z_ = v; }
  void e(double v) { t_ = v; }
  double pAbs2() const { return x_ * x_ + y_ * y_ + z_ * z_; }
  double pAbs() const { return std::sqrt(pAbs2()); }
  double m2Calc() const { return t_ * t_ - pAbs2(); }
  double mCalc() const {
    const double m2 = m2Calc();
    return m2 >= 0. ? std::sqrt(m2) : -std::sqrt(-m2);
  }
  Vec4 operator-() const { return Vec4(-x_, -y_, -z_, -t_); }
  Vec4 &operator+=(const Vec4 &o) {
    x_ += o.x_, y_ += o.y_, z_ += o.z_, t_ += o.t_;
    return *this;
  }
  Vec4 &operator-=(const Vec4 &o) { return *this += -o; }
  Vec4 &operator*=(double f) {
    x_ *= f, y_ *= f, z_ *= f, t_ *= f;
    return *this;
  }
  friend Vec4 operator+(Vec4 a, const Vec4 &b) { return a += b; }
  friend Vec4 operator-(Vec4 a, const Vec4 &b) { return a -= b; }
  friend Vec4 operator*(Vec4 a, double f) { return a *= f; }
  friend Vec4 operator*(double f, Vec4 a) { return a *= f; }
  // boost by the velocity of a four-momentum p with mass m
  void bst(const Vec4 &p, double m) {
    const double bx = p.x_ / m, by = p.y_ / m, bz = p.z_ / m, g = p.t_ / m;
    const double prod = bx * x_ + by * y_ + bz * z_;
    const double f = prod / (1. + g) + t_;
    x_ += f * bx, y_ += f * by, z_ += f * bz;
    t_ = g * t_ + prod;
  }

 private:
  double x_, y_, z_, t_;
};

inline bool standin_is_quark(int id) { id = std::abs(id); return id >= 1 && id <= 6; }
inline bool standin_is_diquark(int id) {
  id = std::abs(id);
  return id > 1000 && id < 10000 && (id / 10) % 10 == 0;
}

class ParticleData {
 public:
  ParticleData() {
    auto add = [this](int id, double m) { m_[id] = m; };
    add(1, .33); add(2, .33); add(3, .5); add(4, 1.5); add(5, 4.8);
    add(11, .000511); add(13, .10566); add(12, 0.); add(14, 0.); add(21, 0.); add(22, 0.);
    // diquarks
    for (int i = 1; i <= 5; i++)
      for (int j = 1; j <= i; j++)
        for (int s : {1, 3})
          if (!(i == j && s == 1)) add(1000 * i + 100 * j + s, m_[i] + m_[j] + .1);
    const std::pair<int, double> hadrons[] = {
        {111, .138}, {211, .138}, {221, .548}, {331, .958}, {311, .494}, {321, .494},
        {113, .776}, {213, .776}, {223, .783}, {333, 1.019}, {313, .892}, {323, .892},
        {310, .494}, {130, .494},
        {411, 1.867}, {421, 1.867}, {431, 1.968}, {413, 2.01}, {423, 2.01}, {433, 2.112},
        {511, 5.279}, {521, 5.279}, {531, 5.367}, {513, 5.325}, {523, 5.325}, {533, 5.415},
        {441, 2.98}, {443, 3.097}, {553, 9.46},
        {2112, .938}, {2212, .938}, {3122, 1.116}, {3112, 1.189}, {3212, 1.189}, {3222, 1.189},
        {3312, 1.318}, {3322, 1.318}, {1114, 1.232}, {2114, 1.232}, {2214, 1.232}, {2224, 1.232},
        {3114, 1.385}, {3214, 1.385}, {3224, 1.385}, {3314, 1.532}, {3324, 1.532}, {3334, 1.672},
        {4122, 2.286}, {4112, 2.453}, {4212, 2.453}, {4222, 2.453}};
    for (auto &h : hadrons) add(h.first, h.second);
  }
  bool isParticle(int id) const {
    if (!m_.count(std::abs(id))) return false;
    if (id < 0) {
      const int a = -id;
      if (a == 21 || a == 22) return false;
      if (isMeson(a) && (a / 100) % 10 == (a / 10) % 10) return false;
    }
    return true;
  }
  double m0(int id) const { auto it = m_.find(std::abs(id)); return it == m_.end() ? 0. : it->second; }
  void m0(int id, double m) { m_[std::abs(id)] = m; }
  double mWidth(int id) const { auto it = w_.find(std::abs(id)); return it == w_.end() ? 0. : it->second; }
  void mWidth(int id, double w) { w_[std::abs(id)] = w; }
  double mSel(int id) const {
    const double m = m0(id), w = mWidth(id);
    if (w < 1e-6) return m;
    const double lo = std::max(0.5 * m, m - w), hi = m + w;
    const double a = std::atan(2. * (lo - m) / w), b = std::atan(2. * (hi - m) / w);
    return m + .5 * w * std::tan(a + (b - a) * rndm_->flat());
  }
  bool isQuark(int id) const { return standin_is_quark(id); }
  bool isDiquark(int id) const { return standin_is_diquark(id); }
  bool isGluon(int id) const { return id == 21; }
  bool isParton(int id) const { return isQuark(id) || isDiquark(id) || isGluon(id); }
  bool isBaryon(int id) const {
    id = std::abs(id);
    return id > 1000 && (id / 10) % 10 && (id / 100) % 10 && (id / 1000) % 10 && id < 9900000;
  }
  bool isMeson(int id) const {
    id = std::abs(id);
    if (id == 130 || id == 310) return true;
    return id > 100 && (id / 10) % 10 && (id / 100) % 10 && !((id / 1000) % 10) && id < 9900000;
  }
  bool isHadron(int id) const { return isBaryon(id) || isMeson(id); }
  bool isOctetHadron(int) const { return false; }
  int baryonNumberType(int id) const {
    int b = isQuark(id) ? 1 : isDiquark(id) ? 2 : isBaryon(id) ? 3 : 0;
    return id > 0 ? b : -b;
  }
  // number of quarks of flavour idQ (for mesons: quarks plus antiquarks) in |id|
  int nQuarksInCode(int id, int idQ) const {
    id = std::abs(id);
    if (isQuark(id)) return id == idQ;
    int n = 0;
    if (isDiquark(id)) return ((id / 1000) % 10 == idQ) + ((id / 100) % 10 == idQ);
    for (int d = 10; d <= 1000; d *= 10) n += (id / d) % 10 == idQ;
    return n;
  }
  void standin_set_rndm(Rndm *r) { rndm_ = r; }

 private:
  std::map<int, double> m_, w_;
  Rndm *rndm_ = nullptr;
};

struct ParticleDataEntry {
  ParticleDataEntry(int id = 0, std::string = " ", std::string = " ") : id_(id) {}
  int id_;
};

class Particle {
 public:
  Particle(int id = 0, int status = 0, int col = 0, int acol = 0, Vec4 p = Vec4(), double m = 0.)
      : id_(id), status_(status), col_(col), acol_(acol), p_(p), m_(m) {}
  void setPDEPtr(std::shared_ptr<ParticleDataEntry>) {}
  int id() const { return id_; }
  void id(int v) { id_ = v; }
  int status() const { return status_; }
  void status(int v) { status_ = v; }
  int col() const { return col_; }
  int acol() const { return acol_; }
  void cols(int c, int a) { col_ = c, acol_ = a; }
  Vec4 p() const { return p_; }
  void p(const Vec4 &v) { p_ = v; }
  void p(double x, double y, double z, double t) { p_ = Vec4(x, y, z, t); }
  double px() const { return p_.px(); }
  double py() const { return p_.py(); }
  double pz() const { return p_.pz(); }
  double e() const { return p_.e(); }
  double pAbs() const { return p_.pAbs(); }
  double pAbs2() const { return p_.pAbs2(); }
  void px(double v) { p_.px(v); }
  void py(double v) { p_.py(v); }
  void pz(double v) { p_.pz(v); }
  void e(double v) { p_.e(v); }
  double m() const { return m_; }
  void m(double v) { m_ = v; }
  double y() const {
    const double mt = std::sqrt(std::max(1e-20, m_ * m_ + px() * px() + py() * py()));
    return std::asinh(pz() / mt);
  }
  bool isFinal() const { return status_ > 0; }
  bool isQuark() const { return standin_is_quark(id_); }
  bool isDiquark() const { return standin_is_diquark(id_); }
  bool isGluon() const { return id_ == 21; }
  bool isParton() const { return isQuark() || isDiquark() || isGluon(); }
  bool isHadron() const { static const ParticleData pd; return pd.isHadron(id_); }

 private:
  int id_, status_, col_, acol_;
  Vec4 p_;
  double m_;
};

class Event {
 public:
  Event() { reset(); }
  void init(const std::string &, ParticleData *) { reset(); }
  void reset() {
    entry_.clear();
    junction_.clear();
    entry_.emplace_back(90, -11);
  }
  int size() const { return static_cast<int>(entry_.size()); }
  Particle &operator[](int i) { return entry_.at(i); }
  const Particle &operator[](int i) const { return entry_.at(i); }
  int append(int id, int status, int col, int acol, Vec4 p, double m = 0.) {
    entry_.emplace_back(id, status, col, acol, p, m);
    return size() - 1;
  }
  int append(const Particle &p) {
    entry_.push_back(p);
    return size() - 1;
  }
  void remove(int first, int last) {
    entry_.erase(entry_.begin() + first, entry_.begin() + last + 1);
  }
  void clearJunctions() { junction_.clear(); }
  int appendJunction(int kind, int a, int b, int c) {
    junction_.push_back({kind, {a, b, c}});
    return sizeJunction() - 1;
  }
  int sizeJunction() const { return static_cast<int>(junction_.size()); }
  int kindJunction(int i) const { return junction_.at(i).first; }
  int colJunction(int i, int j) const { return junction_.at(i).second.at(j); }
  void eraseJunction(int i) { junction_.erase(junction_.begin() + i); }
  void list() const {}
  void listJunctions() const {}

 private:
  std::vector<Particle> entry_;
  std::vector<std::pair<int, std::array<int, 3>>> junction_;
};

class Settings {
 public:
  void flag(const std::string &k, bool v) { d_[k] = v; }
  void mode(const std::string &k, int v) { d_[k] = v; }
  void parm(const std::string &k, double v) { d_[k] = v; }
  double get(const std::string &k, double def = 0.) const {
    auto it = d_.find(k);
    return it == d_.end() ? def : it->second;
  }

 private:
  std::map<std::string, double> d_;
};

struct Info {
  Rndm *rndmPtr = nullptr;
  ParticleData *particleDataPtr = nullptr;
  Settings *settingsPtr = nullptr;
};

class PhysicsBase {
 public:
  void initInfoPtr(Info &info) { info_ = &info; }

 protected:
  Info *info_ = nullptr;
};

class SigmaTotal : public PhysicsBase {
 public:
  void init() {}
  bool calc(int a, int b, double s) {
    const double l = std::log(1. + s);
    const double fa = std::abs(a) > 1000 ? 1. : 2. / 3., fb = std::abs(b) > 1000 ? 1. : 2. / 3.;
    ax_ = 1.6 * fa * fb * l, xb_ = 1.6 * fa * fb * l, xx_ = 0.9 * fa * fb * l;
    return true;
  }
  double sigmaAX() const { return ax_; }
  double sigmaXB() const { return xb_; }
  double sigmaXX() const { return xx_; }

 private:
  double ax_ = 0., xb_ = 0., xx_ = 0.;
};

struct FlavContainer {
  FlavContainer(int i = 0) : id(i) {}
  void anti(const FlavContainer &o) { id = -o.id; }
  int id;
};

class StringFlav : public PhysicsBase {
 public:
  void init() {}
  FlavContainer pick(FlavContainer &old) {
    const bool carries_antibaryon_colour =
        (standin_is_quark(old.id) && old.id > 0) || (standin_is_diquark(old.id) && old.id < 0);
    const double sS = info_->settingsPtr->get("StringFlav:probStoUD", .2);
    const double qq = info_->settingsPtr->get("StringFlav:probQQtoQ", .08);
    auto quark = [&] {
      const double r = info_->rndmPtr->flat() * (2. + sS);
      return r < 1. ? 1 : r < 2. ? 2 : 3;
    };
    int id = quark();
    if (!standin_is_diquark(old.id) && info_->rndmPtr->flat() < qq / (1. + qq)) {
      int a = quark(), b = quark();
      if (a < b) std::swap(a, b);
      const int spin = (a == b || info_->rndmPtr->flat() < .5) ? 3 : 1;
      id = 1000 * a + 100 * b + spin;
      // a diquark sits where an antiquark would sit
      return FlavContainer(carries_antibaryon_colour ? id : -id);
    }
    return FlavContainer(carries_antibaryon_colour ? -id : id);
  }
  int combine(FlavContainer &f1, FlavContainer &f2) {
    return combineId(f1.id, f2.id, info_->rndmPtr->flat(), info_->rndmPtr->flat());
  }
  // hadron made of two string-end flavours, 0 if there is none
  static int combineId(int a, int b, double r1, double r2) {
    const bool qa = standin_is_quark(a), qb = standin_is_quark(b);
    const bool da = standin_is_diquark(a), db = standin_is_diquark(b);
    if (qa && qb) {
      if ((a > 0) == (b > 0)) return 0;
      const int q = std::max(a, b), qbar = -std::min(a, b);
      const bool vec = r1 < .4;
      if (q == qbar) {
        if (q <= 2) return vec ? (r2 < .5 ? 113 : 223) : r2 < .6 ? 111 : r2 < .9 ? 221 : 331;
        if (q == 3) return vec ? 333 : r2 < .5 ? 221 : 331;
        if (q == 4) return vec ? 443 : 441;
        return 553;
      }
      const int hi = std::max(q, qbar), lo = std::min(q, qbar);
      int code = 100 * hi + 10 * lo + (vec ? 3 : 1);
      const bool heavy_is_quark = q == hi;
      const bool positive = (hi % 2 == 0) == heavy_is_quark;
      return positive ? code : -code;
    }
    if ((qa && db) || (da && qb)) {
      const int q = qa ? a : b, d = qa ? b : a;
      if ((q > 0) != (d > 0)) return 0;
      const int sign = q > 0 ? 1 : -1;
      std::array<int, 3> f = {std::abs(q), (std::abs(d) / 1000) % 10, (std::abs(d) / 100) % 10};
      std::sort(f.rbegin(), f.rend());
      if (f[0] > 3) return 0;
      const bool all = f[0] == f[1] && f[1] == f[2];
      if (all || r1 < .3) return sign * (1000 * f[0] + 100 * f[1] + 10 * f[2] + 4);
      const bool distinct = f[0] != f[1] && f[1] != f[2];
      if (distinct && r2 < .5) return sign * (1000 * f[0] + 100 * f[2] + 10 * f[1] + 2);
      return sign * (1000 * f[0] + 100 * f[1] + 10 * f[2] + 2);
    }
    return 0;
  }
};

class Pythia {
 public:
  Pythia(std::string = "", bool = true) {
    info_.rndmPtr = &rndm;
    info_.particleDataPtr = &particleData;
    info_.settingsPtr = &settings;
    particleData.standin_set_rndm(&rndm);
    flav_.initInfoPtr(info_);
  }
  Pythia(const Pythia &) = delete;
  Pythia &operator=(const Pythia &) = delete;

  bool readString(const std::string &s, bool = true) {
    const auto eq = s.find('=');
    if (eq == std::string::npos) return false;
    auto strip = [](std::string t) {
      const auto b = t.find_first_not_of(" \t"), e = t.find_last_not_of(" \t");
      return b == std::string::npos ? std::string() : t.substr(b, e - b + 1);
    };
    const std::string k = strip(s.substr(0, eq)), v = strip(s.substr(eq + 1));
    settings.parm(k, v == "on" ? 1. : v == "off" ? 0. : std::atof(v.c_str()));
    return true;
  }
  double parm(const std::string &k) const { return settings.get(k); }
  bool init() { return true; }
  bool setKinematics(double e) {
    settings.parm("Beams:eCM", e);
    return true;
  }
  bool next() {
    if (settings.get("ProcessLevel:all", 1.) == 0.) {
      return event.size() <= 1 ? true : forceHadronLevel(false);
    }
    return hard_event();
  }
  bool forceHadronLevel(bool = true) {
    // take all final partons of the record and turn them into hadrons
    Vec4 sum;
    std::vector<int> col_end, acol_end, q3;
    bool any = false;
    for (int i = 1; i < event.size(); i++) {
      const Particle &p = event[i];
      if (!p.isFinal() || !p.isParton()) continue;
      any = true;
      sum += p.p();
      if (p.isGluon()) continue;
      const bool colour = (p.isQuark() && p.id() > 0) || (p.isDiquark() && p.id() < 0);
      (colour ? col_end : acol_end).push_back(p.id());
    }
    if (!any) return true;
    auto merge = [](std::vector<int> &v) {  // two (anti)quarks of a junction -> diquark
      const int a = std::abs(v[0]), b = std::abs(v[1]);
      if (standin_is_diquark(a) || standin_is_diquark(b)) return 0;
      const int hi = std::max(a, b), lo = std::min(a, b);
      return (v[0] > 0 ? 1 : -1) * (1000 * hi + 100 * lo + 3);
    };
    if (col_end.size() == 3 && acol_end.empty()) {
      const int d = merge(col_end);
      acol_end = {d}, col_end = {col_end[2]};
    } else if (acol_end.size() == 3 && col_end.empty()) {
      const int d = merge(acol_end);
      col_end = {d}, acol_end = {acol_end[2]};
    } else if (col_end.empty() && acol_end.empty()) {
      const int q = rndm.flat() < .5 ? 1 : 2;
      col_end = {q}, acol_end = {-q};
    }
    if (col_end.size() != 1 || acol_end.size() != 1 || !col_end[0] || !acol_end[0]) return false;
    const double M = sum.mCalc();
    if (!(M > 0.)) return false;
    for (int attempt = 0; attempt < 200; attempt++) {
      std::vector<int> had;
      std::vector<double> mass;
      double msum = 0.;
      int cur = col_end[0];
      const int want = 1 + static_cast<int>(rndm.flat() * (1. + .8 * std::min(M, 20.)));
      bool ok = true;
      for (int k = 0; k < want && ok; k++) {
        FlavContainer old(cur), fresh = flav_.pick(old);
        const int h = flav_.combine(old, fresh);
        if (!h) ok = false;
        else had.push_back(h);
        cur = -fresh.id;
      }
      if (!ok) continue;
      FlavContainer a(cur), b(acol_end[0]);
      const int h = flav_.combine(a, b);
      if (!h) continue;
      had.push_back(h);
      for (int x : had) {
        mass.push_back(particleData.mSel(x));
        msum += mass.back();
      }
      if (msum >= .99 * M) continue;
      std::vector<Vec4> mom;
      phase_space(M, mass, mom);
      for (int i = 1; i < event.size(); i++)
        if (event[i].isFinal() && event[i].isParton()) event[i].status(-71);
      for (std::size_t k = 0; k < had.size(); k++) {
        mom[k].bst(sum, M);
        event.append(had[k], 83, 0, 0, mom[k], mass[k]);
      }
      return true;
    }
    return false;
  }

  Event event;
  Event process;
  Settings settings;
  ParticleData particleData;
  Rndm rndm;

 private:
  Info info_;
  StringFlav flav_;

 public:
  const Info &info = info_;

 private:
  static double kallen_p(double M, double a, double b) {
    const double t = (M * M - (a + b) * (a + b)) * (M * M - (a - b) * (a - b));
    return t > 0. ? std::sqrt(t) / (2. * M) : 0.;
  }
  // sequential two-body phase space that leaves every later particle its share of the kinetic energy
  void phase_space(double M, const std::vector<double> &m, std::vector<Vec4> &p) {
    const std::size_t n = m.size();
    p.assign(n, Vec4());
    double rest = 0.;
    for (double x : m) rest += x;
    Vec4 frame(0., 0., 0., M);
    double cur = M;
    for (std::size_t k = 0; k + 1 < n; k++) {
      rest -= m[k];
      const double free = cur - m[k] - rest;
      const double next = k + 2 == n ? m[n - 1] : rest + free * std::pow(rndm.flat(), 1. / (1.5 * static_cast<double>(n - k - 2) + .5));
      const double pc = kallen_p(cur, m[k], next);
      const double c = 2. * rndm.flat() - 1., ph = 2. * M_PI * rndm.flat();
      const double st = std::sqrt(std::max(0., 1. - c * c));
      const double x = pc * st * std::cos(ph), y = pc * st * std::sin(ph), z = pc * c;
      p[k] = Vec4(x, y, z, std::sqrt(pc * pc + m[k] * m[k]));
      Vec4 r(-x, -y, -z, std::sqrt(pc * pc + next * next));
      p[k].bst(frame, cur);
      r.bst(frame, cur);
      frame = r;
      cur = next;
    }
    p[n - 1] = frame;
  }
  // the two string ends of a hadron: {colour carrier, anticolour carrier}
  std::pair<int, int> split(int id) {
    const int a = std::abs(id), d1 = (a / 1000) % 10, d2 = (a / 100) % 10, d3 = (a / 10) % 10;
    if (d1) {
      std::array<int, 3> f = {d1, d2, d3};
      std::swap(f[0], f[static_cast<int>(rndm.flat() * 3.) % 3]);
      const int hi = std::max(f[1], f[2]), lo = std::min(f[1], f[2]);
      const int dq = 1000 * hi + 100 * lo + (hi == lo || rndm.flat() < .5 ? 3 : 1);
      return id > 0 ? std::make_pair(f[0], dq) : std::make_pair(-dq, -f[0]);
    }
    if (d2 == d3) {
      const int q = d2 == 3 ? 3 : (rndm.flat() < .5 ? 1 : 2);
      return {q, -q};
    }
    // d2 heavier; a positive code means: heavy up-type quark, or heavy down-type antiquark
    const bool heavy_is_quark = (d2 % 2 == 0) == (id > 0);
    return heavy_is_quark ? std::make_pair(d2, -d3) : std::make_pair(d3, -d2);
  }
  bool hard_event() {
    event.reset();
    const double e = settings.get("Beams:eCM");
    const auto A = split(static_cast<int>(settings.get("Beams:idA")));
    const auto B = split(static_cast<int>(settings.get("Beams:idB")));
    // colours are exchanged: A's colour end goes with B's anticolour end
    std::vector<int> id = {A.first, B.second, B.first, A.second};
    std::vector<std::pair<int, int>> col = {{101, 0}, {0, 101}, {102, 0}, {0, 102}};
    const int ng = static_cast<int>(rndm.flat() * 3.);
    if (ng >= 1 && e > 6.) {
      id.push_back(21);
      col[1] = {0, 103};
      col.push_back({103, 101});  // carries 101 -> 103
    }
    std::vector<double> m;
    double ms = 0.;
    for (int i : id) m.push_back(particleData.m0(i)), ms += m.back();
    if (ms >= e) return false;
    std::vector<Vec4> p;
    phase_space(e, m, p);
    event[0].p(Vec4(0., 0., 0., e));
    event[0].m(e);
    for (std::size_t i = 0; i < id.size(); i++)
      event.append(id[i], 23, col[i].first, col[i].second, p[i], m[i]);
    return true;
  }
};

}  // namespace Pythia8

#endif
