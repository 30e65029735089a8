// PDG codes against an independent reading of the decimal digits.
#include <array>
#include <set>
#include <sstream>

#include "h.h"
#include "smash/pdgcode.h"
#include "smash/pdgcode_constants.h"

using namespace smash;

namespace {
/// what the digits n nr nl q1 q2 q3 nJ and the sign say
struct Code {
  int n = 0, nr = 0, nl = 0, q1 = 0, q2 = 0, q3 = 0, J = 0, sign = 1;
  bool hadron() const { return q2 && q3; }
  bool baryon() const { return hadron() && q1; }
  bool meson() const { return hadron() && !q1; }
  bool self() const {  // its own antiparticle
    if (baryon()) return false;
    if (meson()) return q2 == q3;
    return q3 != 1;
  }
  bool valid() const {
    if (sign < 0 && self()) return false;
    if (baryon()) return J > 0 && J % 2 == 0;
    if (meson()) return J % 2 == 1 || (sign > 0 && !n && !nr && !nl && J == 0 && ((q2 == 1 && q3 == 3) || (q2 == 3 && q3 == 1)));
    return J > 0 || (!n && !nr && !nl && !q1 && !q2 && !q3);
  }
  /// net number of quarks of each flavour
  std::array<int, 7> net() const {
    std::array<int, 7> r{};
    if (baryon()) {
      r[size_t(q1)] += sign, r[size_t(q2)] += sign, r[size_t(q3)] += sign;
    } else if (meson()) {
      // the heavier quark is a quark if up-type and an antiquark if down-type
      const int hi = std::max(q2, q3), lo = std::min(q2, q3);
      const int s = (hi % 2 == 0 ? 1 : -1) * sign;
      r[size_t(hi)] += s, r[size_t(lo)] -= s;
    }
    return r;
  }
  long decimal() const {
    const int last = std::min(J, 9), first = J - last;
    return long(sign) * (last + 10L * q3 + 100L * q2 + 1000L * q1 + 10000L * nl + 100000L * nr + 1000000L * n + 10000000L * first);
  }
  long hex() const { return long(sign) * (J + 16L * (q3 + 16L * (q2 + 16L * (q1 + 16L * (nl + 16L * (nr + 16L * n)))))); }
};

template <class F>
bool throws(F f) {
  try {
    f();
  } catch (PdgCode::InvalidPdgCode &) {
    return true;
  }
  return false;
}
const double Q3[7] = {0, -1, 2, -1, 2, -1, 2};  // three times the charge of the quarks

void compare(const Code &c, const PdgCode &p) {
#define EQ(key, got, want) \
  if ((got) != (want)) h::fail(key, #got " is %ld for %ld, expected %ld", long(got), c.decimal(), long(want))
  const auto net = c.net();
  EQ("decimal", p.get_decimal(), c.decimal());
  EQ("hex", p.code(), c.hex());
  if (p.string() != std::to_string(c.decimal())) h::fail("decimal", "string %s for %ld", p.string().c_str(), c.decimal());
  EQ("kind", p.is_hadron(), c.hadron());
  EQ("kind", p.is_baryon(), c.baryon());
  EQ("kind", p.is_meson(), c.meson());
  EQ("kind", p.is_nucleus(), false);
  EQ("kind", p.is_lepton(), !c.q1 && !c.q2 && c.q3 == 1);
  EQ("kind", p.is_neutrino(), !c.q1 && !c.q2 && c.q3 == 1 && c.J % 2 == 0);
  EQ("baryon", p.baryon_number(), c.baryon() ? c.sign : 0);
  EQ("antiparticle", p.antiparticle_sign(), c.sign);
  EQ("antiparticle", p.has_antiparticle(), !c.self());
  double q = 0;
  for (int i = 1; i <= 6; i++) {
    EQ("quarks", p.net_quark_number(i), net[size_t(i)]);
    q += Q3[i] * net[size_t(i)];
  }
  if (c.hadron()) {
    EQ("charge", p.charge(), int(std::lround(q / 3)));
    EQ("strangeness", p.strangeness(), -net[3]);
    EQ("charm", p.charmness(), net[4]);
    EQ("bottom", p.bottomness(), -net[5]);
    EQ("isospin", p.isospin3(), net[2] - net[1]);
    EQ("spin", int(p.spin()), c.J ? c.J - 1 : 0);
    EQ("spin", int(p.spin_degeneracy()), c.J ? c.J : 1);
    // the quark content adds up to the net numbers
    const auto content = p.quark_content();
    std::array<int, 7> sum{};
    for (int k : content) {
      if (std::abs(k) > 6) h::fail("content", "quark %d in %ld", k, c.decimal());
      else sum[size_t(std::abs(k))] += k > 0 ? 1 : k < 0 ? -1 : 0;
    }
    if (c.q1 >= c.q2 || c.baryon() || c.q2 >= c.q3)
      for (int i = 1; i <= 6; i++)
        if (sum[size_t(i)] != net[size_t(i)]) h::fail("content", "content %d %d %d of %ld has net number %d of quark %d, not %d", content[0], content[1], content[2], c.decimal(), sum[size_t(i)], i, net[size_t(i)]);
    EQ("content", p.quarks(), c.q3 + 16 * c.q2 + 256 * c.q1);
    auto frac = [&](double got, int f, const char *name) {
      double want;
      if (c.baryon()) want = std::abs(net[size_t(f)]) / 3.;
      else want = c.q2 == f && c.q3 == f ? 1 : std::abs(net[size_t(f)]) / 2.;
      if (std::fabs(got - want) > 1e-12) h::fail("fraction", "fraction of %s is %g for %ld, expected %g", name, got, c.decimal(), want);
    };
    frac(p.frac_strange(), 3, "strange");
    frac(p.frac_charm(), 4, "charm");
    frac(p.frac_bottom(), 5, "bottom");
    auto has = [&](int f) { return c.baryon() ? c.q1 == f || c.q2 == f || c.q3 == f : c.q2 == f || c.q3 == f; };
    EQ("fraction", p.is_heavy_flavor(), has(4) || has(5));
    EQ("kind", p.is_charmonia(), c.meson() && c.q2 == 4 && c.q3 == 4);
    for (int k = -3; k <= 3; k++) {
      bool want = c.meson() ? std::abs(k) == 1 : k * c.sign == 1 || k * c.sign == 2;
      EQ("valence", p.contains_enough_valence_quarks(k), want);
    }
  }
  // by name
  const long d = c.decimal(), a = std::labs(d);
  EQ("name", p.is_nucleon(), a == 2212 || a == 2112);
  EQ("name", p.is_proton(), a == 2212);
  EQ("name", p.is_neutron(), a == 2112);
  EQ("name", p.is_Nstar1535(), a == 22212 || a == 22112);
  EQ("name", p.is_Delta(), a == 2224 || a == 2214 || a == 2114 || a == 1114);
  EQ("name", p.is_Sigmastar(), a == 3224 || a == 3214 || a == 3114);
  EQ("name", p.is_kaon(), a == 321 || a == 311);
  EQ("name", p.is_pion(), a == 211 || d == 111);
  EQ("name", p.is_rho(), a == 213 || d == 113);
  EQ("name", p.is_omega(), d == 223);
  const bool hyp = c.baryon() && c.q1 == 3;
  EQ("name", p.is_hyperon(), hyp);
  EQ("name", p.is_Omega(), hyp && c.q2 == 3 && c.q3 == 3);
  EQ("name", p.is_Xi(), hyp && c.q2 == 3 && c.q3 != 3);
  EQ("name", p.is_Lambda(), hyp && c.q2 == 1 && c.q3 == 2);
  EQ("name", p.is_Sigma(), hyp && c.q2 != 3 && !(c.q2 == 1 && c.q3 == 2));
  EQ("name", p.is_deuteron() || p.is_triton(), false);
  if (!c.self()) {
    const PdgCode x = p.get_antiparticle();
    EQ("antiparticle", x.get_decimal(), -c.decimal());
    EQ("antiparticle", x.is_antiparticle_of(p) && p.is_antiparticle_of(x), true);
    EQ("antiparticle", x == p, false);
    EQ("antiparticle", x.get_antiparticle() == p, true);
    EQ("antiparticle", x.charge(), -p.charge());
  }
  PdgCode e = p;
  e.deexcite();
  Code ground = c;
  ground.n = ground.nr = ground.nl = 0;
  EQ("deexcite", e.get_decimal(), ground.decimal());
#undef EQ
}

void all_ways(const Code &c) {
  if (c.sign < 0 && c.decimal() == 0) return;  // no negative zero
  const long d = c.decimal();
  h::at("code %ld", d);
  const std::string s = std::to_string(d);
  const bool ok = c.valid();
  std::vector<std::pair<const char *, std::function<PdgCode()>>> ways = {
      {"string", [&] { return PdgCode(s); }},
      {"int32", [&] { return PdgCode(std::int32_t(c.hex())); }},
      {"uint32", [&] { return PdgCode(std::uint32_t(std::labs(c.hex())) | (c.sign < 0 ? 0x80000000u : 0u)); }},
      {"decimal", [&] { return PdgCode::from_decimal(int(d)); }}};
  if (c.J <= 9) ways.push_back({"int64", [&] { return PdgCode(std::int64_t(c.hex())); }});
  if (c.sign > 0 && h::mix(uint64_t(d), 3) % 4 == 0) ways.push_back({"string with sign", [&] { return PdgCode("+" + s); }});
  PdgCode first = PdgCode::invalid();
  bool have = false;
  for (auto &w : ways) {
    if (!ok) {
      if (!throws([&] { w.second(); })) h::fail("reject", "%ld from %s is accepted", d, w.first);
      h::count("rejected");
      continue;
    }
    PdgCode p = PdgCode::invalid();
    if (throws([&] { p = w.second(); })) {
      h::fail("accept", "%ld from %s is refused", d, w.first);
      continue;
    }
    if (!have) {
      first = p;
      have = true;
      compare(c, p);
    } else if (p != first || p.get_decimal() != d || p < first || first < p) {
      h::fail("ways", "%ld from %s is %d", d, w.first, p.get_decimal());
    }
    if (p.test_code() != 0) h::fail("accept", "%ld does not pass the test of its digits", d);
  }
  // streams
  std::stringstream in(s + " 211");
  PdgCode a, b;
  in >> a;
  if (ok) {
    in >> b;
    if (!in || a.get_decimal() != d || b.get_decimal() != 211) h::fail("stream", "%ld is read as %d", d, a.get_decimal());
    std::stringstream out;
    out << a;
    if (out.str() != s) h::fail("stream", "%ld is written as %s", d, out.str().c_str());
  } else if (in || a != PdgCode::invalid()) {
    h::fail("stream", "%ld is accepted from a stream", d);
  }
  h::evaluated(uint64_t(d + 1000000000));
}
}  // namespace

// every combination of quark digits, spins up to 15 and signs, with random excitations
SECTION(hadrons) {
  for (int q1 = 0; q1 <= 6; q1++)
    for (int q2 = 1; q2 <= 6; q2++)
      for (int q3 = 1; q3 <= 6; q3++)
        for (int J = 0; J <= 15; J++)
          for (int s = -1; s <= 1; s += 2)
            for (int k = h::tier(2); k > 0; k--) {
              Code c;
              c.q1 = q1, c.q2 = q2, c.q3 = q3, c.J = J, c.sign = s;
              if (k > 1) c.n = h::chance(rng, .5) ? h::below(rng, 10) : 0, c.nr = h::below(rng, 10), c.nl = h::below(rng, 10);
              all_ways(c);
            }
  // order: a strict total order in agreement with equality
  for (int k = 0; k < h::tier(20000); k++) {
    auto any = [&] {
      Code c;
      do {
        c.q1 = h::below(rng, 7), c.q2 = h::range(rng, 1, 6), c.q3 = h::range(rng, 1, 6), c.J = h::range(rng, 1, 8), c.sign = h::chance(rng, .5) ? 1 : -1;
        c.nl = h::below(rng, 2), c.nr = h::below(rng, 2);
      } while (!c.valid());
      return PdgCode(std::to_string(c.decimal()));
    };
    const PdgCode a = any(), b = any(), d = any();
    const bool eq = a.get_decimal() == b.get_decimal();
    if ((a == b) != eq || (a != b) == eq || (a < b) + (b < a) + eq != 1) h::fail("order", "%d and %d", a.get_decimal(), b.get_decimal());
    if (a < b && b < d && !(a < d)) h::fail("order", "%d, %d and %d", a.get_decimal(), b.get_decimal(), d.get_decimal());
    if (a.is_antiparticle_of(b) != (a.get_decimal() == -b.get_decimal())) h::fail("antiparticle", "%d and %d", a.get_decimal(), b.get_decimal());
  }
}

// quarks, leptons, bosons and other codes with at most one quark digit
SECTION(others) {
  for (int q3 = 0; q3 <= 6; q3++)
    for (int J = 0; J <= 9; J++)
      for (int s = -1; s <= 1; s += 2)
        for (int k = h::tier(4); k > 0; k--) {
          Code c;
          c.q3 = q3, c.J = J, c.sign = s;
          if (k == 1) c.nl = h::below(rng, 10), c.nr = h::below(rng, 10), c.n = h::below(rng, 10);
          all_ways(c);
        }
  struct {
    int code, charge, spin;
  } known[] = {{11, -1, 1}, {-11, 1, 1}, {13, -1, 1}, {-13, 1, 1}, {15, -1, 1}, {12, 0, 1}, {-12, 0, 1}, {14, 0, 1}, {16, 0, 1}, {22, 0, 2}, {21, 0, 2}, {23, 0, 2}, {24, 1, 2}};
  for (auto &x : known) {
    const PdgCode p = PdgCode::from_decimal(x.code);
    if (p.charge() != x.charge) h::fail("charge", "charge %d of %d", p.charge(), x.code);
    if (int(p.spin()) != x.spin || int(p.spin_degeneracy()) != x.spin + 1) h::fail("spin", "spin %u of %d", p.spin(), x.code);
    if (p.strangeness() || p.charmness() || p.bottomness() || p.baryon_number()) h::fail("baryon", "flavour of %d", x.code);
  }
  // pairs of leptons
  const int codes[] = {11, -11, 13, -13, 12, -12, 14, -14, 22, 211, -211, 111};
  auto pair = [](int a, int b) {
    return (std::max(a, b) == 11 && std::min(a, b) == -11) || (std::max(a, b) == 13 && std::min(a, b) == -13) ||
           (std::max(a, b) == 12 && std::min(a, b) == -11) || (std::max(a, b) == 11 && std::min(a, b) == -12);
  };
  for (int a : codes)
    for (int b : codes) {
      const PdgCode x = PdgCode::from_decimal(a), y = PdgCode::from_decimal(b);
      if (is_dilepton(x, y) != pair(a, b)) h::fail("dilepton", "%d and %d", a, b);
      for (int d : codes)
        if (has_lepton_pair(x, y, PdgCode::from_decimal(d)) != (pair(a, b) || pair(a, d) || pair(b, d))) h::fail("dilepton", "%d, %d and %d", a, b, d);
    }
}

// nuclei 10LZZZAAAI: with L Lambdas, Z protons and A baryons in total
SECTION(nuclei) {
  for (int k = 0; k < h::tier(30000); k++) {
    const int A = h::chance(rng, .3) ? h::range(rng, 1, 6) : h::range(rng, 1, 999);
    const int L = h::chance(rng, .6) ? 0 : h::range(rng, 0, std::min(9, A)), Z = h::range(rng, 0, A - L), I = h::chance(rng, .6) ? 0 : h::below(rng, 10);
    const int sign = h::chance(rng, .5) ? 1 : -1;
    const long d = sign * (1000000000L + 10000000L * L + 10000L * Z + 10L * A + I);
    const std::string s = std::to_string(d);
    h::at("code %ld", d);
    const PdgCode p(s);
    const int N = A - Z - L;
#define EQ(key, got, want) \
  if (long(got) != long(want)) h::fail(key, #got " is %ld, expected %ld", long(got), long(want))
    EQ("decimal", p.get_decimal(), d);
    if (p.string() != s) h::fail("decimal", "string %s", p.string().c_str());
    EQ("ways", PdgCode::from_decimal(int(d)) == p, true);
    EQ("ways", PdgCode(std::int64_t(sign) * std::stoll(s.substr(sign < 0), nullptr, 16)) == p, true);
    EQ("kind", p.is_nucleus(), true);
    EQ("kind", p.is_hadron() || p.is_baryon() || p.is_meson() || p.is_lepton() || p.is_nucleon() || p.is_hyperon(), false);
    EQ("baryon", p.baryon_number(), sign * A);
    EQ("charge", p.charge(), sign * Z);
    EQ("strangeness", p.strangeness(), -sign * L);
    EQ("charm", p.charmness(), 0);
    EQ("bottom", p.bottomness(), 0);
    EQ("isospin", p.isospin3(), sign * (Z - N));
    EQ("quarks", p.net_quark_number(1), sign * (2 * N + Z + L));
    EQ("quarks", p.net_quark_number(2), sign * (N + 2 * Z + L));
    EQ("quarks", p.net_quark_number(3), sign * L);
    EQ("nucleus", p.nucleus_p(), sign > 0 ? Z : 0);
    EQ("nucleus", p.nucleus_n(), sign > 0 ? N : 0);
    EQ("nucleus", p.nucleus_La(), sign > 0 ? L : 0);
    EQ("nucleus", p.nucleus_ap(), sign < 0 ? Z : 0);
    EQ("nucleus", p.nucleus_an(), sign < 0 ? N : 0);
    EQ("nucleus", p.nucleus_aLa(), sign < 0 ? L : 0);
    EQ("nucleus", p.nucleus_A(), A);
    EQ("nucleus", p.is_deuteron(), A == 2 && Z == 1 && L == 0 && I == 0);
    EQ("nucleus", p.is_triton(), A == 3 && Z == 1 && L == 0 && I == 0);
    EQ("antiparticle", p.has_antiparticle(), true);
    EQ("antiparticle", p.get_antiparticle().get_decimal(), -d);
    EQ("antiparticle", p.get_antiparticle().get_antiparticle() == p, true);
    EQ("antiparticle", p.antiparticle_sign(), sign);
    PdgCode e = p;
    e.deexcite();
    EQ("deexcite", e.get_decimal(), d - sign * I);
    if (A >= 2 && A <= 4) {
      EQ("spin", p.spin(), A == 2 ? 2 : A == 3 ? 1 : 0);
      EQ("spin", p.spin_degeneracy(), A == 2 ? 3 : A == 3 ? 2 : 1);
    }
    std::stringstream in(s);
    PdgCode r;
    in >> r;
    EQ("stream", bool(r == p), true);
    h::evaluated(uint64_t(d + 3000000000L));
#undef EQ
  }
  if (PdgCode(pdg::deuteron).get_decimal() != 1000010020 || PdgCode(pdg::antihypertriton).get_decimal() != -1010010030 ||
      PdgCode(pdg::he3).get_decimal() != 1000020030 || PdgCode(pdg::triton).get_decimal() != 1000010030)
    h::fail("nucleus", "named nuclei");
}

// texts that are no code
SECTION(malformed) {
  for (int k = 0; k < h::tier(60000); k++) {
    std::string s;
    const int way = h::below(rng, 6);
    if (h::chance(rng, .3)) s = h::chance(rng, .5) ? "-" : "+";
    const size_t sign = s.size();
    auto digit = [&](int b) { return char('0' + h::below(rng, b)); };
    if (way == 0) {  // only a sign, or nothing
    } else if (way == 1) {  // too long, or the length between hadrons and nuclei
      int len = h::chance(rng, .5) ? 9 : h::range(rng, 11, 20);
      while (len--) s += digit(7);
    } else if (way == 2) {  // nucleus that does not begin with 10
      do {
        s.resize(sign);
        for (int i = 0; i < 10; i++) s += digit(10);
      } while (s[sign] == '1' && s[sign + 1] == '0');
    } else if (way == 3) {  // a quark digit above 6
      s += "11111";
      s[sign + size_t(h::range(rng, 0, 3))] = char('7' + h::below(rng, 3));
      s = s.substr(0, sign) + (h::chance(rng, .5) ? std::string(1, digit(10)) : "") + s.substr(sign);
      // one of the three digits before the last has to be above 6
      const size_t n = s.size();
      if (s[n - 2] < '7' && s[n - 3] < '7' && s[n - 4] < '7') s[n - 3] = '8';
    } else {  // a character that is no digit
      int len = h::range(rng, 1, 7);
      while (len--) s += digit(6);
      static const std::string bad = " .,:;/\\#@!?*gGzZxX_~()[]\"'|\t\x7f+-";
      const size_t at = sign + size_t(h::below(rng, int(s.size() - sign)));
      s[at] = bad[size_t(h::below(rng, int(bad.size())))];
      if (at == 0 && (s[0] == '+' || s[0] == '-')) s[0] = 'x';
    }
    h::at("text \"%s\"", s.c_str());
    if (!throws([&] { PdgCode p(s); })) h::fail("malformed", "accepted");
    PdgCode p(0x211);
    std::stringstream in(s);
    in >> p;
    if (s.find_first_of(" \t") == std::string::npos && (in || p != PdgCode::invalid())) h::fail("malformed", "accepted from a stream");
    h::evaluated(s);
  }
  for (int q : {-3, -1, 0, 7, 8, 100}) {
    bool thrown = false;
    try {
      PdgCode(0x211).net_quark_number(q);
    } catch (std::invalid_argument &) {
      thrown = true;
    }
    if (!thrown) h::fail("malformed", "number of quark %d", q);
  }
}
HARNESS_MAIN
