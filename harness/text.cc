// Hashes and text helpers.
#include "h.h"
#include "smash/sha256.h"
#include "smash/stringfunctions.h"

using namespace smash;

namespace {
std::vector<uint8_t> sha(const std::vector<uint8_t> &in) {
  // round constants: fractional parts of the cube roots of the first primes, computed here
  uint32_t k[64], st[8];
  int found = 0;
  for (int p = 2; found < 64; p++) {
    bool prime = true;
    for (int q = 2; q * q <= p; q++) prime = prime && p % q;
    if (!prime) continue;
    // floor(2^32 * frac(root)) by integer search
    auto root = [&](int power) {
      __uint128_t lo = 0, hi = __uint128_t(1) << 38;
      while (hi - lo > 1) {
        const __uint128_t m = (lo + hi) / 2;
        bool less;
        if (power == 2) less = m * m <= (__uint128_t(p) << 64);
        else less = m * m * m <= (__uint128_t(p) << 96);
        (less ? lo : hi) = m;
      }
      return uint32_t(lo);
    };
    k[found] = root(3);
    if (found < 8) st[found] = root(2);
    found++;
  }
  std::vector<uint8_t> m = in;
  m.push_back(0x80);
  while (m.size() % 64 != 56) m.push_back(0);
  const uint64_t bits = uint64_t(in.size()) * 8;
  for (int i = 7; i >= 0; i--) m.push_back(uint8_t(bits >> (8 * i)));
  auto rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64], v[8];
    for (size_t i = 0; i < 16; i++)
      w[i] = uint32_t(m[o + 4 * i]) << 24 | uint32_t(m[o + 4 * i + 1]) << 16 | uint32_t(m[o + 4 * i + 2]) << 8 | m[o + 4 * i + 3];
    for (int i = 16; i < 64; i++)
      w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
    for (int i = 0; i < 8; i++) v[i] = st[i];
    for (int i = 0; i < 64; i++) {
      const uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
      const uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; j--) v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) st[i] += v[i];
  }
  std::vector<uint8_t> r;
  for (uint32_t s : st)
    for (int i = 3; i >= 0; i--) r.push_back(uint8_t(s >> (8 * i)));
  return r;
}
const std::vector<std::string> letters = {"a", "N", "7", " ", "-", "π", "Λ", "⁺", "⁻", "⁰", "p̅", "K̅", "ϑ", "𝒩", "*", "(1520)", "Ξ", "𝕊"};
const std::vector<size_t> widths = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 6, 1, 1};
}  // namespace

SECTION(sha256) {
  {
    const std::string abc = "abc";
    const auto w = sha(std::vector<uint8_t>(abc.begin(), abc.end()));
    if (w[0] != 0xba || w[1] != 0x78 || w[31] != 0xad) h::fail("oracle", "the reference is wrong");
  }
  const int n = h::tier(800);
  for (int c = 0; c < n; c++) {
    const int len = c < 200 ? c : h::range(rng, 0, 3000);
    std::vector<uint8_t> d;
    for (int i = 0; i < len; i++) d.push_back(uint8_t(rng()));
    h::at("%d bytes", len);
    const auto want = sha(d);
    auto same = [&](const sha256::Hash &x) { return std::equal(x.begin(), x.end(), want.begin()); };
    if (!same(sha256::calculate(d.data(), d.size()))) h::fail("sha256", "wrong digest of %d bytes", len);
    sha256::Context ctx;
    if (h::chance(rng, .3)) ctx.update("something else"), ctx.reset();
    for (size_t at = 0; at < d.size();) {
      const size_t k = std::min(d.size() - at, size_t(h::chance(rng, .3) ? 64 : h::range(rng, 0, 200)));
      if (h::chance(rng, .5)) ctx.update(d.data() + at, k);
      else ctx.update(std::string(d.begin() + long(at), d.begin() + long(at + k)));
      at += k;
    }
    const auto got = ctx.finalize();
    if (!same(got)) h::fail("sha256/parts", "wrong digest of %d bytes given in parts", len);
    std::string hex;
    for (uint8_t b : want) {
      char t[3];
      snprintf(t, 3, "%02x", b);
      hex += t;
    }
    if (sha256::hash_to_string(got) != hex) h::fail("sha256/text", "%s instead of %s", sha256::hash_to_string(got).c_str(), hex.c_str());
    h::evaluated(uint64_t(len));
  }
}

SECTION(fill) {
  const int n = h::tier(30000);
  for (int c = 0; c < n; c++) {
    std::string s;
    size_t w = 0;
    for (int i = h::range(rng, 0, 8); i > 0; i--) {
      const int k = h::below(rng, int(letters.size()));
      s += letters[size_t(k)];
      w += widths[size_t(k)];
    }
    const size_t width = size_t(h::chance(rng, .3) ? h::range(rng, 0, int(w)) : h::range(rng, int(w), int(w) + 20));
    const char f = h::chance(rng, .5) ? ' ' : '#';
    h::at("'%s' (%zu wide) to %zu", s.c_str(), w, width);
    const size_t miss = width > w ? width - w : 0;
    if (utf8::fill_left(s, width, f) != std::string(miss, f) + s) h::fail("fill/left", "gives '%s'", utf8::fill_left(s, width, f).c_str());
    if (utf8::fill_right(s, width, f) != s + std::string(miss, f)) h::fail("fill/right", "gives '%s'", utf8::fill_right(s, width, f).c_str());
    if (utf8::fill_both(s, width, f) != std::string(miss / 2, f) + s + std::string(miss - miss / 2, f)) h::fail("fill/both", "gives '%s'", utf8::fill_both(s, width, f).c_str());
    // lengths of the sequences add up to the string
    size_t at = 0, chars = 0;
    while (at < s.size()) {
      const auto l = utf8::sequence_length(s.begin() + long(at));
      if (l <= 0) break;
      at += size_t(l);
      chars++;
    }
    if (at != s.size() || chars < w) h::fail("fill/sequence", "the sequence lengths add up to %zu of %zu", at, s.size());
    h::evaluated(s);
  }
}

SECTION(strings) {
  const int n = h::tier(30000);
  for (int c = 0; c < n; c++) {
    std::vector<std::string> parts;
    for (int i = h::range(rng, 1, 6); i > 0; i--) {
      std::string s;
      for (int j = h::range(rng, 1, 5); j > 0; j--) s += h::pick(rng, letters);
      std::string t;
      for (char ch : s)
        if (ch != ',') t += ch;
      parts.push_back(t);
    }
    std::string all = parts[0];
    for (size_t i = 1; i < parts.size(); i++) all += "," + parts[i];
    h::at("'%s'", all.c_str());
    if (join(parts, ",") != all) h::fail("join", "gives '%s'", join(parts, ",").c_str());
    if (split(all, ',') != parts) h::fail("split", "%zu parts instead of %zu", split(all, ',').size(), parts.size());
    if (quote(all) != "\"" + all + "\"") h::fail("quote", "gives %s", quote(all).c_str());
    const char *ws[] = {"", " ", "\t", "\n", "\r\n", "  \t "};
    const std::string core = "x" + all + "y", left = ws[h::below(rng, 6)], right = ws[h::below(rng, 6)];
    if (trim(left + core + right) != core || trim(left + right) != "") h::fail("trim", "gives '%s'", trim(left + core + right).c_str());
    // removing: nothing left of it, and what was not part of it stays
    std::string cleaned = all;
    isoclean(cleaned);
    std::string want;
    for (size_t i = 0; i < all.size();) {
      const std::string three = all.substr(i, 3);
      if (three == "⁺" || three == "⁻" || three == "⁰") i += 3;
      else want += all[i++];
    }
    if (cleaned != want) h::fail("isoclean", "gives '%s'", cleaned.c_str());
    std::string r = all;
    const std::string p = h::pick(rng, letters);
    remove_substr(r, p);
    if (r.find(p) != std::string::npos) h::fail("remove", "'%s' is still in '%s'", p.c_str(), r.c_str());
    if ((all.size() - r.size()) % p.size()) h::fail("remove", "too much is removed: '%s'", r.c_str());
    h::evaluated(all);
  }
}
HARNESS_MAIN
