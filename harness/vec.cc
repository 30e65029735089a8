// Vectors, boosts, rotations, angles and relativistic kinematics against long double formulas.
#include "h.h"
#include "smash/angles.h"
#include "smash/fourvector.h"
#include "smash/kinematics.h"
#include "smash/numerics.h"
#include "smash/threevector.h"

using namespace smash;
using ld = long double;

namespace {
struct V3 {
  ld x[3];
};
struct V4 {
  ld t;
  V3 v;
};
V3 up(const ThreeVector &a) { return {{a[0], a[1], a[2]}}; }
V4 up(const FourVector &a) { return {a.x0(), up(a.threevec())}; }
ld dot(const V3 &a, const V3 &b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
V3 cross(const V3 &a, const V3 &b) {
  return {{a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}};
}
ld len(const V3 &a) { return std::sqrt(dot(a, a)); }
V3 rot(const V3 &v, int axis, ld a) {
  V3 r = v;
  const int i = (axis + 1) % 3, j = (axis + 2) % 3;
  r.x[i] = std::cos(a) * v.x[i] - std::sin(a) * v.x[j];
  r.x[j] = std::sin(a) * v.x[i] + std::cos(a) * v.x[j];
  return r;
}
/// textbook boost, parallel and perpendicular parts separately
V4 boost(const V4 &a, const V3 &b) {
  const ld b2 = dot(b, b);
  if (b2 == 0) return a;
  const ld g = 1 / std::sqrt(1 - b2), bx = dot(b, a.v);
  V4 r;
  r.t = g * (a.t - bx);
  for (int i = 0; i < 3; i++) {
    const ld par = bx / b2 * b.x[i];
    r.v.x[i] = a.v.x[i] - par + g * (par - b.x[i] * a.t);
  }
  return r;
}
double scale(h::Rng &rng) { return std::pow(10., h::uni(rng, -3, 3)); }
ThreeVector direction(h::Rng &rng) {
  switch (h::below(rng, 8)) {
    case 0: { ThreeVector e; e[size_t(h::below(rng, 3))] = h::chance(rng, .5) ? 1 : -1; return e; }
    case 1: { const double a = h::uni(rng, 0, 2 * M_PI); return ThreeVector(std::cos(a), std::sin(a), 0); }
    case 2: { const double e = std::pow(10., h::uni(rng, -9, -2)), a = h::uni(rng, 0, 2 * M_PI);
              return ThreeVector(e * std::cos(a), e * std::sin(a), h::chance(rng, .5) ? 1 : -1); }
    default: break;
  }
  const double c = h::uni(rng, -1, 1), s = std::sqrt(1 - c * c), p = h::uni(rng, 0, 2 * M_PI);
  return ThreeVector(s * std::cos(p), s * std::sin(p), c);
}
ThreeVector vec3(h::Rng &rng) {
  if (h::chance(rng, .02)) return ThreeVector(0, 0, 0);
  return direction(rng) * scale(rng);
}
FourVector vec4(h::Rng &rng) {
  const ThreeVector p = vec3(rng);
  switch (h::below(rng, 4)) {
    case 0: return FourVector(scale(rng) * (h::chance(rng, .5) ? 1 : -1), p);
    case 1: return FourVector(p.abs(), p);
    default: { const double m = scale(rng); return FourVector(std::sqrt(m * m + p.sqr()), p); }
  }
}
ThreeVector velocity(h::Rng &rng) {
  ThreeVector d = direction(rng);
  d = d / d.abs();
  switch (h::below(rng, 5)) {
    case 0: return ThreeVector(0, 0, 0);
    case 1: return d * std::pow(10., h::uni(rng, -9, -1));
    case 2: return d * (1 - std::pow(10., h::uni(rng, -6, -1)));
    default: return d * h::uni(rng, 0, .99);
  }
}
bool near(double a, ld b, ld tol) { return std::fabs(ld(a) - b) <= tol; }
ld size(const V4 &a) { return std::fabs(a.t) + len(a.v); }
}  // namespace

SECTION(boost) {
  const int n = h::tier(150000);
  for (int i = 0; i < n; i++) {
    const FourVector a = vec4(rng), c = vec4(rng);
    const ThreeVector v = velocity(rng);
    const V3 b = up(v);
    const ld g = 1 / std::sqrt(1 - dot(b, b)), eps = 2e-15L * g * g * g;
    h::at("x = %.17g %.17g %.17g %.17g v = %.17g %.17g %.17g", a.x0(), a.x1(), a.x2(), a.x3(), v.x1(), v.x2(), v.x3());
    const FourVector r = a.lorentz_boost(v);
    const V4 want = boost(up(a), b);
    const ld tol = eps * size(up(a)) + 1e-300L;
    bool ok = near(r.x0(), want.t, tol);
    for (int k = 0; k < 3; k++) ok = ok && near(r[size_t(k + 1)], want.v.x[k], tol);
    if (!ok)
      h::fail("boost", "boosted to %.17g %.17g %.17g %.17g, expected %.17Lg %.17Lg %.17Lg %.17Lg", r.x0(), r.x1(), r.x2(), r.x3(),
              want.t, want.v.x[0], want.v.x[1], want.v.x[2]);
    // invariants and inverse
    const FourVector back = r.lorentz_boost(-v);
    for (size_t k = 0; k < 4; k++)
      if (!near(back[k], a[k], 10 * g * tol)) h::fail("boost/inverse", "component %zu comes back as %.17g", k, back[k]);
    const FourVector d = c.lorentz_boost(v);
    if (!near(r.Dot(d), up(a).t * up(c).t - dot(up(a).v, up(c).v), 40 * g * eps * size(up(a)) * size(up(c)) + 1e-300L))
      h::fail("boost/invariant", "product changes from %.17g to %.17g", a.Dot(c), r.Dot(d));
    // the rest frame
    if (a.x0() > 0 && a.sqr() > 1e-6 * a.x0() * a.x0()) {
      const FourVector rest = a.lorentz_boost(a.velocity());
      const double m = std::sqrt(double(up(a).t * up(a).t - dot(up(a).v, up(a).v)));
      const double gg = a.x0() / m;
      if (std::fabs(rest.x0() - m) > 1e-14 * gg * gg * gg * m || rest.abs3() > 1e-14 * gg * gg * gg * m)
        h::fail("boost/rest", "in its rest frame the vector is %.17g %.17g %.17g %.17g, mass %.17g", rest.x0(), rest.x1(), rest.x2(), rest.x3(), m);
      if (std::fabs(a.abs() - m) > 1e-14 * gg * gg * m) h::fail("abs", "length %.17g, expected %.17g", a.abs(), m);
    }
    h::evaluated(h::mix(h::mix(uint64_t(std::log10(1e-3 + scale(rng))), uint64_t(100 * v.abs())), uint64_t(i % 997)));
  }
  h::count("boosts", n);
}

SECTION(algebra) {
  const int n = h::tier(200000);
  for (int i = 0; i < n; i++) {
    const FourVector a = vec4(rng), b = vec4(rng);
    const ThreeVector p = vec3(rng), q = vec3(rng);
    const double f = h::uni(rng, -3, 3);
    h::at("a = %.17g %.17g %.17g %.17g b = %.17g %.17g %.17g %.17g f = %.17g p = %.17g %.17g %.17g q = %.17g %.17g %.17g", a.x0(),
          a.x1(), a.x2(), a.x3(), b.x0(), b.x1(), b.x2(), b.x3(), f, p.x1(), p.x2(), p.x3(), q.x1(), q.x2(), q.x3());
    const FourVector s = a + b, d = a - b, m = a * f, m2 = f * a, o = a / (f + 10);
    FourVector s1 = a, d1 = a, m1 = a, o1 = a;
    s1 += b, d1 -= b, m1 *= f, o1 /= (f + 10);
    for (size_t k = 0; k < 4; k++) {
      const double e = 1e-15;
      if (!h::close(s[k], a[k] + b[k], e) || !h::close(d[k], a[k] - b[k], e) || !h::close(m[k], a[k] * f, e) || !h::close(m2[k], a[k] * f, e) ||
          !h::close(o[k], a[k] / (f + 10), 4 * e) || s1[k] != s[k] || d1[k] != d[k] || m1[k] != m[k] || o1[k] != o[k])
        h::fail("algebra", "sum, difference, product or quotient of four-vectors is wrong in component %zu", k);
    }
    const V4 A = up(a), B = up(b);
    const V3 P = up(p), Q = up(q);
    if (!near(a.Dot(b), A.t * B.t - dot(A.v, B.v), 2e-15L * size(A) * size(B))) h::fail("algebra/dot", "Dot gives %.17g", a.Dot(b));
    if (!near(a.sqr(), A.t * A.t - dot(A.v, A.v), 2e-15L * size(A) * size(A))) h::fail("algebra/sqr", "sqr gives %.17g", a.sqr());
    if (!near(a.sqr3(), dot(A.v, A.v), 2e-15L * size(A) * size(A))) h::fail("algebra/sqr3", "sqr3 gives %.17g", a.sqr3());
    if (!near(a.abs3(), len(A.v), 2e-15L * size(A))) h::fail("algebra/abs3", "abs3 gives %.17g", a.abs3());
    if (a.x0() > std::fabs(a.x3()) * 1.0001) {
      const ld tau = std::sqrt(A.t * A.t - A.v.x[2] * A.v.x[2]);
      if (!near(a.tau(), tau, 1e-11L * A.t)) h::fail("algebra/tau", "tau is %.17g", a.tau());
      if (!near(a.eta(), std::atanh(A.v.x[2] / A.t), 1e-10L)) h::fail("algebra/eta", "eta is %.17g", a.eta());
    }
    for (size_t k = 0; k < 3; k++)
      if (a.x0() != 0 && !near(a.velocity()[k], A.v.x[k] / A.t, 1e-15L * std::fabs(A.v.x[k] / A.t))) h::fail("algebra/velocity", "velocity %zu is %.17g", k, a.velocity()[k]);
    const bool lt = a.x0() < b.x0() && a.x1() < b.x1() && a.x2() < b.x2() && a.x3() < b.x3();
    const bool gt = a.x0() > b.x0() && a.x1() > b.x1() && a.x2() > b.x2() && a.x3() > b.x3();
    if ((a < b) != lt || (a > b) != gt) h::fail("algebra/order", "a < b is %d, a > b is %d", a < b, a > b);
    // three-vectors
    const ThreeVector c = p.cross_product(q), sp = p + q, dp = p - q, mp = p * f, fp = f * p, op = p / (f + 10), np = -p;
    const V3 C = cross(P, Q);
    for (size_t k = 0; k < 3; k++) {
      if (!near(c[k], C.x[k], 2e-15L * len(P) * len(Q))) h::fail("algebra/cross", "cross product is wrong in component %zu: %.17g", k, c[k]);
      if (!h::close(sp[k], p[k] + q[k], 1e-15) || !h::close(dp[k], p[k] - q[k], 1e-15) || !h::close(mp[k], p[k] * f, 1e-15) ||
          !h::close(fp[k], p[k] * f, 1e-15) || !h::close(op[k], p[k] / (f + 10), 4e-15) || np[k] != -p[k])
        h::fail("algebra", "sum, difference, product or quotient of three-vectors is wrong in component %zu", k);
    }
    if (!near(p * q, dot(P, Q), 2e-15L * len(P) * len(Q))) h::fail("algebra/dot", "product of three-vectors gives %.17g", p * q);
    if (!near(p.abs(), len(P), 2e-15L * len(P)) || !near(p.sqr(), dot(P, P), 2e-15L * dot(P, P))) h::fail("algebra/abs", "length %.17g", p.abs());
    h::evaluated(h::mix(uint64_t(i), uint64_t(size(A))));
  }
}

SECTION(rotation) {
  const int n = h::tier(150000);
  for (int i = 0; i < n; i++) {
    const ThreeVector a = vec3(rng);
    const auto angle = [&](double lo, double hi) {
      return h::chance(rng, .2) ? double(h::range(rng, -4, 4)) * M_PI / 4 : h::uni(rng, lo, hi);
    };
    const double phi = angle(-7, 7), theta = angle(-7, 7), psi = angle(-7, 7);
    h::at("v = %.17g %.17g %.17g angles %.17g %.17g %.17g", a.x1(), a.x2(), a.x3(), phi, theta, psi);
    const ld tol = 2e-14L * len(up(a)) + 1e-300L;
    auto check = [&](const char *what, const ThreeVector &r, const V3 &w, ld t) {
      for (size_t k = 0; k < 3; k++)
        if (!near(r[k], w.x[k], t)) {
          h::fail(what, "rotated to %.17g %.17g %.17g, expected %.17Lg %.17Lg %.17Lg", r.x1(), r.x2(), r.x3(), w.x[0], w.x[1], w.x[2]);
          break;
        }
    };
    ThreeVector r = a;
    r.rotate(phi, theta, psi);
    check("rotate/euler", r, rot(rot(rot(up(a), 2, psi), 0, theta), 2, phi), tol);
    r.rotate(-psi, -theta, -phi);
    check("rotate/inverse", r, up(a), tol);
    r = a;
    r.rotate_around_y(theta);
    check("rotate/y", r, rot(up(a), 1, theta), tol);
    r = a;
    r.rotate_around_z(phi);
    check("rotate/z", r, rot(up(a), 2, phi), tol);
    // angles of a vector
    const V3 A = up(a);
    if (len(A) > 1e-5) {
      const ld rho = std::sqrt(A.x[0] * A.x[0] + A.x[1] * A.x[1]);
      if (!near(a.get_theta(), std::atan2(rho, A.x[2]), 1e-7L)) h::fail("angle/theta", "theta is %.17g", a.get_theta());
      if (std::max(std::fabs(A.x[0]), std::fabs(A.x[1])) > 1.001e-6 && !near(a.get_phi(), std::atan2(A.x[1], A.x[0]), 1e-14L))
        h::fail("angle/phi", "phi is %.17g", a.get_phi());
    }
    // the z axis onto a direction
    ThreeVector to = direction(rng) * std::pow(10., h::uni(rng, -1, 3)), z(0, 0, a.abs());
    const V3 T = up(to);
    z.rotate_z_axis_to(to);
    V3 w;
    for (int k = 0; k < 3; k++) w.x[k] = T.x[k] / len(T) * len(A);
    check("rotate/axis", z, w, 2e-5L * len(A) + 1e-300L);
    ThreeVector b = vec3(rng), ra = a, rb = b;
    const V3 B = up(b);
    ra.rotate_z_axis_to(to);
    rb.rotate_z_axis_to(to);
    if (!near(ra * rb, dot(A, B), 2e-14L * len(A) * len(B) + 1e-300L)) h::fail("rotate/rigid", "rotation onto an axis changes the product of two vectors to %.17g", ra * rb);
    check("rotate/chirality", ra.cross_product(rb), [&] {
      ThreeVector c = a.cross_product(b);
      c.rotate_z_axis_to(to);
      return up(c);
    }(), 1e-13L * len(A) * len(B) + 1e-300L);
    h::evaluated(h::mix(uint64_t(i), uint64_t(phi * 10)));
  }
}

SECTION(angles) {
  const int n = h::tier(150000);
  for (int i = 0; i < n; i++) {
    const double phi = h::chance(rng, .2) ? h::range(rng, -12, 12) * M_PI / 2 : h::uni(rng, -30, 30);
    const double c = h::chance(rng, .2) ? (h::chance(rng, .5) ? 1. : -1.) * (h::chance(rng, .5) ? 1 : 1 + 5e-7) : h::uni(rng, -1, 1);
    h::at("phi %.17g cos %.17g", phi, c);
    Angles a(phi, c);
    const double cc = std::max(-1., std::min(1., c));
    if (!(a.phi() >= 0 && a.phi() <= 2 * M_PI)) h::fail("phi/range", "phi is %.17g", a.phi());
    if (std::fabs(std::cos(a.phi()) - std::cos(phi)) > 1e-13 || std::fabs(std::sin(a.phi()) - std::sin(phi)) > 1e-13)
      h::fail("phi/value", "phi became %.17g", a.phi());
    if (a.costheta() != cc) h::fail("costheta", "cos theta is %.17g", a.costheta());
    const ThreeVector u = a.threevec();
    const double s = std::sqrt((1 - cc) * (1 + cc));
    if (std::fabs(u.abs() - 1) > 1e-12 || std::fabs(u.x1() - s * std::cos(phi)) > 1e-7 || std::fabs(u.x2() - s * std::sin(phi)) > 1e-7 || u.x3() != cc)
      h::fail("unit", "unit vector %.17g %.17g %.17g", u.x1(), u.x2(), u.x3());
    if (std::fabs(a.theta() - std::acos(cc)) > 1e-12 || std::fabs(a.sintheta() - s) > 1e-7) h::fail("theta", "theta %.17g sin %.17g", a.theta(), a.sintheta());
    // walking over the pole keeps the great circle: the angle moved is |delta|
    const double delta = h::chance(rng, .2) ? h::range(rng, -4, 4) * M_PI / 4 : h::uni(rng, -M_PI, M_PI);
    Angles b = a;
    const double t0 = a.theta(), t = t0 + delta;
    const bool turned = b.add_to_theta(delta);
    const ThreeVector w(std::sin(t) * std::cos(phi), std::sin(t) * std::sin(phi), std::cos(t));
    if ((b.threevec() - w).abs() > 1e-6) h::fail("add", "theta %.17g + %.17g leads to %.17g %.17g", t0, delta, b.theta(), b.phi());
    if (std::fabs(t) > 1e-6 && std::fabs(t - M_PI) > 1e-6 && turned != (t < 0 || t > M_PI)) h::fail("add/flag", "theta %.17g + %.17g reports %d", t0, delta, turned);
    // a walk in steps round the sphere with the flag handed on
    Angles x = a;
    bool rev = false;
    double total = 0;
    const double step = h::uni(rng, .01, 3.1);
    for (int k = 0; k < 5; k++) {
      rev = x.add_to_theta(step, rev);
      total += step;
    }
    const ThreeVector e(std::sin(t0 + total) * std::cos(phi), std::sin(t0 + total) * std::sin(phi), std::cos(t0 + total));
    if (s > 1e-3 && (x.threevec() - e).abs() > 1e-6)
      h::fail("walk", "five steps of %.17g from theta %.17g lead to %.17g %.17g", step, t0, x.theta(), x.phi());
    bool thrown = i % 20 != 0;
    if (!thrown) try {
      Angles bad(0., (h::chance(rng, .5) ? 1 : -1) * (1 + std::pow(10, h::uni(rng, -5, 3))));
    } catch (Angles::InvalidTheta &) {
      thrown = true;
    }
    if (!thrown) h::fail("reject", "a cosine outside of [-1, 1] is accepted");
    if (i % 20 == 0) {
      Angles far = a;
      bool refused = false;
      const double too_far = (h::chance(rng, .5) ? 1 : -1) * (M_PI + std::pow(10, h::uni(rng, -5, 3)));
      try {
        far.add_to_theta(too_far);
      } catch (Angles::InvalidTheta &) {
        refused = true;
      }
      if (!refused) h::fail("reject", "the polar angle is advanced by %.17g", too_far);
      if (far.theta() != a.theta() || far.phi() != a.phi()) h::fail("reject", "the angles changed although the advance by %.17g was refused", too_far);
    }
    h::evaluated(h::mix(uint64_t(i), uint64_t(delta * 10)));
  }
}

SECTION(kinematics) {
  const int n = h::tier(200000);
  for (int i = 0; i < n; i++) {
    const double ma = h::chance(rng, .3) ? .938 : h::uni(rng, .1, 5), mb = h::chance(rng, .3) ? ma : h::uni(rng, .1, 5);
    const double ek = std::pow(10., h::uni(rng, -3, 3));
    h::at("masses %.17g %.17g kinetic energy %.17g", ma, mb, ek);
    const ld A = ma, B = mb, K = ek;
    const ld E = A + K, p = std::sqrt(K * (K + 2 * A));
    const ld s = A * A + B * B + 2 * E * B;
    auto eq = [&](const char *what, double got, ld want, ld rel) {
      if (!(std::fabs(ld(got) - want) <= rel * std::fabs(want))) h::fail(what, "%s gives %.17g, expected %.17Lg", what, got, want);
    };
    // beam on a target at rest
    eq("s_from_Etot", s_from_Etot(double(E), ma, mb), s, 1e-14L);
    eq("s_from_Ekin", s_from_Ekin(ek, ma, mb), s, 1e-14L);
    eq("s_from_plab", s_from_plab(double(p), ma, mb), s, 1e-14L);
    const ld amp = s / (B * K) * (1 + A / K);  // loss of digits near the threshold
    eq("plab_from_s", plab_from_s(double(s), ma, mb), p, 1e-14L * amp);
    const ld sa = 4 * A * A + 2 * A * K;
    eq("plab_from_s(equal masses)", plab_from_s(double(sa), ma), p, 1e-14L * (1 + sa / (A * K)));
    eq("fixed_target_projectile_v", fixed_target_projectile_v(double(s), ma, mb), p / E, 1e-14L * amp * amp);
    // two beams
    const double kb = h::chance(rng, .1) ? 0. : std::pow(10., h::uni(rng, -3, 3));
    const ld KB = kb, EB = B + KB, pb = std::sqrt(KB * (KB + 2 * B));
    const ld s2 = A * A + B * B + 2 * (E * EB + p * pb);
    const ld loss = (1 + A / K + (kb > 0 ? B / KB : 0)) * (E + EB) * (E + EB) / s2;  // digits lost in differences
    eq("s_from_Ekin(two beams)", s_from_Ekin(ek, kb, ma, mb), s2, 1e-13L * loss);
    eq("s_from_plab(two beams)", s_from_plab(double(p), double(pb), ma, mb), s2, 1e-13L * loss);
    if (kb > 0) eq("s_from_Etot(two beams)", s_from_Etot(double(E), double(EB), ma, mb), s2, 1e-13L * loss);
    // centre of mass and equal speeds
    const ld rs = std::sqrt(s), eA = (s + A * A - B * B) / (2 * rs), pc = p * B / rs;
    eq("pCM_from_s", pCM_from_s(double(s), ma, mb), pc, 1e-14L * amp * amp);
    eq("pCM", pCM(double(rs), ma, mb), pc, 2e-14L * amp * amp);
    eq("pCM_sqr", pCM_sqr(double(rs), ma, mb), pc * pc, 2e-14L * amp * amp);
    eq("pCM_sqr_from_s", pCM_sqr_from_s(double(s), ma, mb), pc * pc, 2e-14L * amp * amp);
    const double q = pCM(double(rs), ma, mb);
    if (std::fabs(q - pCM(double(rs), mb, ma)) > 1e-13 * double(amp * amp) * q) h::fail("pCM/symmetry", "%.17g and %.17g", q, pCM(double(rs), mb, ma));
    const double low = (ma + mb) * h::uni(rng, std::fabs(ma - mb) / (ma + mb) + 1e-3, .999);
    if (low > std::fabs(ma - mb) && pCM(low, ma, mb) != 0.) h::fail("pCM/threshold", "below the threshold pCM gives %.17g", pCM(low, ma, mb));
    const double v = center_of_velocity_v(double(s), ma, mb);
    const ld g = 1 / std::sqrt(1 - ld(v) * v), sv = A * A + B * B + 2 * A * B * g * g * (1 + ld(v) * v);
    if (!(v >= 0 && v <= 1) || std::fabs(sv - s) > 1e-13L * s * g * g) h::fail("center_of_velocity_v", "at speed %.17g s would be %.17Lg, not %.17Lg", v, sv, s);
    // range of t: extremes over the angle
    const double room = double(rs) - 1e-3, m3 = h::uni(rng, 0, room), m4 = h::chance(rng, .3) ? 0. : h::uni(rng, 0, room - m3);
    const ld e3 = (s + ld(m3) * m3 - ld(m4) * m4) / (2 * rs), p3 = std::sqrt(std::max(ld(0), e3 * e3 - ld(m3) * m3));
    const auto t = get_t_range(double(rs), ma, mb, m3, m4);
    ld hi = -1e300L, lo = 1e300L;
    for (int k = 0; k <= 8; k++) {
      const ld c = -1 + ld(k) / 4, tt = A * A + ld(m3) * m3 - 2 * (eA * e3 - pc * p3 * c);
      hi = std::max(hi, tt), lo = std::min(lo, tt);
    }
    const ld tt = 1e-12L * s * (1 + A / K);
    const double slack = 3e-8 * double(s);  // sqrt of a rounding error at the threshold
    if (std::fabs(t[0] - hi) > tt + slack * 1e-3 || std::fabs(t[1] - lo) > tt + slack * 1e-3)
      h::fail("t_range", "range of t %.17g .. %.17g, angles give %.17Lg .. %.17Lg", t[0], t[1], hi, lo);
    h::evaluated(h::mix(uint64_t(ma * 100), h::mix(uint64_t(mb * 100), uint64_t(1000 * std::log(ek)))));
  }
}

SECTION(closeness) {
  const int n = h::tier(200000);
  for (int i = 0; i < n; i++) {
    const double x = (h::chance(rng, .5) ? 1 : -1) * std::pow(10., h::uni(rng, -12, 12));
    const double rel = std::pow(10., h::uni(rng, -9, 0)) * (h::chance(rng, .5) ? 1 : -1);
    const double y = x * (1 + rel);
    h::at("x %.17g y %.17g", x, y);
    const double d = std::fabs(x - y), m = std::max(std::fabs(x), std::fabs(y));
    if (!almost_equal(x, x) || !almost_equal_physics(x, x)) h::fail("close/self", "not equal to itself");
    if (almost_equal(x, y) != almost_equal(y, x) || almost_equal_physics(x, y) != almost_equal_physics(y, x)) h::fail("close/symmetric", "depends on the order");
    if (std::fabs(d / m - 1e-6) > 1e-9 && almost_equal(x, y) != (d / m < 1e-6)) h::fail("close/relative", "almost_equal gives %d", almost_equal(x, y));
    if (std::fabs(d / m - 1e-4) > 1e-9 && std::fabs(d - 1e-6) > 1e-12 && almost_equal_physics(x, y) != (d / m < 1e-4 || d < 1e-6))
      h::fail("close/physics", "almost_equal_physics gives %d", almost_equal_physics(x, y));
    if (almost_equal(x, double(NAN)) || almost_equal(double(NAN), x) || almost_equal(x, double(INFINITY)) || almost_equal_physics(x, double(NAN))) h::fail("close/nan", "equal to NaN or infinity");
    FourVector a = vec4(rng), b = a;
    const size_t k = size_t(h::below(rng, 4));
    b[k] += (h::chance(rng, .5) ? 1 : -1) * 1e-2 * (1 + std::fabs(a[k]));
    if (a == b || !(a != b)) h::fail("close/vector", "vectors that differ by one per cent in component %zu are equal", k);
    if (!(a == a) || a != a) h::fail("close/vector", "a vector differs from itself");
    h::evaluated(h::mix(uint64_t(i), uint64_t(-10 * std::log(std::fabs(rel)))));
  }
}
HARNESS_MAIN
