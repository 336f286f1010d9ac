// Closest approach of two particles on straight lines, written independently
// of the code under test.
#ifndef VERIF_APPROACH_H_
#define VERIF_APPROACH_H_
#include <cmath>

#include "smash/particledata.h"

namespace {
struct V3 {
  double x, y, z;
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(V3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
struct V4 {
  double t;
  V3 r;
};
/// passive Lorentz boost to a frame moving with velocity b
inline V4 boost(V4 a, V3 b) {
  const double b2 = dot(b, b);
  if (b2 < 1e-24)
    return a;
  const double g = 1. / std::sqrt(1. - b2), br = dot(b, a.r);
  const V3 r = a.r + b * ((g - 1.) * br / b2 - g * a.t);
  return {g * (a.t - br), r};
}
inline V3 v3(const smash::ThreeVector &v) { return {v.x1(), v.x2(), v.x3()}; }
inline V4 v4(const smash::FourVector &v) { return {v.x0(), {v.x1(), v.x2(), v.x3()}}; }

struct Approach {
  double d2, time;  // squared CM distance, time until closest approach
  bool time_defined;
};

/// `va`,`vb`: momenta the particles move with (beam momenta if frozen Fermi)
inline Approach approach(V4 pa, V4 pb, V4 xa, V4 xb, V4 ma, V4 mb, bool covariant) {
  Approach r{0, 0, true};
  const V3 cm = (pa.r + pb.r) * (1. / (pa.t + pb.t));
  const V3 p = boost(pa, cm).r;
  const V3 dr = boost(V4{xa.t - xb.t, xa.r - xb.r}, cm).r;
  const double p2 = dot(p, p);
  const V3 c = cross(dr, p);
  r.d2 = p2 > 1e-12 ? dot(c, c) / p2 : dot(dr, dr);
  const V3 va = ma.r * (1. / ma.t), vb = mb.r * (1. / mb.t);
  if (!covariant) {
    const V3 dv = va - vb, d = xa.r - xb.r;
    const double dv2 = dot(dv, dv);
    if (dv2 * ma.t * ma.t * mb.t * mb.t < 1e-6) {
      r.time_defined = false;
      return r;
    }
    r.time = -dot(d, dv) / dv2;
  } else {
    // world lines in the frame where ma + mb = 0
    const V3 f = (ma.r + mb.r) * (1. / (ma.t + mb.t));
    const V4 qa = boost(ma, f), qb = boost(mb, f), ya = boost(xa, f),
             yb = boost(xb, f);
    const V3 wa = qa.r * (1. / qa.t), wb = qb.r * (1. / qb.t);
    const V3 dw = wa - wb;
    if (dot(dw, dw) < 1e-12) {
      r.time_defined = false;
      return r;
    }
    // positions at CM time 0
    const V3 a0 = ya.r - wa * ya.t, b0 = yb.r - wb * yb.t;
    const double T = -dot(a0 - b0, dw) / dot(dw, dw);
    const V3 neg{-f.x, -f.y, -f.z};
    const V4 ea = boost(V4{T, a0 + wa * T}, neg);
    const V4 eb = boost(V4{T, b0 + wb * T}, neg);
    r.time = 0.5 * ((ea.t - xa.t) + (eb.t - xb.t));
  }
  return r;
}

inline Approach approach(const smash::ParticleData &a,
                         const smash::ParticleData &b, V4 ma, V4 mb,
                         bool covariant) {
  return approach(v4(a.momentum()), v4(b.momentum()), v4(a.position()),
                  v4(b.position()), ma, mb, covariant);
}
}  // namespace
#endif
