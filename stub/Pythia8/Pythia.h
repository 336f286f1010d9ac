// Minimal stand-in for the parts of Pythia 8 that SMASH's sources name.
// It exists only so that those sources compile and link: string
// fragmentation is switched off in every check that uses them, and any call
// that would need real Pythia physics aborts loudly.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace Pythia8 {
[[noreturn]] inline void stub_called(const char *what) {
  throw std::logic_error(std::string("Pythia stub called: ") + what);
}

class Vec4 {
 public:
  Vec4(double x = 0., double y = 0., double z = 0., double t = 0.)
      : xx(x), yy(y), zz(z), tt(t) {}
  double px() const { return xx; }
  double py() const { return yy; }
  double pz() const { return zz; }
  double e() const { return tt; }
  void px(double v) { xx = v; }
  void py(double v) { yy = v; }
  void pz(double v) { zz = v; }
  void e(double v) { tt = v; }
  double m2Calc() const { return tt * tt - xx * xx - yy * yy - zz * zz; }
  double mCalc() const {
    const double t = m2Calc();
    return t >= 0 ? std::sqrt(t) : -std::sqrt(-t);
  }
  double pAbs() const { return std::sqrt(xx * xx + yy * yy + zz * zz); }
  double pAbs2() const { return xx * xx + yy * yy + zz * zz; }
  double pT() const { return std::sqrt(xx * xx + yy * yy); }
  Vec4 operator-() const { return Vec4(-xx, -yy, -zz, -tt); }
  Vec4 &operator+=(const Vec4 &v) {
    xx += v.xx, yy += v.yy, zz += v.zz, tt += v.tt;
    return *this;
  }
  Vec4 &operator-=(const Vec4 &v) {
    xx -= v.xx, yy -= v.yy, zz -= v.zz, tt -= v.tt;
    return *this;
  }
  Vec4 &operator*=(double f) {
    xx *= f, yy *= f, zz *= f, tt *= f;
    return *this;
  }
  Vec4 &operator/=(double f) { return *this *= 1. / f; }
  friend Vec4 operator+(Vec4 a, const Vec4 &b) { return a += b; }
  friend Vec4 operator-(Vec4 a, const Vec4 &b) { return a -= b; }
  friend Vec4 operator*(double f, Vec4 a) { return a *= f; }
  friend Vec4 operator*(Vec4 a, double f) { return a *= f; }
  friend Vec4 operator/(Vec4 a, double f) { return a /= f; }
  friend double operator*(const Vec4 &a, const Vec4 &b) {
    return a.tt * b.tt - a.xx * b.xx - a.yy * b.yy - a.zz * b.zz;
  }
  friend std::ostream &operator<<(std::ostream &os, const Vec4 &v) {
    return os << v.xx << " " << v.yy << " " << v.zz << " " << v.tt;
  }

 private:
  double xx, yy, zz, tt;
};

class Particle {
 public:
  Particle() = default;
  Particle(int id, int status, int col, int acol, Vec4 p, double m)
      : id_(id), status_(status), col_(col), acol_(acol), p_(p), m_(m) {}
  int id() const { return id_; }
  void id(int i) { id_ = i; }
  int idAbs() const { return std::abs(id_); }
  int status() const { return status_; }
  void status(int s) { status_ = s; }
  void statusNeg() { status_ = -std::abs(status_); }
  void statusPos() { status_ = std::abs(status_); }
  int mother1() const { return 0; }
  int mother2() const { return 0; }
  int daughter1() const { return 0; }
  int daughter2() const { return 0; }
  int col() const { return col_; }
  int acol() const { return acol_; }
  void col(int c) { col_ = c; }
  void acol(int c) { acol_ = c; }
  void cols(int c = 0, int a = 0) { col_ = c, acol_ = a; }
  Vec4 p() const { return p_; }
  void p(const Vec4 &v) { p_ = v; }
  void p(double x, double y, double z, double e) { p_ = Vec4(x, y, z, e); }
  double px() const { return p_.px(); }
  double py() const { return p_.py(); }
  double pz() const { return p_.pz(); }
  double e() const { return p_.e(); }
  void px(double v) { p_.px(v); }
  void py(double v) { p_.py(v); }
  void pz(double v) { p_.pz(v); }
  void e(double v) { p_.e(v); }
  double pAbs() const { return p_.pAbs(); }
  double pAbs2() const { return p_.pAbs2(); }
  double m() const { return m_; }
  double y() const {
    return 0.5 * std::log((p_.e() + p_.pz()) / (p_.e() - p_.pz()));
  }
  void m(double v) { m_ = v; }
  bool isFinal() const { return status_ > 0; }
  bool isHadron() const { return idAbs() > 100; }
  bool isLepton() const { return idAbs() > 10 && idAbs() < 19; }
  bool isDiquark() const {
    return idAbs() > 1000 && idAbs() < 10000 && (idAbs() / 10) % 10 == 0;
  }
  bool isGluon() const { return id_ == 21; }
  bool isQuark() const { return id_ != 0 && idAbs() < 9; }
  bool isParton() const { return isGluon() || isQuark() || isDiquark(); }
  int colType() const { return isGluon() ? 2 : isQuark() ? (id_ > 0 ? 1 : -1)
                                           : isDiquark() ? (id_ > 0 ? -1 : 1)
                                                         : 0; }

 private:
  int id_ = 0, status_ = 0, col_ = 0, acol_ = 0;
  Vec4 p_;
  double m_ = 0.;
};

class Event {
 public:
  int size() const { return static_cast<int>(v_.size()); }
  Particle &operator[](int i) { return v_.at(i); }
  const Particle &operator[](int i) const { return v_.at(i); }
  Particle &back() { return v_.back(); }
  void reset() {
    v_.clear();
    v_.emplace_back(90, -11, 0, 0, Vec4(), 0.);
  }
  void clear() { v_.clear(); }
  int append(const Particle &p) {
    v_.push_back(p);
    return size() - 1;
  }
  int append(int id, int status, int col, int acol, Vec4 p, double m = 0.) {
    return append(Particle(id, status, col, acol, p, m));
  }
  int append(int id, int status, int col, int acol, double px, double py,
             double pz, double e, double m = 0.) {
    return append(Particle(id, status, col, acol, Vec4(px, py, pz, e), m));
  }
  int append(int id, int status, int, int, int, int, int col, int acol, Vec4 p,
             double m = 0.) {
    return append(Particle(id, status, col, acol, p, m));
  }
  int copy(int i, int status = 0) {
    Particle p = v_.at(i);
    if (status) {
      p.status(status);
    }
    return append(p);
  }
  void remove(int first, int last, bool = true) {
    v_.erase(v_.begin() + first, v_.begin() + last + 1);
  }
  void popBack(int n = 1) {
    while (n-- > 0 && !v_.empty()) {
      v_.pop_back();
    }
  }
  int sizeJunction() const { return static_cast<int>(j_.size()); }
  int appendJunction(int kind, int c0, int c1, int c2) {
    j_.push_back({kind, c0, c1, c2});
    return sizeJunction() - 1;
  }
  int colJunction(int i, int k) const { return j_.at(i).at(1 + k); }
  int kindJunction(int i) const { return j_.at(i).at(0); }
  void eraseJunction(int i) { j_.erase(j_.begin() + i); }
  void clearJunctions() { j_.clear(); }
  int nextColTag() { return ++tag_; }
  int lastColTag() const { return tag_; }
  void list() const {}
  void listJunctions() const {}
  void init(std::string = "", void * = nullptr, int = 100) {}

 private:
  std::vector<Particle> v_;
  std::vector<std::vector<int>> j_;
  int tag_ = 100;
};

class ParticleDataEntry {
 public:
  bool isMeson() const { return false; }
};

class ParticleData {
 public:
  double m0(int id) const {
    auto it = m0_.find(id);
    return it == m0_.end() ? 0.33 : it->second;
  }
  void m0(int id, double m) { m0_[id] = m; }
  double mWidth(int) const { return 0.; }
  void mWidth(int, double) {}
  void tau0(int, double) {}
  double mMin(int) const { return 0.; }
  double mMax(int) const { return 0.; }
  void mMin(int, double) {}
  void mMax(int, double) {}
  bool isParticle(int) const { return true; }
  bool isHadron(int id) const { return std::abs(id) > 100; }
  bool isQuark(int id) const { return id != 0 && std::abs(id) < 9; }
  bool isDiquark(int id) const {
    const int a = std::abs(id);
    return a > 1000 && a < 10000 && (a / 10) % 10 == 0;
  }
  /// three times the baryon number
  int baryonNumberType(int id) const {
    const int s = id > 0 ? 1 : -1;
    return isQuark(id) ? s : isDiquark(id) ? 2 * s
                         : std::abs(id) % 10000 >= 1000 ? 3 * s : 0;
  }
  double mSel(int id) const { return m0(id); }
  bool isOctetHadron(int) const { return false; }
  bool isMeson(int id) const { return std::abs(id) % 10000 < 1000; }
  bool isBaryon(int id) const { return std::abs(id) % 10000 >= 1000; }
  int charge(int) const { return 0; }
  int chargeType(int) const { return 0; }
  int colType(int) const { return 0; }
  int heaviestQuark(int) const { return 0; }
  int nQuarksInCode(int id, int q) const {
    int a = std::abs(id), n = 0;
    for (int k = 10; k <= 1000; k *= 10) {
      n += (a / k) % 10 == q;
    }
    return n;
  }
  bool readString(const std::string &, bool = true) { return true; }
  void list(int) const {}

 private:
  std::map<int, double> m0_;
};

class Rndm {
 public:
  void init(int = 0) {}
  double flat() { stub_called("Rndm::flat"); }
  double gauss() { stub_called("Rndm::gauss"); }
};

class Settings {
 public:
  double parm(const std::string &) const { return 0.; }
  void parm(const std::string &, double, bool = false) {}
  int mode(const std::string &) const { return 0; }
  void mode(const std::string &, int, bool = false) {}
  bool flag(const std::string &) const { return false; }
  void flag(const std::string &, bool, bool = false) {}
};

class Info {
 public:
  ParticleData *particleDataPtr = nullptr;
  Rndm *rndmPtr = nullptr;
  Settings *settingsPtr = nullptr;
  bool isDiffractiveA() const { return false; }
  bool isDiffractiveB() const { return false; }
  bool isNonDiffractive() const { return true; }
  void errorMsg(const std::string &, const std::string & = "") {}
};

class SigmaTotal {
 public:
  void init() {}
  void initInfoPtr(Info &) {}
  bool calc(int, int, double) { stub_called("SigmaTotal::calc"); }
  double sigmaTot() const { return 0.; }
  double sigmaEl() const { return 0.; }
  double sigmaAX() const { return 0.; }
  double sigmaXB() const { return 0.; }
  double sigmaXX() const { return 0.; }
};

class FlavContainer {
 public:
  FlavContainer(int idIn = 0, int rankIn = 0, int nPopIn = 0, int idPopIn = 0,
                int idVtxIn = 0)
      : id(idIn), rank(rankIn), nPop(nPopIn), idPop(idPopIn), idVtx(idVtxIn) {}
  FlavContainer &anti(const FlavContainer &o) {
    *this = o;
    if (id != 21 && id != 22) {
      id = -id;
    }
    return *this;
  }
  FlavContainer &anti() {
    id = -id;
    return *this;
  }
  int id, rank, nPop, idPop, idVtx;
};

class StringFlav {
 public:
  void init() {}
  void init(Settings &, ParticleData *, Rndm *, Info *) {}
  void initInfoPtr(Info &) {}
  FlavContainer pick(FlavContainer &, double = -1., double = 0., bool = true) {
    stub_called("StringFlav::pick");
  }
  int combine(FlavContainer &, FlavContainer &) {
    stub_called("StringFlav::combine");
  }
  int combineId(int, int, bool = true) { stub_called("StringFlav::combineId"); }
};

class Pythia {
 public:
  Pythia(std::string = "", bool = true) {
    info_.particleDataPtr = &particleData;
    info_.rndmPtr = &rndm;
    info_.settingsPtr = &settings;
  }
  bool readString(const std::string &, bool = true) { return true; }
  bool init() { return true; }
  void setKinematics(double) {}
  bool next() { stub_called("Pythia::next"); }
  bool forceHadronLevel(bool = true) { stub_called("forceHadronLevel"); }
  double parm(const std::string &) const { return 0.; }

 private:
  Info info_;

 public:
  Event event;
  Event process;
  Settings settings;
  ParticleData particleData;
  Rndm rndm;
  const Info &info = info_;
};
}  // namespace Pythia8
