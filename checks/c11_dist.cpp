// C11: probability distributions.  Every (distribution, parameter set, abscissa / probability) of the
// lattices below, every SetParameters history up to a depth, and draw sequences against the reference
// generator; oracles: libm and boost::math (independent of /repo), and the closed forms.
#include "mc.hpp"
#include "vref.hpp"
#include <boost/math/distributions/binomial.hpp>
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/distributions/poisson.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <functional>
#include <memory>
#include <nrlib/exception/exception.hpp>
#include <nrlib/random/beta.hpp>
#include <nrlib/random/betawithendmass.hpp>
#include <nrlib/random/binomial.hpp>
#include <nrlib/random/chisquared.hpp>
#include <nrlib/random/delta.hpp>
#include <nrlib/random/fractal.hpp>
#include <nrlib/random/functions.hpp>
#include <nrlib/random/gamma.hpp>
#include <nrlib/random/generaldiscrete.hpp>
#include <nrlib/random/lognormal.hpp>
#include <nrlib/random/normal.hpp>
#include <nrlib/random/poisson.hpp>
#include <nrlib/random/splituniform.hpp>
#include <nrlib/random/triangular.hpp>
#include <nrlib/random/uniform.hpp>

typedef std::function<double(double)> F;
using std::vector;
static mc::MC* M;
static vector<double> PS;   // probability lattice in (0,1)

// mixed tolerance: relative above 1, absolute below (with a relative part in the tails)
static bool close(double a, double b, double rel, double abs_) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= rel * std::fabs(b) + abs_;
}
#define NEAR(a, b, rel, ab, ...) do { double a_ = (a), b_ = (b); M->step(); if (!close(a_, b_, rel, ab)) \
  M->fail(mc::fmt(__VA_ARGS__) + mc::fmt(": implementation %.17g, expected %.17g", a_, b_)); } while (0)

// a continuous distribution against its closed forms
static void cont(NRLib::Distribution<double>& D, const F& pdf, const F& cdf, const F& qua, const vector<double>& xs,
                 double tol = 1e-11, double qtol = 1e-9, bool ends = false) {
  for (double x : xs) {
    M->state();
    NEAR(D.Pdf(x), pdf(x), tol, 1e-300, "Pdf(%.17g)", x);
    NEAR(D.Cdf(x), cdf(x), tol, 1e-15, "Cdf(%.17g)", x);
    double c = D.Cdf(x);
    M->check(c >= 0 && c <= 1 && D.Pdf(x) >= 0, "Cdf(%.17g) = %.17g or Pdf outside their range", x, c);
  }
  double prev = -HUGE_VAL;
  for (double p : PS) {
    M->state();
    double q = D.Quantile(p);
    NEAR(q, qua(p), qtol, qtol * 1e-3, "Quantile(%.17g)", p);
    M->check(q >= prev, "Quantile decreases at p = %.17g", p);
    prev = q;
    NEAR(D.Cdf(q), p, 1e-8, 1e-14 + 1e-15 * std::fabs(q) * D.Pdf(q), "Cdf(Quantile(%.17g))", p);
  }
  if (ends) { NEAR(D.Quantile(0.0), qua(0.0), qtol, 1e-12, "Quantile(0)"); NEAR(D.Quantile(1.0), qua(1.0), qtol, 1e-12, "Quantile(1)"); }
}

// draws: the process-wide generator and an explicit one, interleaved, against the reference stream
template <class T> static void draws(const NRLib::Distribution<T>& D, const std::function<double(vref::Rng&)>& ref, double tol, int n = 12) {
  const uint32_t SE[] = {0u, 1u, 77u, 4294967295u};
  for (uint32_t s : SE) for (int pat = 0; pat < 4; pat++) {
    NRLib::Random::Initialize(s);
    NRLib::RandomGenerator g;
    g.Initialize(s ^ 5u);
    vref::Rng a(s), b(s ^ 5u);
    for (int i = 0; i < n; i++) {
      bool glob = pat == 0 || (pat == 2 && i % 2) || (pat == 3 && i % 3 == 0);
      double v = glob ? double(D.Draw()) : double(D.Draw(g));
      double e = ref(glob ? a : b);
      M->step();
      if (!close(v, e, tol, tol * 1e-2)) {
        M->fail(mc::fmt("seed %u, draw %d (pattern %d) from the %s generator: %.17g, expected %.17g", s, i, pat, glob ? "process-wide" : "explicit", v, e));
        return;
      }
    }
    // neither generator has been moved by more than the draws made from it
    double ua = NRLib::Random::Unif01(), ub = g.Unif01();
    if (ua != a.unif() || ub != b.unif()) M->fail(mc::fmt("seed %u pattern %d: the generators are not where the draws should have left them", s, pat));
  }
}

template <class T> static void clone_check(const NRLib::Distribution<T>& D, const vector<double>& xs, const vector<double>& ps) {
  std::unique_ptr<NRLib::Distribution<T>> c(D.Clone());
  for (double x : xs) { M->step(); M->check(close(c->Pdf(T(x)), D.Pdf(T(x)), 0, 0) && close(c->Cdf(T(x)), D.Cdf(T(x)), 0, 0), "the clone differs at x = %.17g", x); }
  for (double p : ps) { M->step(); M->check(c->Quantile(p) == D.Quantile(p), "the clone's Quantile(%.17g) differs", p); }
  M->check(typeid(*c) == typeid(D), "the clone has another type");
}

static double ncdf(double z) { return 0.5 * std::erfc(-z * M_SQRT1_2); }
static double nqua(double p) { return -M_SQRT2 * boost::math::erfc_inv(2 * p); }
static double npdf(double z) { return std::exp(-0.5 * z * z) / std::sqrt(2 * M_PI); }

static vector<double> around(double m, double s) {
  vector<double> v;
  const double Z[] = {-9, -6.5, -5, -4, -3, -2.5, -2, -1.5, -1, -0.75, -0.5, -0.25, -0.1, -1e-3, 0, 1e-3, 0.1, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3, 4, 5, 6.5, 9};
  for (double z : Z) v.push_back(m + s * z);
  return v;
}
static vector<double> lattice(double a, double b, int n = 41) {
  vector<double> v;
  double w = b - a;
  for (int i = 0; i <= n; i++) v.push_back(a + w * (double(i) / n));
  v.push_back(a - w); v.push_back(a - 1e-9 * w); v.push_back(b + 1e-9 * w); v.push_back(b + w); v.push_back(a + 1e-9 * w); v.push_back(b - 1e-9 * w);
  v.back() = b - 1e-9 * w;
  return v;
}

struct P3 { double a, b, c; };

static void normal_all(NRLib::Normal& D, double mu, double sd) {
  cont(D, [=](double x) { return npdf((x - mu) / sd) / sd; }, [=](double x) { return ncdf((x - mu) / sd); },
       [=](double p) { return mu + sd * nqua(p); }, around(mu, sd));
}
static void lognormal_all(NRLib::LogNormal& D, double mu, double sd) {
  vector<double> xs;
  for (double z : around(mu, sd)) xs.push_back(std::exp(z));
  cont(D, [=](double x) { return npdf((std::log(x) - mu) / sd) / (sd * x); }, [=](double x) { return ncdf((std::log(x) - mu) / sd); },
       [=](double p) { return std::exp(mu + sd * nqua(p)); }, xs, 1e-9);
}
static void uniform_all(NRLib::Uniform& D, double a, double b) {
  cont(D, [=](double x) { return x < a || x > b ? 0 : 1 / (b - a); }, [=](double x) { return x <= a ? 0 : x >= b ? 1 : (x - a) / (b - a); },
       [=](double p) { return a + p * (b - a); }, lattice(a, b), 1e-9, 1e-9, true);
}
static void tri_all(NRLib::Triangular& D, double a, double c, double b) {
  vector<double> xs = lattice(a, b);
  xs.push_back(c);
  cont(D, [=](double x) { return x < a || x > b ? 0 : x == c ? 2 / (b - a) : x < c ? 2 * (x - a) / ((c - a) * (b - a)) : 2 * (b - x) / ((b - c) * (b - a)); },
       [=](double x) { return x <= a ? 0 : x >= b ? 1 : x <= c ? (x - a) * (x - a) / ((c - a) * (b - a)) : 1 - (b - x) * (b - x) / ((b - c) * (b - a)); },
       [=](double p) { double p0 = (c - a) / (b - a); return p <= p0 ? a + std::sqrt((b - a) * (c - a) * p) : b - std::sqrt((b - a) * (b - c) * (1 - p)); }, xs, 1e-8, 1e-8, true);
}
static void split_all(NRLib::SplitUniform& D, double a, double c, double b) {
  vector<double> xs = lattice(a, b);
  cont(D, [=](double x) { return x < a || x > b ? 0 : x < c ? 0.5 / (c - a) : x > c ? 0.5 / (b - c) : 0.25 / (c - a) + 0.25 / (b - c); },
       [=](double x) { return x <= a ? 0 : x >= b ? 1 : x <= c ? 0.5 * (x - a) / (c - a) : 0.5 + 0.5 * (x - c) / (b - c); },
       [=](double p) { return p <= 0.5 ? a + 2 * p * (c - a) : c + (2 * p - 1) * (b - c); }, xs, 1e-8, 1e-8, true);
  M->step();
  NEAR(D.Pdf(c), 0.25 / (c - a) + 0.25 / (b - c), 1e-9, 0, "Pdf at the split point");
}

// reference Poisson sampler: inversion below 10, Hormann's PTRD-type transformed rejection above
static double ref_poisson(vref::Rng& r, double lam) {
  if (lam < 10) {
    double p = std::exp(-lam), u = r.unif();
    int x = 0;
    while (u > p) { u = u - p; ++x; p = lam * p / x; }
    return x;
  }
  double smu = std::sqrt(lam), b = 0.931 + 2.53 * smu, a = -0.059 + 0.02483 * b, ia = 1.1239 + 1.1328 / (b - 3.4), vr = 0.9277 - 3.6224 / (b - 2);
  for (;;) {
    double u, v = r.unif();
    if (v <= 0.86 * vr) { u = v / vr - 0.43; return std::floor((2 * a / (0.5 - std::fabs(u)) + b) * u + lam + 0.445); }
    if (v >= vr) u = r.unif() - 0.5;
    else { u = v / vr - 0.93; u = (u < 0 ? -0.5 : 0.5) - u; v = r.unif() * vr; }
    double us = 0.5 - std::fabs(u);
    if (us < 0.013 && v > us) continue;
    double k = std::floor((2 * a / us + b) * u + lam + 0.445);
    v = v * ia / (a / (us * us) + b);
    if (k >= 10) { if (std::log(v * smu) <= (k + 0.5) * std::log(lam / k) - lam - 0.91893853320467267 + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k) return k; }
    else if (k >= 0) { if (std::log(v) <= k * std::log(lam) - lam - std::lgamma(k + 1)) return k; }
  }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  M = &m;
  const bool th = m.thorough();
  {
    const double T[] = {1e-12, 1e-9, 1e-6, 1e-5, 1e-4, 1e-3};
    for (double t : T) PS.push_back(t);
    int n = th ? 400 : 100;
    for (int i = 1; i < n; i++) PS.push_back(double(i) / n);
    PS.push_back(0.999); PS.push_back(0.9999); PS.push_back(1 - 1e-6); PS.push_back(1 - 1e-9);
    std::sort(PS.begin(), PS.end());
    PS.erase(std::unique(PS.begin(), PS.end()), PS.end());
  }

  m.part = "special functions";
  for (int k = 0; k < 8; k++) {
    if (!m.next()) continue;
    m.begin("special function group %d", k);
    int n = th ? 40000 : 4000;
    if (k == 0 || k == 1) for (int i = -n; i <= n; i++) {
      double z = 28.0 * i / n;
      if (k) z *= 0.1;
      m.state();
      NEAR(NRLib::erf(z), std::erf(z), 1e-13, 0, "erf(%.17g)", z);
      NEAR(NRLib::erfc(z), std::erfc(z), 1e-12, 1e-300, "erfc(%.17g)", z);
    }
    if (k == 2) for (int i = -n + 1; i < n; i++) {
      double z = double(i) / n;
      m.state();
      NEAR(NRLib::erf_inv(z), boost::math::erf_inv(z), 1e-12, 1e-300, "erf_inv(%.17g)", z);
      NEAR(NRLib::erfc_inv(1 + z), boost::math::erfc_inv(1 + z), 1e-12, 1e-15, "erfc_inv(%.17g)", 1 + z);
    }
    if (k == 3) for (double e = -300; e <= -1; e += th ? 0.125 : 0.5) {
      double z = std::pow(10.0, e);
      m.state();
      NEAR(NRLib::erfc_inv(z), boost::math::erfc_inv(z), 1e-12, 0, "erfc_inv(%.17g)", z);
      NEAR(NRLib::erf_inv(z), boost::math::erf_inv(z), 1e-12, 0, "erf_inv(%.17g)", z);
      NEAR(NRLib::erf_inv(-z), -boost::math::erf_inv(z), 1e-12, 0, "erf_inv(%.17g)", -z);
      if (e > -15) NEAR(NRLib::erf_inv(1 - z), boost::math::erf_inv(1 - z), 1e-10, 0, "erf_inv(1-%.17g)", z);
      for (double bad : {0.0, -z, 2.0, 2.0 + z, -1.0}) {
        bool t = false;
        if (bad == -z && z < 1e-290) continue;
        try { NRLib::erfc_inv(bad); } catch (NRLib::Exception&) { t = true; }
        m.check(t, "erfc_inv(%.17g) did not raise", bad);
      }
      for (double bad : {1.0, -1.0, 1.5, -7.0}) {
        bool t = false;
        try { NRLib::erf_inv(bad); } catch (NRLib::Exception&) { t = true; }
        m.check(t, "erf_inv(%.17g) did not raise", bad);
      }
    }
    if (k == 4) for (double x = 1.0 / 64; x < 400; x *= th ? 1.02 : 1.1) { m.state(); NEAR(NRLib::gammln(x), std::lgamma(x), 1e-12, 1e-13, "gammln(%.17g)", x); }
    if (k == 5) for (double a : {0.05, 0.1, 0.5, 0.9, 1.0, 1.5, 2.0, 3.0, 7.5, 10.0, 25.0, 50.5, 99.0, 99.9, 100.0, 100.5, 150.0, 400.0})
      for (double r : {0.0, 1e-6, 1e-3, 0.01, 0.1, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 1.0, 1.01, 1.05, 1.1, 1.2, 1.3, 1.5, 2.0, 3.0, 5.0, 10.0}) {
        double x = r * a;
        m.state();
        double e = x == 0 ? 0 : boost::math::gamma_p(a, x);
        NEAR(NRLib::gammp(a, x), e, a >= 100 ? 1e-7 : 1e-10, a >= 100 ? 1e-9 : 1e-14, "gammp(%g, %.17g)", a, x);
      }
    if (k == 6) for (double a : {0.05, 0.1, 0.5, 0.9, 1.0, 1.5, 2.0, 3.0, 7.5, 10.0, 25.0, 50.5, 99.0, 99.9, 100.0, 150.0})
      for (double p : PS) {
        if (p < 1e-6 || p > 1 - 1e-7) continue;
        m.state();
        double x = NRLib::invgammp(p, a);
        double back = x > 0 ? boost::math::gamma_p(a, x) : 0;
        NEAR(back, p, 1e-6, a < 0.2 ? 1e-9 : 1e-12, "gamma_p(%g, invgammp(%.17g))", a, p);
      }
    if (k == 7) for (int nn = 0; nn <= 60; nn++) {
      double c = 1;
      for (int kk = 0; kk <= nn; kk++) {
        m.state();
        NEAR(NRLib::bico(nn, kk), c, 1e-11, 0, "bico(%d, %d)", nn, kk);
        c = std::floor(c * (nn - kk) / (kk + 1) + 0.5);
      }
    }
  }

  m.part = "normal";
  {
    const P3 PR[] = {{0, 1, 0}, {3.5, 0.25, 0}, {-1000, 12, 0}, {0, 1e-6, 0}, {5, 1e5, 0}, {-2, 1, 0}};
    for (auto& q : PR) {
      if (!m.next()) continue;
      double mu = q.a, sd = q.b;
      m.begin("Normal(%g, %g)", mu, sd);
      NRLib::Normal D(mu, sd);
      normal_all(D, mu, sd);
      clone_check<double>(D, around(mu, sd), PS);
      draws<double>(D, [=](vref::Rng& r) { return mu + sd * r.norm(); }, 1e-12);
      for (double x : around(mu, sd)) {
        NEAR(D.Potential(x), 0.5 * std::log(2 * M_PI * sd * sd) + 0.5 * (x - mu) * (x - mu) / (sd * sd), 1e-11, 1e-11, "Potential(%.17g)", x);
        for (double lo : {-1.0, 0.0, 0.5}) for (double hi : {0.75, 2.0}) {
          double a = mu + lo * sd, b = mu + hi * sd;
          NEAR(D.PotentialTwoSidedTruncated(x, a, b), D.Potential(x) + std::log(ncdf(hi) - ncdf(lo)), 1e-9, 1e-9, "PotentialTwoSidedTruncated(%.17g, %.17g, %.17g)", x, a, b);
        }
        if (x > 0) {
          double s0 = 1 - ncdf(-mu / sd);
          if (s0 > 1e-9) NEAR(D.PotentialZeroTruncated(x), D.Potential(x) + std::log(s0), 1e-9, 1e-9, "PotentialZeroTruncated(%.17g)", x);
          NEAR(D.PotentialLowerTruncated(x, mu + 0.5 * sd), D.Potential(x) + std::log(1 - ncdf(0.5)), 1e-9, 1e-9, "PotentialLowerTruncated(%.17g)", x);
        }
      }
      for (double p : PS) {
        m.state();
        NEAR(ncdf((D.PhiInverse(p) - mu) / sd), p, 0, 1e-7, "Cdf(PhiInverse(%.17g))", p);
        NEAR(NRLib::Normal::Quantile01(p), nqua(p), 1e-9, 1e-12, "Quantile01(%.17g)", p);
      }
      m.check(D.PhiInverse(0) == -HUGE_VAL && D.PhiInverse(1) == HUGE_VAL, "PhiInverse(0), PhiInverse(1) are not minus and plus infinity");
      for (double bad : {-0.1, 1.1}) { bool t = false; try { D.PhiInverse(bad); } catch (NRLib::Exception&) { t = true; } m.check(t, "PhiInverse(%g) did not raise", bad); }
    }
    // truncated draws: the distribution function of the truncated law at the value drawn is the uniform number drawn
    const double SD[] = {1, 0.25, 40};
    for (double mu : {0.0, -3.0, 100.0}) for (double sd : SD) for (int kind = 0; kind < 3; kind++)
      for (double lo : {-4.0, -2.0, -1.0, 0.0, 0.5, 1.5, 3.0}) for (double wd : {0.1, 1.0, 3.0}) {
        if (kind < 2 && wd != 1.0) continue;
        if (!m.next()) continue;
        double L = mu + lo * sd, U = kind == 2 ? mu + (lo + wd) * sd : L;
        m.begin("Normal(%g, %g) truncated, kind %d, bounds %.17g %.17g", mu, sd, kind, L, U);
        NRLib::Normal D(mu, sd);
        for (uint32_t s : {1u, 99u, 4294967295u}) {
          NRLib::Random::Initialize(s);
          NRLib::RandomGenerator g;
          g.Initialize(s);
          vref::Rng r(s);
          for (int i = 0; i < (th ? 60 : 20); i++) {
            m.state();
            m.step(2);
            double a = kind == 0 ? D.DrawLowerTruncated(L) : kind == 1 ? D.DrawUpperTruncated(U) : D.DrawTwoSidedTruncated(L, U);
            double b = kind == 0 ? D.DrawLowerTruncated(L, g) : kind == 1 ? D.DrawUpperTruncated(U, g) : D.DrawTwoSidedTruncated(L, U, g);
            if (!m.check(a == b, "the process-wide and the explicit generator give %.17g and %.17g from the same state", a, b)) break;
            double eps = 1e-9 * (std::fabs(mu) + std::fabs(sd));
            if (!m.check(std::isfinite(a) && (kind == 1 || a >= L - eps) && (kind == 0 || a <= U + eps), "draw %d is %.17g, outside the bounds", i, a)) break;
            double pl = kind == 1 ? 0 : ncdf((L - mu) / sd), pu = kind == 0 ? 1 : ncdf((U - mu) / sd);
            double u = (ncdf((a - mu) / sd) - pl) / (pu - pl);
            // one uniform per draw here (no rejection inside these bounds beyond rounding)
            double e = r.unif_open();
            if (kind == 1) e = 1 - e;
            if (!m.check(std::fabs(u - e) < 1e-5, "seed %u, draw %d is %.17g: its truncated distribution function is %.12g, the uniform drawn %.12g", s, i, a, u, e)) break;
          }
        }
      }
    // zero variance and misuse
    for (int k = 0; k < 6; k++) {
      if (!m.next()) continue;
      m.begin("degenerate truncation %d", k);
      m.state();
      NRLib::Normal Z(2, 0), D(0, 1);
      NRLib::RandomGenerator g;
      g.Initialize(1);
      NRLib::Random::Initialize(1);
      auto thr = [&](std::function<double()> f) { try { f(); return false; } catch (NRLib::Exception&) { return true; } };
      if (k == 0) m.check(Z.DrawLowerTruncated(1) == 2 && Z.DrawLowerTruncated(1, g) == 2 && Z.DrawUpperTruncated(3) == 2 && Z.DrawUpperTruncated(3, g) == 2 && Z.DrawTwoSidedTruncated(1, 3) == 2 && Z.DrawTwoSidedTruncated(1, 3, g) == 2, "zero variance, mean inside: not the mean");
      if (k == 1) m.check(thr([&] { return Z.DrawLowerTruncated(2.5); }) && thr([&] { return Z.DrawLowerTruncated(2.5, g); }), "zero variance below the lower bound did not raise");
      if (k == 2) m.check(thr([&] { return Z.DrawUpperTruncated(1.5); }) && thr([&] { return Z.DrawUpperTruncated(1.5, g); }), "zero variance above the upper bound did not raise");
      if (k == 3) m.check(thr([&] { return Z.DrawTwoSidedTruncated(3, 4); }) && thr([&] { return Z.DrawTwoSidedTruncated(0, 1, g); }) && thr([&] { return Z.DrawTwoSidedTruncated(0, 1); }) && thr([&] { return Z.DrawTwoSidedTruncated(3, 4, g); }), "zero variance outside the interval did not raise");
      if (k == 4) m.check(thr([&] { return D.DrawTwoSidedTruncated(1, 0); }) && thr([&] { return D.DrawTwoSidedTruncated(1, 0, g); }), "an empty interval did not raise");
      if (k == 5) for (double lo : {6.0, 8.0, 20.0, -30.0}) { double a = D.DrawTwoSidedTruncated(lo, lo + 1), b = D.DrawTwoSidedTruncated(lo, lo + 1, g), c = D.DrawLowerTruncated(lo), d = D.DrawUpperTruncated(-lo);
        m.check(a >= lo && a <= lo + 1 && b >= lo && b <= lo + 1 && c >= lo && d <= -lo, "a far-tail truncated draw left its interval (%g: %g %g %g %g)", lo, a, b, c, d); }
    }
  }

  m.part = "lognormal";
  for (double mu : {0.0, -2.0, 1.5}) for (double sd : {1.0, 0.1, 2.0}) {
    if (!m.next()) continue;
    m.begin("LogNormal(%g, %g)", mu, sd);
    NRLib::LogNormal D(mu, sd);
    lognormal_all(D, mu, sd);
    vector<double> xs;
    for (double z : around(mu, sd)) xs.push_back(std::exp(z));
    clone_check<double>(D, xs, PS);
    draws<double>(D, [=](vref::Rng& r) { return std::exp(mu + sd * r.norm()); }, 1e-11);
  }

  m.part = "uniform";
  for (double a : {0.0, -7.25, 1e4}) for (double w : {1.0, 1e-3, 500.0}) {
    if (!m.next()) continue;
    m.begin("Uniform(%g, %g)", a, a + w);
    NRLib::Uniform D(a, a + w);
    double b = a + w;
    uniform_all(D, a, b);
    clone_check<double>(D, lattice(a, b), PS);
    draws<double>(D, [=](vref::Rng& r) { return a + r.unif() * (b - a); }, 1e-13);
  }
  m.part = "triangular";
  for (double a : {-1.0, 0.0, 10.0}) for (double w : {2.0, 0.5, 30.0}) for (double f : {0.0, 0.125, 0.5, 0.9, 1.0}) {
    if (!m.next()) continue;
    double b = a + w, c = a + f * w;
    m.begin("Triangular(%g, %g, %g)", a, c, b);
    NRLib::Triangular D(a, c, b);
    tri_all(D, a, c, b);
    clone_check<double>(D, lattice(a, b), PS);
    draws<double>(D, [=](vref::Rng& r) { double p = r.unif(), p0 = (c - a) / (b - a); return p <= p0 ? a + std::sqrt((b - a) * (c - a) * p) : b - std::sqrt((b - a) * (b - c) * (1 - p)); }, 1e-10);
  }
  m.part = "split uniform";
  for (double a : {0.0, -3.0}) for (double w : {1.0, 8.0}) for (double f : {0.125, 0.5, 0.75}) {
    if (!m.next()) continue;
    double b = a + w, c = a + f * w;
    m.begin("SplitUniform(%g, %g, %g)", a, c, b);
    NRLib::SplitUniform D(a, c, b);
    split_all(D, a, c, b);
    clone_check<double>(D, lattice(a, b), PS);
    draws<double>(D, [=](vref::Rng& r) { double p = r.unif(); return p <= 0.5 ? a + 2 * p * (c - a) : c + (2 * p - 1) * (b - c); }, 1e-12);
  }
  m.part = "delta";
  for (double v : {0.0, -4.5, 1e9}) {
    if (!m.next()) continue;
    m.begin("Delta(%g)", v);
    NRLib::Delta D(v);
    for (double x : {v - 1, v, v + 1}) { m.state(); m.step(); m.check(D.Cdf(x) == (x >= v ? 1.0 : 0.0) && D.Pdf(x) == (x == v ? HUGE_VAL : 0.0), "Pdf/Cdf at %g", x); }
    for (double p : {0.0, 0.3, 1.0}) m.check(D.Quantile(p) == v, "Quantile(%g)", p);
    clone_check<double>(D, {v - 1, v, v + 1}, {0.1, 0.9});
    draws<double>(D, [=](vref::Rng& r) { r.unif(); return v; }, 0);
  }
  m.part = "fractal";
  for (double a : {0.5, 1.0, 20.0}) for (double f : {1.5, 4.0, 100.0}) for (double dim : {0.5, 1.0, 1.7, 3.0}) {
    if (!m.next()) continue;
    double b = a * f;
    m.begin("Fractal(%g, %g, %g)", a, b, dim);
    NRLib::Fractal D(a, b, dim);
    double pa = std::pow(a, -dim), pb = std::pow(b, -dim);
    vector<double> xs = lattice(a, b);
    xs.erase(std::remove_if(xs.begin(), xs.end(), [&](double x) { return x <= 0; }), xs.end());
    cont(D, [=](double x) { return x <= a || x >= b ? 0 : dim / (pa - pb) * std::pow(x, -dim - 1); }, [=](double x) { return x <= a ? 0 : x >= b ? 1 : (pa - std::pow(x, -dim)) / (pa - pb); },
         [=](double p) { return std::pow((1 - p) * pa + p * pb, -1 / dim); }, xs, 1e-7, 1e-8, true);
    m.check(D.GetMin() == a, "GetMin");
    clone_check<double>(D, xs, PS);
    auto Q = [=](double p) { return std::pow((1 - p) * pa + p * pb, -1 / dim); };
    draws<double>(D, [=](vref::Rng& r) { return Q(r.unif()); }, 1e-9);
    for (uint32_t s : {1u, 31u}) {
      NRLib::Random::Initialize(s);
      vref::Rng r(s);
      for (int i = 0; i < 10; i++) for (double q : {0.0, 0.25, 0.75, 1.0}) {
        m.state();
        double u = r.unif();
        NEAR(D.DrawFromUpperQuantile(q), Q(1 - u * (1 - q)), 1e-8, 1e-10, "DrawFromUpperQuantile(%g), uniform %.12g", q, u);
        u = r.unif();
        NEAR(D.DrawFromLowerQuantile(q), Q(u * q), 1e-8, 1e-10, "DrawFromLowerQuantile(%g), uniform %.12g", q, u);
        double qu = 0.5 * (1 + q);
        if (qu > q) { u = r.unif(); NEAR(D.DrawFromMiddleQuantile(q, qu), Q(q + u * (qu - q)), 1e-8, 1e-10, "DrawFromMiddleQuantile(%g, %g), uniform %.12g", q, qu, u); }
        for (double lf : {0.5, 1.0, 1.25}) {
          double lim = a * lf, pl = lim >= a ? std::pow(lim, -dim) : pa;
          u = r.unif();
          NEAR(D.DrawFromUpperQuantile(q, true, lim), std::pow(pb + u * (pl - pb) * (1 - q), -1 / dim), 1e-8, 1e-10, "DrawFromUpperQuantile(%g, limit %g)", q, lim);
        }
      }
    }
  }
  m.part = "chi squared";
  for (double df : {0.5, 1.0, 2.0, 3.0, 4.5, 10.0, 50.0, 150.0}) {
    if (!m.next()) continue;
    m.begin("ChiSquared(%g)", df);
    NRLib::ChiSquared D(df);
    boost::math::chi_squared B(df);
    for (double r : {-1.0, -1e-3, 1e-4, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 3.0, 5.0, 8.0}) {
      double x = r * df;
      m.state();
      NEAR(D.Pdf(x), x < 0 ? 0 : boost::math::pdf(B, x), 1e-9, 1e-300, "Pdf(%g)", x);
      NEAR(D.Cdf(x), x < 0 ? 0 : boost::math::cdf(B, x), 1e-9, 1e-12, "Cdf(%g)", x);
    }
    for (double p : PS) if (p >= 1e-6 && p <= 1 - 1e-7) { m.state(); NEAR(boost::math::cdf(B, D.Quantile(p)), p, 1e-6, 1e-9, "Cdf(Quantile(%.17g))", p); }
    clone_check<double>(D, {-1.0, 0.5, 3.0, 40.0}, {0.1, 0.5, 0.9});
    draws<double>(D, [=](vref::Rng& r) { return 2 * boost::math::gamma_p_inv(0.5 * df, r.unif()); }, 1e-6);
  }
  m.part = "poisson";
  for (double lam : {0.1, 0.5, 1.0, 2.5, 5.0, 9.99, 10.0, 12.5, 30.0, 80.0, 150.0, 500.0, 1000.0, 5000.0}) {
    if (!m.next()) continue;
    m.begin("Poisson(%g)", lam);
    NRLib::Poisson D(lam);
    boost::math::poisson B(lam);
    for (int x = -3; x < 3 * lam + 25; x++) {
      m.state();
      NEAR(D.Pdf(x), x < 0 ? 0 : boost::math::pdf(B, x), 1e-9, 1e-300, "Pdf(%d)", x);
      NEAR(D.Cdf(x), x < 0 ? 0 : boost::math::cdf(B, x), 1e-7, 1e-9, "Cdf(%d)", x);
    }
    for (double p : PS) if (p <= 1 - 1e-7) {
      m.state();
      int q = D.Quantile(p);
      double c = boost::math::cdf(B, q), d = q > 0 ? boost::math::cdf(B, q - 1) : 0;
      m.check(q >= 0 && c >= p - 1e-8 && d <= p + 1e-8, "Quantile(%.17g) = %d, Cdf there %.12g, below %.12g", p, q, c, d);
    }
    vector<double> xs;
    for (int x = 0; x < 40; x++) xs.push_back(x);
    clone_check<int>(D, xs, {0.1, 0.5, 0.99});
    draws<int>(D, [=](vref::Rng& r) { return ref_poisson(r, lam); }, 0, th ? 200 : 40);
  }
  m.part = "binomial";
  for (int n : {0, 1, 2, 3, 5, 10, 20, 33, 60, 150, 256, 400, 1000}) for (double p : {0.0, 0.01, 0.1, 0.3, 0.5, 0.75, 0.99, 1.0}) {
    if (!m.next()) continue;
    m.begin("Binomial(%d, %g)", n, p);
    NRLib::Binomial D(n, p);
    boost::math::binomial B(n, p);
    vector<double> xs;
    auto bp = [&](int x) { return x < 0 || x > n ? 0 : p == 0 ? double(x == 0) : p == 1 ? double(x == n) : boost::math::pdf(B, x); };
    vector<double> cdf(n + 1);
    double s = 0;
    for (int x = 0; x <= n; x++) cdf[x] = s += bp(x);
    for (int x = -2; x <= n + 2; x++) {
      m.state();
      xs.push_back(x);
      NEAR(D.Pdf(x), bp(x), n > 100 ? 1e-7 : 1e-9, n > 100 ? 1e-14 : 1e-300, "Pdf(%d)", x);
      NEAR(D.Cdf(x), x < 0 ? 0 : x >= n ? 1 : cdf[x], 1e-9, 1e-14, "Cdf(%d)", x);
    }
    vector<double> ps = PS;
    ps.push_back(1.0);
    ps.push_back(1 - 1e-16 * 2);
    for (double q : ps) {
      m.state();
      int v = D.Quantile(q);
      m.check(v >= 0 && v <= n, "Quantile(%.17g) = %d", q, v);
      if (v < 0 || v > n) break;
      m.check(cdf[v] >= q - 1e-10 && (v == 0 || cdf[v - 1] <= q + 1e-10), "Quantile(%.17g) = %d, Cdf there %.12g, below %.12g", q, v, cdf[v], v ? cdf[v - 1] : 0);
      m.check(q < 1 || v == n || cdf[v] >= 1 - 1e-12, "Quantile(1) = %d", v);
    }
    clone_check<int>(D, xs, PS);
    draws<int>(D, [=](vref::Rng& r) { double u = r.unif(); int v = 0; while (v < n && cdf[v] <= u) v++; return v; }, 0);
  }
  m.part = "general discrete";
  {
    const int W[] = {0, 1, 2, 3, 7};
    for (int n = 1; n <= (th ? 5 : 4); n++) mc::sequences(5, n, [&](const vector<int>& s) {
      double tot = 0;
      for (int i : s) tot += W[i];
      if (tot == 0 || !m.next()) return;
      vector<double> h, c;
      double acc = 0;
      for (int i : s) { h.push_back(W[i] * 0.1); acc += W[i]; c.push_back(acc / tot); }
      std::string t;
      for (double x : h) t += mc::fmt("%g ", x);
      m.begin("GeneralDiscrete [%s]", t.c_str());
      NRLib::GeneralDiscrete D(h);
      m.check(D.GetN() == h.size(), "GetN");
      for (int i = 0; i < n; i++) { m.state(); NEAR(D.Pdf(i), W[s[i]] / tot, 1e-12, 1e-15, "Pdf(%d)", i); NEAR(D.Cdf(i), c[i], 1e-12, 1e-14, "Cdf(%d)", i); }
      vector<double> ps = PS;
      ps.push_back(1.0);
      ps.push_back(1 - 1e-16);
      for (double p : ps) {
        m.state();
        m.step();
        int v = D.Quantile(p);
        if (!m.check(v >= 0 && v < n && c[v] >= p - 1e-12 && (v == 0 || c[v - 1] <= p + 1e-12) && (W[s[v]] > 0 || p > 1 - 1e-12), "Quantile(%.17g) = %d", p, v)) break;
      }
      clone_check<int>(D, {0}, PS);
      NRLib::Random::Initialize(3);
      NRLib::RandomGenerator g;
      g.Initialize(3);
      vref::Rng r(3);
      for (int i = 0; i < 6; i++) { double u = r.unif(); int v = 0; while (v < n - 1 && c[v] < u) v++; int a = D.Draw(), b = D.Draw(g); m.check(a == v && b == v, "draw %d: %d / %d, expected %d", i, a, b, v); }
    });
  }
  m.part = "general discrete, long";
  for (int n : {12, 31, 64, 200, 1000}) for (int kind = 0; kind < 4; kind++) {
    if (!m.next()) continue;
    m.begin("GeneralDiscrete of %d weights, pattern %d", n, kind);
    vector<double> h(n), c(n);
    double tot = 0, acc = 0;
    for (int i = 0; i < n; i++) { h[i] = kind == 0 ? 1 : kind == 1 ? i % 3 : kind == 2 ? (i == n - 2) + 1e-3 : i * 5.0 + 1; tot += h[i]; }
    for (int i = 0; i < n; i++) { acc += h[i]; c[i] = acc / tot; }
    NRLib::GeneralDiscrete D(h);
    m.check(D.GetN() == h.size(), "GetN");
    for (int i = 0; i < n; i++) { m.state(); NEAR(D.Pdf(i), h[i] / tot, 1e-11, 1e-15, "Pdf(%d)", i); NEAR(D.Cdf(i), c[i], 1e-11, 1e-14, "Cdf(%d)", i); }
    vector<double> ps = PS;
    for (int i = 0; i < n; i++) { ps.push_back(c[i] - 1e-9); if (c[i] + 1e-9 < 1) ps.push_back(c[i] + 1e-9); }
    for (double p : ps) if (p > 0 && p < 1) {
      m.step();
      int v = D.Quantile(p);
      if (!m.check(v >= 0 && v < n && c[v] >= p - 1e-12 && (v == 0 || c[v - 1] <= p + 1e-12), "Quantile(%.17g) = %d", p, v)) break;
    }
    NRLib::Random::Initialize(3);
    NRLib::RandomGenerator g;
    g.Initialize(3);
    vref::Rng r(3);
    for (int i = 0; i < 50; i++) { double u = r.unif(); int v = 0; while (v < n - 1 && c[v] < u) v++; int a = D.Draw(), b = D.Draw(g); m.check(a == v && b == v, "draw %d: %d / %d, expected %d", i, a, b, v); }
  }
  m.part = "beta";
  for (int nx : {200, 1000}) for (double lo : {0.0, -2.0, 50.0}) for (double w : {1.0, 7.0}) for (double a : {1.0, 1.5, 2.0, 5.0, 30.0}) for (double b : {1.0, 2.0, 4.5}) {
    if (!m.next()) continue;
    double hi = lo + w, dx = 1.0 / nx;
    m.begin("Beta(%g, %g, %g, %g, %d)", lo, hi, a, b, nx);
    NRLib::Beta D(lo, hi, a, b, nx);
    m.check(D.GetMinVal() == lo && D.GetMaxVal() == hi && D.GetInterval() == hi - lo, "GetMinVal/GetMaxVal/GetInterval");
    for (int i = -3; i <= 103; i++) {
      double t = i / 100.0, x = lo + w * t;
      m.state();
      if (t <= 0 || t >= 1) { NEAR(D.Cdf(x), t <= 0 ? 0 : 1, 0, 1e-12, "Cdf(%g)", x); if (t < -1e-9 || t > 1 + 1e-9) NEAR(D.Pdf(x), 0, 0, 0, "Pdf(%g)", x); continue; }
      NEAR(D.Cdf(x), boost::math::ibeta(a, b, t), 0, 3 * dx * dx * (a + b) * (a + b), "Cdf(%g)", x);
      // tabulated per cell: within the density's variation over one cell either side
      double pmin = HUGE_VAL, pmax = 0;
      for (int k = -4; k <= 4; k++) { double y = std::min(1.0, std::max(0.0, t + k * 0.3 * dx)); double v = boost::math::ibeta_derivative(a, b, y) / w; pmin = std::min(pmin, v); pmax = std::max(pmax, v); }
      double v = D.Pdf(x), tol = 2e-3 * pmax + dx * dx * 1e3 / w;
      m.step();
      m.check(v >= pmin - tol && v <= pmax + tol, "Pdf(%g) = %.9g, density around there %.9g..%.9g", x, v, pmin, pmax);
    }
    double prev = lo;
    for (int i = 0; i <= 100; i++) {
      double p = i / 100.0;
      m.state();
      m.step();
      double q = D.Quantile(p);
      double err = std::fabs(boost::math::ibeta(a, b, std::min(1.0, std::max(0.0, (q - lo) / w))) - p);
      m.check(q >= prev - 1e-12 && q >= lo && q <= hi && err < 1.5 * dx, "Quantile(%g) = %.9g, its distribution function off by %.3g", p, q, err);
      prev = q;
    }
    clone_check<double>(D, {lo + 0.1 * w, lo + 0.7 * w, hi + 1}, PS);
    draws<double>(D, [&](vref::Rng& r) { return D.Quantile(r.unif()); }, 0);
    for (double p0 : {0.0, 0.2}) for (double p1 : {0.0, 0.5}) {
      NRLib::BetaWithEndMass E(lo, hi, p0, p1, a, b, nx);
      double sc = 1 - p0 - p1;
      m.check(E.GetMinVal() == lo && E.GetMaxVal() == hi && E.GetInterval() == hi - lo, "BetaWithEndMass GetMinVal/GetMaxVal/GetInterval");
      for (int i = -3; i <= 103; i++) {
        double x = lo + w * (i / 100.0);
        m.state();
        NEAR(E.Cdf(x), x < lo ? 0 : x >= hi ? 1 : p0 + sc * D.Cdf(x), 1e-12, 1e-14, "BetaWithEndMass(%g, %g) Cdf(%g)", p0, p1, x);
        NEAR(E.Pdf(x), x < lo || x > hi ? 0 : x == lo || x == hi ? HUGE_VAL : sc * D.Pdf(x), 1e-12, 1e-14, "BetaWithEndMass(%g, %g) Pdf(%g)", p0, p1, x);
      }
      for (double p : PS) NEAR(E.Quantile(p), p <= p0 ? lo : p >= 1 - p1 ? hi : D.Quantile((p - p0) / sc), 1e-9, 1e-10, "BetaWithEndMass(%g, %g) Quantile(%g)", p0, p1, p);
      clone_check<double>(E, {lo + 0.1 * w, lo + 0.7 * w, hi + 1}, PS);
      draws<double>(E, [&](vref::Rng& r) { return E.Quantile(r.unif()); }, 0, 4);
    }
  }

  for (double a : {400.0, 900.0, 2000.0}) for (double b : {300.0, 1000.0, 2500.0}) {
    if (!m.next()) continue;
    const int nx = 4000;
    m.begin("Beta(0, 1, %g, %g, %d), sharply peaked", a, b, nx);
    NRLib::Beta D(0, 1, a, b, nx);
    double mu = a / (a + b), sd = std::sqrt(a * b / ((a + b) * (a + b) * (a + b + 1)));
    for (double z : {-20.0, -3.0, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0, 15.0}) {
      double x = mu + z * sd;
      if (x <= 0 || x >= 1) continue;
      m.state();
      NEAR(D.Cdf(x), boost::math::ibeta(a, b, x), 0, 0.03, "Cdf(%g)", x);
      NEAR(D.Pdf(x), boost::math::ibeta_derivative(a, b, x), 0.15, 0.15, "Pdf(%g)", x);
    }
    for (double p : {0.02, 0.1, 0.5, 0.9, 0.98}) NEAR(boost::math::ibeta(a, b, D.Quantile(p)), p, 0, 0.03, "distribution function of Quantile(%g)", p);
  }

  // every SetParameters history: the object behaves as one freshly constructed with the last parameters
  m.part = "SetParameters histories";
  {
    const P3 N[] = {{0, 1, 0}, {3, 0.5, 0}, {-1, 2, 0}}, U[] = {{0, 1, 0}, {-5, 5, 0}, {2, 2.5, 0}}, T[] = {{-1, 0, 1}, {0, 1, 4}, {2, 2.5, 3}};
    vector<double> keep = PS;
    vector<double> few;
    for (size_t i = 0; i < PS.size(); i += 7) few.push_back(PS[i]);
    PS = few;
    for (int cls = 0; cls < 6; cls++) for (int n = 0; n <= 3; n++) for (int ctor = 0; ctor < 4; ctor++)
      mc::sequences(3, n, [&](const vector<int>& s) {
        if (!m.next()) return;
        const char* CN[] = {"Normal", "LogNormal", "Uniform", "Triangular", "SplitUniform", "Delta"};
        std::string h;
        for (int i : s) h += mc::fmt("%d ", i);
        m.begin("%s constructed %s, SetParameters [%s]", CN[cls], ctor ? mc::fmt("with set %d", ctor - 1).c_str() : "by default", h.c_str());
        int last = n ? s[n - 1] : ctor - 1;
        auto rng = [&](auto& D, auto ref) { draws<double>(D, ref, 1e-9, 3); };
        if (cls == 0) { NRLib::Normal D = ctor ? NRLib::Normal(N[ctor - 1].a, N[ctor - 1].b) : NRLib::Normal(); for (int i : s) D.SetParameters(N[i].a, N[i].b); P3 q = last < 0 ? P3{0, 1, 0} : N[last]; normal_all(D, q.a, q.b); rng(D, [=](vref::Rng& r) { return q.a + q.b * r.norm(); }); }
        if (cls == 1) { NRLib::LogNormal D = ctor ? NRLib::LogNormal(N[ctor - 1].a, N[ctor - 1].b) : NRLib::LogNormal(); for (int i : s) D.SetParameters(N[i].a, N[i].b); P3 q = last < 0 ? P3{0, 1, 0} : N[last]; lognormal_all(D, q.a, q.b); rng(D, [=](vref::Rng& r) { return std::exp(q.a + q.b * r.norm()); }); }
        if (cls == 2) { NRLib::Uniform D = ctor ? NRLib::Uniform(U[ctor - 1].a, U[ctor - 1].b) : NRLib::Uniform(); for (int i : s) D.SetParameters(U[i].a, U[i].b); P3 q = last < 0 ? P3{0, 1, 0} : U[last]; uniform_all(D, q.a, q.b); }
        if (cls == 3) { NRLib::Triangular D = ctor ? NRLib::Triangular(T[ctor - 1].a, T[ctor - 1].b, T[ctor - 1].c) : NRLib::Triangular(); for (int i : s) D.SetParameters(T[i].a, T[i].b, T[i].c); P3 q = last < 0 ? P3{-1, 0, 1} : T[last]; tri_all(D, q.a, q.b, q.c); }
        if (cls == 4) { NRLib::SplitUniform D = ctor ? NRLib::SplitUniform(T[ctor - 1].a, T[ctor - 1].b, T[ctor - 1].c) : NRLib::SplitUniform(); for (int i : s) D.SetParameters(T[i].a, T[i].b, T[i].c); P3 q = last < 0 ? P3{0, 0.5, 1} : T[last]; split_all(D, q.a, q.b, q.c); }
        if (cls == 5) { NRLib::Delta D = ctor ? NRLib::Delta(N[ctor - 1].a) : NRLib::Delta(); for (int i : s) D.SetParameters(N[i].a); double v = last < 0 ? 0 : N[last].a; m.state(); m.step(); m.check(D.Quantile(0.4) == v && D.Cdf(v) == 1 && D.Cdf(v - 1e-9) == 0, "not the last value set"); }
      });
    PS = keep;
  }
  m.finish();
}
