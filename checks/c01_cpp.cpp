// C01, C++ entry points: NRLib::Simulate{1,2,3}DGaussianField with several fields, explicit or global
// generators, standard deviations, and the covariance grids, against a naive spectral model.
#include "mc.hpp"
#include "vref.hpp"
#include <complex>
#include <memory>
#include <nrlib/grid/grid.hpp>
#include <nrlib/grid/grid2d.hpp>
#include <nrlib/random/random.hpp>
#include <nrlib/random/randomgenerator.hpp>
#include <nrlib/variogram/covgrid2d.hpp>
#include <nrlib/variogram/fftcovgrid.hpp>
#include <nrlib/variogram/gaussianfield.hpp>
#include <nrlib/variogram/variogram.hpp>

using namespace NRLib;
typedef Variogram V;
typedef std::complex<double> C;
static const double PI_ = 3.14159265358979323846;
static const char* NAMES[] = {"constant", "exponential", "spherical", "gaussian", "general_exponential", "matern32", "matern52", "matern72"};

struct Par { V::Type t; double pw, r[3], az, dip, sd; };

static double corr(const Par& p, double x, double y, double z) {
  double ca = cos(p.az), sa = sin(p.az), cd = cos(p.dip), sd = sin(p.dip);
  double u = (ca * cd * x + sa * cd * y + sd * z) / p.r[0], v = (-sa * x + ca * y) / p.r[1], w = (-ca * sd * x - sa * sd * y + cd * z) / p.r[2];
  double d = sqrt(u * u + v * v + w * w), s;
  switch (p.t) {
    case V::CONSTANT: return 1;
    case V::EXPONENTIAL: return exp(-3 * d);
    case V::SPHERICAL: return d < 1 ? 1 - 1.5 * d + 0.5 * d * d * d : 0;
    case V::GAUSSIAN: return exp(-3 * d * d);
    case V::GENERAL_EXPONENTIAL: return exp(-3 * pow(d, p.pw));
    case V::MATERN32: s = 4.744 * d; return exp(-s) * (1 + s);
    case V::MATERN52: s = 5.918 * d; return exp(-s) * (1 + s + s * s / 3);
    default: s = 6.877 * d; return exp(-s) * (1 + s + 0.4 * s * s + s * s * s / 15);
  }
}

static size_t smooth(size_t n, bool even) {
  for (;; n++) {
    if (even && n % 2) continue;
    size_t m = n;
    for (int p : {2, 3, 5, 7}) while (m % p == 0) m /= p;
    if (m == 1) return n;
  }
}

/// Naive separable DFT over an nd-dimensional array, x fastest.
static void dft(std::vector<C>& a, const size_t n[3], int sign) {
  size_t stride = 1;
  for (int ax = 0; ax < 3; ax++) {
    size_t len = n[ax];
    std::vector<C> w(len), t(len);
    for (size_t k = 0; k < len; k++) w[k] = std::polar(1.0, sign * 2 * PI_ * double(k) / double(len));
    for (size_t base = 0; base < a.size(); base++) {
      if ((base / stride) % len) continue;
      for (size_t k = 0; k < len; k++) {
        t[k] = 0;
        for (size_t j = 0; j < len; j++) t[k] += a[base + j * stride] * w[j * k % len];
      }
      for (size_t k = 0; k < len; k++) a[base + k * stride] = t[k];
    }
    stride *= len;
  }
}

struct Case { int nd; size_t n[3]; double d[3]; int pad[3]; };

static std::vector<double> cov(const Par& p, const size_t tot[3], const double d[3]) {
  std::vector<double> c(tot[0] * tot[1] * tot[2]);
  size_t q = 0;
  for (size_t k = 0; k < tot[2]; k++) for (size_t j = 0; j < tot[1]; j++) for (size_t i = 0; i < tot[0]; i++) {
    double x = (i < (tot[0] + 1) / 2 ? double(i) : double(i) - double(tot[0])) * d[0];
    double y = (j < (tot[1] + 1) / 2 ? double(j) : double(j) - double(tot[1])) * d[1];
    double z = (k < (tot[2] + 1) / 2 ? double(k) : double(k) - double(tot[2])) * d[2];
    c[q++] = p.sd * p.sd * corr(p, x, y, z);
  }
  return c;
}

static std::vector<double> model(const Par& p, const Case& c, const size_t pad[3], vref::Rng& g) {
  size_t tot[3];
  for (int a = 0; a < 3; a++) tot[a] = a < c.nd ? smooth(c.n[a] + pad[a], c.nd > 1 && a == 0) : 1;
  std::vector<double> cv = cov(p, tot, c.d);
  std::vector<C> f(cv.begin(), cv.end()), w(cv.size());
  dft(f, tot, -1);
  for (size_t i = 0; i < tot[0]; i++) for (size_t j = 0; j < tot[1]; j++) for (size_t k = 0; k < tot[2]; k++)
    w[i + tot[0] * (j + tot[1] * k)] = g.norm();
  dft(w, tot, -1);
  for (size_t q = 0; q < w.size(); q++) w[q] *= sqrt(std::max(f[q].real(), 0.0));
  dft(w, tot, 1);
  std::vector<double> out;
  for (size_t k = 0; k < (c.nd > 2 ? c.n[2] : 1); k++) for (size_t j = 0; j < (c.nd > 1 ? c.n[1] : 1); j++) for (size_t i = 0; i < c.n[0]; i++)
    out.push_back(w[i + tot[0] * (j + tot[1] * k)].real() / double(w.size()));
  return out;
}

static void pads(const V& v, const Case& c, size_t pad[3]) {
  std::vector<size_t> d = c.nd == 1 ? FindNDimPadding(v, c.n[0], c.d[0]) : c.nd == 2 ? FindNDimPadding(v, c.n[0], c.d[0], c.n[1], c.d[1])
                        : FindNDimPadding(v, c.n[0], c.d[0], c.n[1], c.d[1], c.n[2], c.d[2]);
  for (int a = 0; a < 3; a++) pad[a] = a >= c.nd ? 0 : c.pad[a] < 0 ? d[a] : size_t(c.pad[a]);
}

static bool same(mc::MC& m, const std::vector<double>& a, const std::vector<double>& b, double sd, const char* what) {
  if (!m.check(a.size() == b.size(), "%s: %zu values, model %zu", what, a.size(), b.size())) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!(std::fabs(a[i] - b[i]) <= 2e-6 * std::max(1.0, sd)))
      return m.check(false, "%s: value %zu is %.12g, model %.12g", what, i, a[i], b[i]);
  return true;
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  const bool th = m.thorough();
  std::vector<Par> pars;
  for (int t = 0; t < 8; t++)
    for (double sd : {1.0, 2.5})
      for (int s = 0; s < 4; s++) {
        static const double R[4][5] = {{2, 2, 2, 0, 0}, {3, 1.5, 1, 0.7, 0}, {1.2, 2.4, 0.8, -2.1, 0.4}, {2.2, 1, 1.7, 1.3, -0.9}};
        pars.push_back({V::Type(t), s == 1 ? 1.2 : 1.5, {R[s][0], R[s][1], R[s][2]}, R[s][3], R[s][4], sd});
      }
  std::vector<Case> cases = {
    {1, {1, 1, 1}, {1, 1, 1}, {-1, -1, -1}}, {1, {5, 1, 1}, {1, 1, 1}, {0, 0, 0}}, {1, {6, 1, 1}, {.5, 1, 1}, {3, 0, 0}}, {1, {4, 1, 1}, {1, 1, 1}, {-1, 0, 0}},
    {2, {3, 4, 1}, {1, 1, 1}, {0, 1, 0}}, {2, {4, 3, 1}, {1, .5, 1}, {-1, 2, 0}}, {2, {1, 5, 1}, {1, 2, 1}, {2, -1, 0}}, {2, {5, 2, 1}, {1, 1, 1}, {-1, -1, 0}},
    {3, {3, 2, 2}, {1, 1, 1}, {0, 1, 2}}, {3, {2, 3, 4}, {1, 2, .5}, {1, 0, 0}}, {3, {2, 2, 3}, {1, 1, 1}, {2, 2, -1}}, {3, {4, 1, 2}, {1, 1, 1}, {1, 3, 1}}};

  m.part = "fields";
  for (const Par& p : pars) for (const Case& c : cases) for (int nf : {1, 2, 3}) for (int mode = 0; mode < 2; mode++) {
    // mode 0: global generator, 1: explicit generator (1D, 2D)
    if (mode == 1 && c.nd == 3) continue;
    if (c.nd == 1 && nf > 1) continue;
    if (!m.next()) continue;
    m.begin("%s sd=%g ranges %g/%g/%g azimuth %g dip %g; %dD %zux%zux%zu pad %d/%d/%d; %d fields, %s generator", NAMES[p.t], p.sd, p.r[0], p.r[1], p.r[2],
            p.az, p.dip, c.nd, c.n[0], c.n[1], c.n[2], c.pad[0], c.pad[1], c.pad[2], nf, mode ? "explicit" : "global");
    m.state();
    m.step();
    std::unique_ptr<V> v(V::Create(p.t, p.pw, p.r[0], p.r[1], p.r[2], p.az, p.dip, p.sd));
    size_t pad[3];
    pads(*v, c, pad);
    Random::Initialize(99ul);
    vref::Rng glob(99), loc(777);
    RandomGenerator rg(777);
    if (mode == 0 && c.nd < 3) loc.seed(glob.u32());
    vref::Rng& src = c.nd == 3 ? glob : loc;
    std::vector<std::vector<double>> got;
    if (c.nd == 1) {
      std::vector<double> o(c.n[0]);
      Simulate1DGaussianField(*v, c.n[0], c.d[0], o, mode ? &rg : NULL, c.pad[0]);
      got.push_back(o);
    } else if (c.nd == 2) {
      std::vector<Grid2D<double>> o;
      Simulate2DGaussianField(*v, c.n[0], c.d[0], c.n[1], c.d[1], nf, o, mode ? &rg : NULL, c.pad[0], c.pad[1]);
      for (auto& g : o) got.push_back(g.GetStorage());
      if (o.size()) m.check(o[0].GetNI() == c.n[0] && o[0].GetNJ() == c.n[1], "field has the wrong shape");
    } else {
      std::vector<Grid<double>> o;
      Simulate3DGaussianField(*v, c.n[0], c.d[0], c.n[1], c.d[1], c.n[2], c.d[2], nf, o, c.pad[0], c.pad[1], c.pad[2]);
      for (auto& g : o) got.push_back(g.GetStorage());
      if (o.size()) m.check(o[0].GetNI() == c.n[0] && o[0].GetNJ() == c.n[1] && o[0].GetNK() == c.n[2], "field has the wrong shape");
    }
    if (!m.check(int(got.size()) == nf, "%zu fields returned", got.size())) continue;
    for (int k = 0; k < nf; k++) {
      std::vector<double> want = model(p, c, pad, src);
      same(m, got[k], want, p.sd, mc::fmt("field %d", k).c_str());
    }
    m.check(uint32_t(Random::DrawUint32()) == glob.u32(), "the global generator is left in another state than the draws imply");
    if (mode) m.check(uint32_t(rg.DrawUint32()) == loc.u32(), "the given generator is left in another state than the draws imply");
  }

  m.part = "single-field-2D";   // uses the start seed itself and leaves the global stream alone
  for (const Par& p : pars) for (unsigned long seed : {0ul, 5ul, 4294967295ul}) for (const Case& c : cases) {
    if (c.nd != 2) continue;
    if (!m.next()) continue;
    m.begin("%s sd=%g ranges %g/%g azimuth %g, %zux%zu seed %lu", NAMES[p.t], p.sd, p.r[0], p.r[1], p.az, c.n[0], c.n[1], seed);
    m.state();
    m.step(2);
    Case cd = c;
    cd.pad[0] = cd.pad[1] = -1;
    std::unique_ptr<V> v(V::Create(p.t, p.pw, p.r[0], p.r[1], p.r[2], p.az, p.dip, p.sd));
    size_t pad[3];
    pads(*v, cd, pad);
    Random::Initialize(seed);
    vref::Rng glob(seed), loc(seed);
    Grid2D<double> a, b;
    Simulate2DGaussianField(*v, c.n[0], c.d[0], c.n[1], c.d[1], a);
    uint32_t u = Random::DrawUint32();
    Simulate2DGaussianField(*v, c.n[0], c.d[0], c.n[1], c.d[1], b);
    same(m, a.GetStorage(), model(p, cd, pad, loc), p.sd, "first field");
    m.check(a.GetStorage() == b.GetStorage(), "the same seed gives two different fields");
    m.check(u == glob.u32(), "the global stream moved");
  }

  m.part = "covariance-grids";
  const int top = th ? 9 : 6;
  for (const Par& p : pars) for (int nx = 1; nx <= top; nx++) for (int ny = 1; ny <= top; ny++) for (int nz = 1; nz <= top; nz += (ny > 3 ? 3 : 1)) {
    if (!m.next()) continue;
    m.begin("%s sd=%g ranges %g/%g/%g azimuth %g dip %g, %dx%dx%d", NAMES[p.t], p.sd, p.r[0], p.r[1], p.r[2], p.az, p.dip, nx, ny, nz);
    m.state();
    m.step(3);
    std::unique_ptr<V> v(V::Create(p.t, p.pw, p.r[0], p.r[1], p.r[2], p.az, p.dip, p.sd));
    double d[3] = {0.5, 0.75, 1.25};
    size_t t1[3] = {size_t(nx), 1, 1}, t2[3] = {size_t(nx), size_t(ny), 1}, t3[3] = {size_t(nx), size_t(ny), size_t(nz)};
    same(m, FFTCovGrid1D(*v, nx, d[0]).GetCov(), cov(p, t1, d), p.sd, "FFTCovGrid1D");
    same(m, FFTCovGrid2D(*v, nx, d[0], ny, d[1]).GetCov().GetStorage(), cov(p, t2, d), p.sd, "FFTCovGrid2D");
    same(m, FFTCovGrid3D(*v, nx, d[0], ny, d[1], nz, d[2]).GetCov().GetStorage(), cov(p, t3, d), p.sd, "FFTCovGrid3D");
    if (nz > 1) continue;
    CovGrid2D g(*v, nx, ny, d[0], d[1]);
    double rx = 0, ry = 0;
    for (int i = 1 - nx; i < nx; i++) for (int j = 1 - ny; j < ny; j++) {
      double w = corr(p, i * d[0], j * d[1], 0);
      m.check(std::fabs(g.GetCov(i, j) - w) < 1e-6, "CovGrid2D(%d,%d) is %g, variogram correlation %g", i, j, double(g.GetCov(i, j)), w);
      if (w >= 0.05) { rx = std::max(rx, i * d[0]); ry = std::max(ry, j * d[1]); }
    }
    m.check(g.GetRangeX() >= rx - 1e-12 && g.GetRangeY() >= ry - 1e-12 && g.GetRangeX() <= (nx - 1) * d[0] + 1e-12, "CovGrid2D ranges %g, %g are below the correlated lags %g, %g", g.GetRangeX(), g.GetRangeY(), rx, ry);
    m.check(g.GetDX() == d[0] && g.GetDY() == d[1], "CovGrid2D spacing");
  }
  m.finish();
}
