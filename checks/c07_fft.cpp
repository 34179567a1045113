// C07: transform lengths, and the 1D/2D/3D FFT grids against the definition of the DFT.
// The transforms are linear, so every shape is decided on a complete basis (all unit impulses).
#include "mc.hpp"
#include "fft/fft.hpp"
#include "fft/fftgrid2d.hpp"
#include "fft/fftgrid3d.hpp"
#include "grid/grid.hpp"
#include "grid/grid2d.hpp"
#include <algorithm>
#include <complex>
#include <list>
#include <memory>
using namespace NRLib;
typedef std::complex<double> C;
static const double PI2 = 2 * 3.14159265358979323846264338327950288;

static std::vector<size_t> smooth, smooth_even;
static size_t model_size(size_t n, bool even) {
  auto& v = even ? smooth_even : smooth;
  return *std::lower_bound(v.begin(), v.end(), n);
}
static void mksmooth() {
  for (double a = 1; a < 4e9; a *= 2) for (double b = a; b < 4e9; b *= 3) for (double c = b; c < 4e9; c *= 5) for (double d = c; d < 4e9; d *= 7) smooth.push_back(size_t(d));
  std::sort(smooth.begin(), smooth.end());
  for (size_t x : smooth) if (x % 2 == 0) smooth_even.push_back(x);
}

static void sizes(mc::MC& m) {
  m.part = "sizes";
  size_t N = m.thorough() ? 120000 : 12000;
  std::set<size_t> ns;
  for (size_t n = 1; n <= N; n++) ns.insert(n);
  size_t top = m.thorough() ? 50000000 : 2000000;
  for (size_t s : smooth) if (s <= top) { ns.insert(s); if (s > 1) ns.insert(s - 1); ns.insert(s + 1); }
  for (size_t n : ns) for (int e = 0; e < 2; e++) {
    if (!m.next()) continue;
    m.begin("length for at least %zu, even=%d", n, e);
    size_t got = FindNewSizeWithPadding(n, e);
    m.step(); m.state(); m.outcome(got);
    m.check(got == model_size(n, e), "chose %zu; the smallest admissible length is %zu", got, model_size(n, e));
  }
}

static void fft1d(mc::MC& m) {
  m.part = "1D";
  int top = m.thorough() ? 40 : 26;
  std::vector<int> ns; for (int n = 1; n <= top; n++) ns.push_back(n);
  for (int n : {50, 63, 64, 100, 127, 128, 243, 256, 257, 500, 1000}) ns.push_back(n);
  for (int n : ns) for (int pad : {-1, 0, 1, 2, 3, 4, 7, 12}) for (int sc = 0; sc < 2; sc++) for (int imp = -1; imp < n; imp++) {
    if (n > top && imp > 1 && imp != n / 2 && imp != n - 1) continue;
    if (!m.next()) continue;
    m.begin("n=%d pad=%d scale_forward=%d impulse=%d", n, pad, sc, imp);
    std::vector<double> in(n, 0.0);
    for (int i = 0; i < n; i++) in[i] = imp < 0 ? 1.0 + 0.37 * (i % 40) * (i % 40) - 2.0 * (i % 3) : double(i == imp);
    size_t p = pad < 0 ? n : pad, tot = p ? model_size(n + p, false) : n;
    std::vector<double> full(in);
    p = tot - n;
    for (size_t i = 0; i < p; i++) {
      double t = p == 1 ? 1.0 : double(i) / (p - 1);
      full.push_back((1 - t) * in[n - 1] + t * in[0]);
    }
    std::vector<C> out, out2;
    if (imp % 2) ComputeFFT1D(in, out, sc, pad);
    else { std::list<double> l(in.begin(), in.end()); ComputeFFT1D(l.begin(), l.end(), out, sc, pad); }
    m.step(); m.state();
    if (!m.check(out.size() == tot, "spectrum of %zu values, model %zu", out.size(), tot)) continue;
    double s = sc ? 1 / std::sqrt(double(tot)) : 1.0, sum = 0;
    for (double v : full) sum += std::fabs(v);
    for (size_t k = 0; k <= tot / 2 && k < tot; k++) {
      C x = 0;
      for (size_t i = 0; i < tot; i++) x += full[i] * std::polar(1.0, -PI2 * double(i * k % tot) / tot);
      if (!m.check(std::abs(x * s - out[k]) < 1e-9 * (1 + std::abs(x)) + 1e-12 * sum, "frequency %zu: (%g,%g), model (%g,%g)", k, out[k].real(), out[k].imag(), (x * s).real(), (x * s).imag())) break;
    }
    m.outcome(mc::hmix(mc::dbits(out[0].real()), mc::dbits(out[tot / 2].imag())));
    // the inverse restores the input (and, asked for everything, the padded input)
    std::vector<double> back(n), all(tot);
    std::list<double> lb(n);
    ComputeFFTInv1D(out, back, sc); ComputeFFTInv1D(out, all.begin(), all.end(), sc); ComputeFFTInv1D(out, lb, sc);
    m.step(3);
    auto it = lb.begin();
    for (int i = 0; i < n; i++, ++it) if (!m.near(back[i], in[i], 1e-10, "inverse transform") || !m.near(*it, in[i], 1e-10, "inverse transform into a list")) break;
    for (size_t i = 0; i < tot; i++) if (!m.near(all[i], full[i], 1e-10, "inverse transform, padding included")) break;
  }
}

// Uniform view of the 2D and 3D grids.
template <class T> struct G2 {
  typedef FFTGrid2D<T> F;
  std::unique_ptr<F> f; size_t n[3], t[3];
  G2(const size_t* n_, const size_t* p, bool sc) : f(new F(n_[0], n_[1], p[0], p[1], sc)) { n[0] = n_[0]; n[1] = n_[1]; n[2] = 1; t[0] = f->GetNItot(); t[1] = f->GetNJtot(); t[2] = 1; }
  void init(const std::vector<T>& v) { Grid2D<T> g(t[0], t[1]); for (size_t j = 0; j < t[1]; j++) for (size_t i = 0; i < t[0]; i++) g(i, j) = v[i + j * t[0]]; f->Initialize(g); }
  T real(size_t i, size_t j, size_t) { return f->Real(i, j); }
  std::complex<T> cplx(size_t i, size_t j, size_t) const { const F& c = *f; return c.Complex(i, j); }
  T grid(size_t i, size_t j, size_t) { if (!g) g.reset(new Grid2D<T>(f->GetRealGrid())); return (*g)(i, j); }
  std::unique_ptr<Grid2D<T>> g;
  bool sizes() { return f->GetRealNI() == n[0] && f->GetRealNJ() == n[1] && f->GetComplexNI() == t[0] / 2 + 1 && f->GetComplexNJ() == t[1]; }
};
template <class T> struct G3 {
  typedef FFTGrid3D<T> F;
  std::unique_ptr<F> f; size_t n[3], t[3];
  G3(const size_t* n_, const size_t* p, bool sc) : f(new F(n_[0], n_[1], n_[2], p[0], p[1], p[2], sc)) { for (int k = 0; k < 3; k++) n[k] = n_[k]; t[0] = f->GetNItot(); t[1] = f->GetNJtot(); t[2] = f->GetNKtot(); }
  void init(const std::vector<T>& v) { Grid<T> g(t[0], t[1], t[2]); for (size_t k = 0; k < t[2]; k++) for (size_t j = 0; j < t[1]; j++) for (size_t i = 0; i < t[0]; i++) g(i, j, k) = v[i + t[0] * (j + k * t[1])]; f->Initialize(g); }
  T real(size_t i, size_t j, size_t k) { return f->Real(i, j, k); }
  std::complex<T> cplx(size_t i, size_t j, size_t k) const { const F& c = *f; return c.Complex(i, j, k); }
  std::unique_ptr<Grid<T>> g;
  T grid(size_t i, size_t j, size_t k) { if (!g) g.reset(new Grid<T>(f->GetRealGrid())); return (*g)(i, j, k); }
  bool sizes() { return f->GetRealNI() == n[0] && f->GetRealNJ() == n[1] && f->GetRealNK() == n[2] && f->GetComplexNI() == t[0] / 2 + 1 && f->GetComplexNJ() == t[1] && f->GetComplexNK() == t[2]; }
};

// model arrays on the torus t
static std::vector<C> dft(const std::vector<double>& a, const size_t* t) {
  std::vector<C> o((t[0] / 2 + 1) * t[1] * t[2]);
  for (size_t z = 0; z < t[2]; z++) for (size_t y = 0; y < t[1]; y++) for (size_t x = 0; x <= t[0] / 2; x++) {
    C s = 0;
    for (size_t k = 0; k < t[2]; k++) for (size_t j = 0; j < t[1]; j++) for (size_t i = 0; i < t[0]; i++) {
      double v = a[i + t[0] * (j + k * t[1])];
      if (v != 0) s += v * std::polar(1.0, -PI2 * (double(i * x % t[0]) / t[0] + double(j * y % t[1]) / t[1] + double(k * z % t[2]) / t[2]));
    }
    o[x + (t[0] / 2 + 1) * (y + z * t[1])] = s;
  }
  return o;
}
static std::vector<double> idft(const std::vector<C>& a, const size_t* t) {   // unscaled inverse of a half spectrum
  std::vector<double> o(t[0] * t[1] * t[2]);
  size_t h = t[0] / 2 + 1;
  for (size_t k = 0; k < t[2]; k++) for (size_t j = 0; j < t[1]; j++) for (size_t i = 0; i < t[0]; i++) {
    double s = 0;
    for (size_t z = 0; z < t[2]; z++) for (size_t y = 0; y < t[1]; y++) for (size_t x = 0; x < h; x++) {
      C v = a[x + h * (y + z * t[1])];
      if (v == C(0)) continue;
      double w = (x == 0 || 2 * x == t[0]) ? 1 : 2;
      s += w * (v * std::polar(1.0, PI2 * (double(i * x % t[0]) / t[0] + double(j * y % t[1]) / t[1] + double(k * z % t[2]) / t[2]))).real();
    }
    o[i + t[0] * (j + k * t[1])] = s;
  }
  return o;
}

template <class G, class T> bool check_real(mc::MC& m, G& g, const std::vector<double>& want, double tol, const char* what) {
  g.g.reset();
  double mx = 0; for (double x : want) mx = std::max(mx, std::fabs(x));
  for (size_t k = 0; k < g.n[2]; k++) for (size_t j = 0; j < g.n[1]; j++) for (size_t i = 0; i < g.n[0]; i++) {
    double w = want[i + g.t[0] * (j + k * g.t[1])];
    if (!m.check(std::fabs(g.real(i, j, k) - w) <= tol * (1 + mx), "%s: cell (%zu,%zu,%zu) = %g, model %g", what, i, j, k, double(g.real(i, j, k)), w)) return false;
    if (!m.check(g.grid(i, j, k) == g.real(i, j, k), "%s: the grid copy disagrees at (%zu,%zu,%zu)", what, i, j, k)) return false;
  }
  for (size_t x = 0; x < want.size(); x++)
    if (!m.check(std::fabs(g.f->RealData()[x] - want[x]) <= tol * (1 + mx), "%s: padded cell %zu = %g, model %g", what, x, double(g.f->RealData()[x]), want[x])) return false;
  return true;
}
template <class G> bool check_cplx(mc::MC& m, const G& g, const std::vector<C>& want, double s, double tol) {
  size_t h = g.t[0] / 2 + 1;
  for (size_t z = 0; z < g.t[2]; z++) for (size_t y = 0; y < g.t[1]; y++) for (size_t x = 0; x < h; x++) {
    C w = want[x + h * (y + z * g.t[1])] * s; auto got = g.cplx(x, y, z);
    if (!m.check(std::abs(C(got.real(), got.imag()) - w) <= tol * (1 + std::abs(w)), "frequency (%zu,%zu,%zu) = (%g,%g), model (%g,%g)", x, y, z, double(got.real()), double(got.imag()), w.real(), w.imag())) return false;
  }
  return true;
}

template <class G, class T> void basis(mc::MC& m, const char* name, const size_t* n, const size_t* p, double tol, size_t few = 0) {
  for (int sc = 0; sc < 2; sc++) {
    size_t t[3] = {model_size(n[0] + p[0], true), model_size(n[1] + p[1], false), n[2] ? model_size(n[2] + p[2], false) : 1};
    size_t nn[3] = {n[0], n[1], std::max<size_t>(n[2], 1)};
    size_t N = t[0] * t[1] * t[2];
    if (!m.next()) continue;
    m.begin("%s n=(%zu,%zu,%zu) pad=(%zu,%zu,%zu) scale_forward=%d", name, n[0], n[1], n[2], p[0], p[1], p[2], sc);
    G g(nn, p, sc);
    m.state();
    if (!m.check(g.t[0] == t[0] && g.t[1] == t[1] && g.t[2] == t[2] && g.sizes(), "total size (%zu,%zu,%zu), model (%zu,%zu,%zu)", g.t[0], g.t[1], g.t[2], t[0], t[1], t[2])) continue;
    std::vector<double> zero(N, 0.0);
    if (!check_real<G, T>(m, g, zero, 0, "a new grid is zero")) continue;
    double s = sc ? 1 / std::sqrt(double(N)) : 1;
    for (size_t imp = 0; imp <= N; imp = few && imp < N ? std::min(N, imp + N / few) : imp + 1) {
      std::vector<T> v(N, T(0)); std::vector<double> d(N, 0.0);
      if (imp < N) d[imp] = v[imp] = T(1);
      else for (size_t i = 0; i < N; i++) d[i] = v[i] = T(0.5 + 0.25 * double((i * 7) % 11) - double(i % 4));
      g.init(v);
      if (!check_real<G, T>(m, g, d, 0, "initialised")) break;
      g.f->DoFFT();
      m.step(2);
      if (!check_cplx(m, g, dft(d, t), s, tol)) break;
      g.f->DoInverseFFT();
      m.step();
      if (!check_real<G, T>(m, g, d, tol, "round trip")) break;
    }
    m.outcome(mc::hmix(N, sc));
  }
}

// Histories of operations on one grid (and a filter grid): initialisations, transforms, convolutions.
template <class G, class T, bool D3> void histories(mc::MC& m, const char* name, const size_t* n, const size_t* p, double tol, int depth) {
  size_t nn[3] = {n[0], n[1], std::max<size_t>(n[2], 1)};
  size_t t[3] = {model_size(n[0] + p[0], true), model_size(n[1] + p[1], false), n[2] ? model_size(n[2] + p[2], false) : 1};
  size_t N = t[0] * t[1] * t[2];
  std::vector<T> A(N), B(N), S(N);
  for (size_t i = 0; i < N; i++) { A[i] = T(int(i * 5 % 7) - 3); B[i] = T((i == 1) + 0.5 * (i == N - 1)); }
  // S: symmetric, non-negative spectrum (a covariance)
  for (size_t k = 0; k < t[2]; k++) for (size_t j = 0; j < t[1]; j++) for (size_t i = 0; i < t[0]; i++) {
    size_t a = std::min(i, t[0] - i), b = std::min(j, t[1] - j), c = std::min(k, t[2] - k);
    S[i + t[0] * (j + k * t[1])] = T((a + b + c == 0) ? 4.0 : (a + b + c == 1) ? 0.5 : 0.0);
  }
  auto dv = [](const std::vector<T>& v) { return std::vector<double>(v.begin(), v.end()); };
  static const char* names[] = {"Initialize(A)", "Initialize(B)", "DoFFT", "DoInverseFFT", "Convolve", "ConvolveCovariance", "ConvolveNoFFT", "InitializePadZero", "InitializeConstant"};
  // the convolutions use one filter grid, filled again before each; operation k - 1 is a convolution with A
  const int k = D3 ? 10 : 7;
  for (int sc = 0; sc < 2; sc++) for (int fsc = 0; fsc < 2; fsc++) for (int d = 1; d <= depth; d++) mc::sequences(k, d, [&](const std::vector<int>& ops) {
    if (!m.next()) return;
    m.begin("%s n=(%zu,%zu,%zu) pad=(%zu,%zu,%zu) scale=%d/%d:", name, n[0], n[1], n[2], p[0], p[1], p[2], sc, fsc);
    G g(nn, p, sc), f(nn, p, fsc);
    std::vector<double> R(N, 0.0); std::vector<C> F((t[0] / 2 + 1) * t[1] * t[2], C(0));
    bool rok = true, cok = true;   // defined?
    double fs = sc ? 1 / std::sqrt(double(N)) : 1, is = sc ? 1 / std::sqrt(double(N)) : 1.0 / N, ffs = fsc ? 1 / std::sqrt(double(N)) : 1;
    uint64_t h = mc::hmix(sc * 2 + fsc, N);
    for (int op : ops) {
      const bool conv = op == 4 || op == 5 || op == k - 1;
      m.note(" %s", op == k - 1 ? "Convolve(A)" : names[op]);
      if ((op == 2 || conv) && !rok) return;
      if ((op == 3 || (D3 && op == 6)) && !cok) return;
      m.step();
      h = mc::hmix(h, op);
      if (op < 2) { g.init(op ? B : A); R = dv(op ? B : A); rok = true; }
      else if (op == 2) { g.f->DoFFT(); F = dft(R, t); for (auto& x : F) x *= fs; cok = true; rok = false; if (!check_cplx(m, g, F, 1, tol)) return; }
      else if (op == 3) { g.f->DoInverseFFT(); R = idft(F, t); for (auto& x : R) x *= is; rok = true; cok = false; }
      else if (conv) {
        const std::vector<T>& V = op == 4 ? B : op == 5 ? S : A;
        f.init(V);
        if (op != 5) g.f->Convolve(*f.f); else g.f->ConvolveCovariance(*f.f);
        F = dft(R, t);
        auto Q = dft(dv(V), t);
        for (size_t i = 0; i < F.size(); i++) F[i] *= fs * (op != 5 ? Q[i] * ffs : C(std::sqrt(std::max(0.0, Q[i].real() * ffs))));
        R = idft(F, t); for (auto& x : R) x *= is;
        rok = true; cok = false;
      } else if constexpr (D3) {
        if (op == 6) { f.init(B); f.f->DoFFT(); g.f->ConvolveNoFFT(*f.f); auto Q = dft(dv(B), t); for (size_t i = 0; i < F.size(); i++) F[i] *= Q[i] * ffs; if (!check_cplx(m, g, F, 1, tol)) return; }
        else if (op == 7) {
          Grid<T> a(n[0], n[1], n[2]); std::fill(R.begin(), R.end(), 0.0);
          for (size_t z = 0; z < n[2]; z++) for (size_t y = 0; y < n[1]; y++) for (size_t x = 0; x < n[0]; x++) R[x + t[0] * (y + z * t[1])] = a(x, y, z) = T(1 + x + 10 * y + 100 * z);
          g.f->InitializePadZero(a); rok = true;
        } else { g.f->InitializeConstant(T(2.5)); std::fill(R.begin(), R.end(), 2.5); rok = true; }
      }
      if (rok && !check_real<G, T>(m, g, R, tol, "real values")) return;
    }
    m.state(h);
  });
}

static void cyclic(mc::MC& m) {
  m.part = "cyclic";
  for (size_t a = 1; a <= 4; a++) for (size_t b = 1; b <= 3; b++) for (size_t c = 1; c <= 3; c++) {
    if (!m.next()) continue;
    m.begin("cyclic access on (%zu,%zu,%zu)", a, b, c);
    FFTGrid3D<double> f(a, b, c, 1, 2, 0, false);
    const FFTGrid3D<double>& cf = f;
    int ni = f.GetNItot(), nj = f.GetNJtot(), nk = f.GetNKtot();
    for (int i = 0; i < ni * nj * nk; i++) f.RealData()[i] = i;
    m.state();
    for (int k = 1 - nk; k < nk; k++) for (int j = 1 - nj; j < nj; j++) for (int i = 1 - ni; i < ni; i++) {
      int x = (i + ni) % ni, y = (j + nj) % nj, z = (k + nk) % nk;
      m.step();
      if (!m.check(f.RealCyclic(i, j, k) == x + ni * (y + nj * z) && cf.RealCyclic(i, j, k) == f.RealCyclic(i, j, k), "RealCyclic(%d,%d,%d) = %g, model %d", i, j, k, f.RealCyclic(i, j, k), x + ni * (y + nj * z))) return;
    }
  }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  mksmooth();
  sizes(m);
  fft1d(m);
  cyclic(m);
  bool T = m.thorough();
  m.part = "2D";
  size_t top = T ? 9 : 6;
  for (size_t a = 1; a <= top; a++) for (size_t b = 1; b <= top; b++) for (size_t p = 0; p <= 3; p++) for (size_t q = 0; q <= 3; q++) {
    size_t n[3] = {a, b, 0}, pd[3] = {p, q, 0};
    basis<G2<double>, double>(m, "double", n, pd, 1e-10);
    if (p < 2 && q < 2) basis<G2<float>, float>(m, "float", n, pd, 2e-4);
  }
  m.part = "3D";
  top = T ? 5 : 4;
  for (size_t a = 1; a <= top; a++) for (size_t b = 1; b <= top; b++) for (size_t c = 1; c <= top; c++) for (int pm = 0; pm < 8; pm++) {
    size_t n[3] = {a, b, c}, pd[3] = {size_t(pm & 1) * 2, size_t(pm >> 1 & 1), size_t(pm >> 2 & 1) * 3};
    basis<G3<double>, double>(m, "double", n, pd, 1e-10);
    if (pm == 0 || pm == 7) basis<G3<float>, float>(m, "float", n, pd, 2e-4);
  }
  m.part = "large";
  const size_t big[][6] = {{40, 30, 0, 3, 2, 0}, {3, 200, 0, 1, 5, 0}, {300, 2, 0, 0, 0, 0}, {64, 33, 0, 0, 1, 0}, {25, 25, 0, 25, 25, 0}, {12, 10, 9, 1, 2, 3}, {2, 3, 120, 0, 0, 7}, {150, 2, 3, 0, 1, 0}, {3, 100, 2, 2, 0, 1}, {9, 9, 9, 0, 0, 0}};
  for (auto& b : big) {
    size_t n[3] = {b[0], b[1], b[2]}, pd[3] = {b[3], b[4], b[5]};
    if (b[2]) { basis<G3<double>, double>(m, "double", n, pd, 1e-9, 7); basis<G3<float>, float>(m, "float", n, pd, 1e-2, 3); }
    else { basis<G2<double>, double>(m, "double", n, pd, 1e-9, 7); basis<G2<float>, float>(m, "float", n, pd, 1e-2, 3); }
  }
  m.part = "histories";
  size_t s2[3] = {3, 2, 0}, s3[3] = {2, 3, 2}, p2[3] = {1, 1, 0}, p3[3] = {0, 1, 0}, s2b[3] = {1, 3, 0}, s3b[3] = {3, 1, 2};
  histories<G2<double>, double, false>(m, "double", s2, p2, 1e-9, T ? 5 : 4);
  histories<G2<float>, float, false>(m, "float", s2b, p2, 2e-3, 3);
  histories<G3<double>, double, true>(m, "double", s3, p3, 1e-9, T ? 4 : 3);
  histories<G3<float>, float, true>(m, "float", s3b, p3, 2e-3, 3);
  m.finish();
}
