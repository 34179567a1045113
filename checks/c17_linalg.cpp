// C17: the linear-algebra layer (FLENS/LAPACK wrappers) on every small matrix over an exact alphabet, against
// exact determinants and residuals computed independently.
#include "mc.hpp"
#include <algorithm>
#include <fstream>
#include <nrlib/exception/exception.hpp>
#include <nrlib/flens/nrlib_flens.hpp>
using namespace std;
using namespace NRLib;
typedef complex<double> C;
typedef vector<vector<double>> D;
typedef vector<vector<C>> DC;
static mc::MC* M;

template <class F> static bool raises(F f) { try { f(); } catch (NRLib::Exception&) { return true; } return false; }
template <class T> static string show(const vector<vector<T>>& a) { ostringstream o; for (auto& r : a) { o << "["; for (auto& x : r) o << x << " "; o << "]"; } return o.str(); }
template <class T> static T det(vector<vector<T>> a, size_t n) {  // exact on the alphabets used (Laplace)
  if (n == 0) return 1;
  if (n == 1) return a[0][0];
  T s = 0;
  for (size_t c = 0; c < n; c++) { vector<vector<T>> b; for (size_t i = 1; i < n; i++) { vector<T> r; for (size_t j = 0; j < n; j++) if (j != c) r.push_back(a[i][j]); b.push_back(r); } s += (c % 2 ? -1.0 : 1.0) * a[0][c] * det(b, n - 1); }
  return s;
}
static SymmetricMatrix sym(const D& a) { int n = a.size(); SymmetricMatrix m(n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) m(i, j) = a[i][j]; return m; }
static double el(const SymmetricMatrix& m, int i, int j) { return m.upLo() == flens::Upper ? m(min(i, j), max(i, j)) : m(max(i, j), min(i, j)); }
static Matrix mat(const D& a) { Matrix m(a.size(), a[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) m(i, j) = a[i][j]; return m; }
static bool nr(double a, double b, double t = 1e-9) { return fabs(a - b) <= t * (1 + fabs(b)); }

// -1, 0, +1: not positive definite, singular leading minor (either answer), positive definite
static int definite(const D& a) { for (size_t k = 1; k <= a.size(); k++) { double d = det(a, k); if (d < 0) return -1; if (d == 0) return 0; } return 1; }

static void one_symmetric(const D& a, int known = 9) {
  int n = a.size(), pd = known == 9 ? definite(a) : known;
  M->begin("symmetric %s", show(a).c_str()); M->state(); M->step(6);
  SymmetricMatrix A = sym(a);
  Vector b(n), x(n); for (int i = 0; i < n; i++) b(i) = 3 * i - 1.5;
  if (pd < 0) {
    M->check(raises([&] { CholeskySolve(A, b, x); }), "CholeskySolve of a matrix that is not positive definite does not raise");
    Matrix B(n, 1); for (int i = 0; i < n; i++) B(i, 0) = b(i);
    M->check(raises([&] { CholeskySolve(A, B); }), "CholeskySolve (matrix) of a matrix that is not positive definite does not raise");
    SymmetricMatrix T = A; M->check(raises([&] { CholeskyFactorize(T); }), "CholeskyFactorize of a matrix that is not positive definite does not raise");
    T = A; M->check(raises([&] { CholeskyInvert(T); }), "CholeskyInvert of a matrix that is not positive definite does not raise");
  }
  if (pd > 0) {
    CholeskySolve(A, b, x);
    for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * x(j); if (!M->check(nr(s, b(i)), "CholeskySolve: row %d of Ax is %.12g, b is %g", i, s, b(i))) return; }
    Matrix B(n, 2); for (int i = 0; i < n; i++) { B(i, 0) = b(i); B(i, 1) = i == n - 1; }
    CholeskySolve(A, B);
    for (int i = 0; i < n; i++) for (int c = 0; c < 2; c++) { double s = 0, e = c ? i == n - 1 : b(i); for (int j = 0; j < n; j++) s += a[i][j] * B(j, c); if (!M->check(nr(s, e), "CholeskySolve (matrix): element %d,%d of AX is %.12g, B is %g", i, c, s, e)) return; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!M->check(el(A, i, j) == a[i][j], "CholeskySolve changed its matrix")) return;
    SymmetricMatrix T = A; CholeskyInvert(T);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += a[i][k] * el(T, k, j); if (!M->check(nr(s, i == j), "CholeskyInvert: element %d,%d of A*inverse is %.12g", i, j, s)) return; }
    T = A; CholeskyFactorize(T);
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
      double s = 0; for (int k = 0; k <= i; k++) s += el(T, k, i) * el(T, k, j);
      if (!M->check(nr(s, a[i][j]) && el(T, i, i) > 0, "CholeskyFactorize: element %d,%d of the product of the factors is %.12g", i, j, s)) return;
    }
    CholeskyDeFactorize(T);
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (!M->check(nr(el(T, i, j), a[i][j]), "CholeskyDeFactorize: element %d,%d is %.12g, expected %g", i, j, el(T, i, j), a[i][j])) return;
    // lower storage
    SymmetricMatrix L(n, flens::Lower); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) L(i, j) = a[i][j];
    CholeskyFactorize(L); CholeskyDeFactorize(L);
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (!M->check(nr(el(L, i, j), a[i][j]), "CholeskyDeFactorize (lower): element %d,%d is %.12g, expected %g", i, j, el(L, i, j), a[i][j])) return;
  }
  Vector ev(n); Matrix V(n, n);
  ComputeEigenVectorsSymmetric(A, ev, V);
  double tr = 0, ts = 0;
  for (int k = 0; k < n; k++) { tr += a[k][k]; ts += ev(k); if (k) if (!M->check(ev(k) >= ev(k - 1) - 1e-12, "ComputeEigenVectorsSymmetric: eigenvalues are not ascending")) return; }
  M->check(nr(ts, tr), "ComputeEigenVectorsSymmetric: eigenvalues add to %.12g, the trace is %g", ts, tr);
  for (int k = 0; k < n; k++) {
    for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * V(j, k); if (!M->check(nr(s, ev(k) * V(i, k), 1e-8), "ComputeEigenVectorsSymmetric: A v is not lambda v for pair %d", k)) return; }
    for (int l = 0; l < n; l++) { double s = 0; for (int i = 0; i < n; i++) s += V(i, k) * V(i, l); if (!M->check(nr(s, k == l), "ComputeEigenVectorsSymmetric: vectors %d and %d are not orthonormal", k, l)) return; }
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!M->check(el(A, i, j) == a[i][j], "ComputeEigenVectorsSymmetric changed its matrix")) return;
  for (int k = 1; k < n; k++) if (ev(k) - ev(k - 1) < 1e-5) return;  // (nearly) equal eigenvalues: rounding may make a complex pair
  Matrix G = mat(a), W(n, n); Vector gv(n); ComputeEigenVectors(G, gv, W);
  for (int k = 0; k < n; k++) {
    double nn = 0;
    for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * W(j, k); nn += W(i, k) * W(i, k); if (!M->check(nr(s, gv(k) * W(i, k), 1e-8), "ComputeEigenVectors: A v is not lambda v for pair %d", k)) return; }
    if (!M->check(nr(nn, 1), "ComputeEigenVectors: vector %d is not normed", k)) return;
  }
}

static void one_general(const D& a, double known = NAN) {
  int n = a.size(); double d = known == known ? known : det(a, n);
  bool zero = false;  // a zero row or column: certain to be found singular
  for (int i = 0; i < n; i++) { bool r = true, c = true; for (int j = 0; j < n; j++) { r = r && a[i][j] == 0; c = c && a[j][i] == 0; } zero = zero || r || c; }
  if (d == 0 && !zero) return;
  M->begin("general %s", show(a).c_str()); M->state(); M->step(3);
  Matrix A = mat(a), B = A; IntegerVector p(n);
  if (d == 0) { M->check(raises([&] { Invert(A); }), "Invert of a singular matrix does not raise"); M->check(raises([&] { TriangleFactorize(B, p); }), "TriangleFactorize of a singular matrix does not raise"); return; }
  Invert(A); TriangleFactorize(B, p); TriangleInvert(B, p);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    double s = 0, t = 0; for (int k = 0; k < n; k++) { s += a[i][k] * A(k, j); t += a[i][k] * B(k, j); }
    if (!M->check(nr(s, i == j), "Invert: element %d,%d of A*inverse is %.12g", i, j, s)) return;
    if (!M->check(nr(t, i == j), "TriangleFactorize and TriangleInvert: element %d,%d of A*inverse is %.12g", i, j, t)) return;
  }
}

// A = S D S^-1 with S = unit lower * unit upper (integers): distinct real eigenvalues, not symmetric
static void one_eigen(const vector<double>& d, const vector<double>& lo, const vector<double>& up) {
  int n = d.size(), k = 0; D L(n, vector<double>(n)), U = L, S = L, I = L, a = L;
  for (int i = 0; i < n; i++) { L[i][i] = U[i][i] = 1; for (int j = 0; j < i; j++) { L[i][j] = lo[k]; U[j][i] = up[k++]; } }
  auto mul = [&](const D& x, const D& y) { D r(n, vector<double>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int l = 0; l < n; l++) r[i][j] += x[i][l] * y[l][j]; return r; };
  auto inv = [&](const D& x, bool lower) { D r(n, vector<double>(n)); for (int c = 0; c < n; c++) { for (int q = 0; q < n; q++) { int i = lower ? q : n - 1 - q; double v = i == c; for (int j = 0; j < n; j++) if (lower ? j < i : j > i) v -= x[i][j] * r[j][c]; r[i][c] = v; } } return r; };
  S = mul(L, U); I = mul(inv(U, false), inv(L, true));
  D E(n, vector<double>(n)); for (int i = 0; i < n; i++) E[i][i] = d[i];
  a = mul(mul(S, E), I);
  M->begin("matrix %s with known eigenvalues", show(a).c_str()); M->state(); M->step(1);
  double sz = 1; for (auto& r : a) for (double x : r) sz = max(sz, fabs(x));
  Matrix G = mat(a), W(n, n); Vector gv(n); ComputeEigenVectors(G, gv, W);
  vector<double> got, want = d;
  for (int j = 0; j < n; j++) {
    double nn = 0; got.push_back(gv(j));
    for (int i = 0; i < n; i++) { double s = 0; for (int l = 0; l < n; l++) s += a[i][l] * W(l, j); nn += W(i, j) * W(i, j); if (!M->check(fabs(s - gv(j) * W(i, j)) < 1e-9 * sz, "ComputeEigenVectors: A v is not lambda v for pair %d", j)) return; }
    if (!M->check(nr(nn, 1), "ComputeEigenVectors: vector %d is not normed", j)) return;
  }
  sort(got.begin(), got.end()); sort(want.begin(), want.end());
  for (int j = 0; j < n; j++) if (!M->check(fabs(got[j] - want[j]) < 1e-6 * sz, "ComputeEigenVectors: eigenvalue %d is %.12g, expected %g", j, got[j], want[j])) return;
}

static void one_triangular(const D& a) {
  int n = a.size(); bool sing = false; for (int i = 0; i < n; i++) sing = sing || a[i][i] == 0;
  M->begin("upper triangular %s", show(a).c_str()); M->state(); M->step(2);
  SymmetricMatrix A = sym(a); Vector b(n), x(n); for (int i = 0; i < n; i++) b(i) = 2 - 1.25 * i;
  if (sing) { M->check(raises([&] { TriangularSolve(A, b, x); }), "TriangularSolve of a singular matrix does not raise"); return; }
  TriangularSolve(A, b, x);
  for (int i = 0; i < n; i++) { double s = 0; for (int j = i; j < n; j++) s += a[i][j] * x(j); if (!M->check(nr(s, b(i)), "TriangularSolve: row %d of Ax is %.12g, b is %g", i, s, b(i))) return; }
}

static void one_complex(const DC& a, bool positive = false) {
  int n = a.size(); bool neg = false, zero = false;
  for (int k = 1; k <= n && !positive; k++) { double d = det(a, k).real(); if (d < 0) { neg = true; break; } if (d == 0) { zero = true; break; } }
  M->begin("Hermitian %s", show(a).c_str()); M->state(); M->step(3);
  ComplexMatrix A(n, n), B(n, 2), T(n, n);
  for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) A(i, j) = a[i][j]; B(i, 0) = C(i, 1 - i); B(i, 1) = C(0.5, i); }
  Adjoint(A, T); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!M->check(T(i, j) == conj(a[j][i]), "Adjoint")) return;
  ComplexMatrix E = A, W(n, n); ComplexVector ev(n);
  ComputeEigenVectorsComplex(E, ev, W);
  C ts = 0, tr = 0;
  for (int k = 0; k < n; k++) {
    ts += ev(k); tr += a[k][k]; double nn = 0;
    for (int i = 0; i < n; i++) { C s = 0; for (int j = 0; j < n; j++) s += a[i][j] * W(j, k); nn += norm(W(i, k)); if (!M->check(abs(s - ev(k) * W(i, k)) < 1e-8, "ComputeEigenVectorsComplex: A v is not lambda v for pair %d", k)) return; }
    if (!M->check(nr(nn, 1), "ComputeEigenVectorsComplex: vector %d is not normed", k)) return;
  }
  if (!M->check(abs(ts - tr) < 1e-8, "ComputeEigenVectorsComplex: eigenvalues do not add to the trace")) return;
  if (zero) return;
  ComplexMatrix X = B, AA = A;
  if (neg) { M->check(raises([&] { CholeskySolveComplex(AA, X); }), "CholeskySolveComplex of a matrix that is not positive definite does not raise"); return; }
  CholeskySolveComplex(AA, X);
  for (int i = 0; i < n; i++) for (int c = 0; c < 2; c++) { C s = 0; for (int j = 0; j < n; j++) s += a[i][j] * X(j, c); if (!M->check(abs(s - B(i, c)) < 1e-8, "CholeskySolveComplex: element %d,%d of AX differs from B", i, c)) return; }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  M = &m;
  bool th = m.thorough();
  m.part = "symmetric";
  {
    const double DG[] = {1, 4, 2, -1}, OF[] = {0, -1, 0.5, 2};
    for (int n = 1; n <= 3; n++) mc::sequences(4, n, [&](const vector<int>& d) { mc::sequences(4, n * (n - 1) / 2, [&](const vector<int>& o) {
      if (!m.next()) return;
      D a(n, vector<double>(n)); int k = 0;
      for (int i = 0; i < n; i++) { a[i][i] = DG[d[i]]; for (int j = i + 1; j < n; j++) a[i][j] = a[j][i] = OF[o[k++]]; }
      one_symmetric(a);
    }); });
    mc::sequences(th ? 3 : 2, 4, [&](const vector<int>& d) { mc::sequences(th ? 4 : 3, 6, [&](const vector<int>& o) {
      if (!m.next()) return;
      D a(4, vector<double>(4)); int k = 0;
      for (int i = 0; i < 4; i++) { a[i][i] = DG[d[i]]; for (int j = i + 1; j < 4; j++) a[i][j] = a[j][i] = OF[o[k++]]; }
      one_symmetric(a);
    }); });
    for (int n : {5, 8, 17}) for (int band = 0; band < 5; band++) { if (!m.next()) continue; D a(n, vector<double>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = abs(i - j) <= band ? (i == j ? 8 : 1.0 / (1 << abs(i - j))) : 0; if (n <= 8) one_symmetric(a); else one_symmetric(a, 1); }
    for (int n : {12, 20, 30, 64, 100}) for (int neg = 0; neg < 2; neg++) { if (!m.next()) continue; D a(n, vector<double>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j ? 2 * n + i : 1.0 / (1 + abs(i - j)); if (neg) a[n - 1][n - 1] = -1; one_symmetric(a, neg ? -1 : 1); }
  }
  m.part = "general";
  for (int n = 1; n <= 3; n++) { const double AL[] = {0, 1, -2, 3}; mc::sequences(th || n < 3 ? 4 : 3, n * n, [&](const vector<int>& s) {
    if (!m.next()) return;
    D a(n, vector<double>(n)); for (int i = 0; i < n * n; i++) a[i / n][i % n] = AL[s[i]];
    one_general(a);
  }); }
  for (int n : {4, 5, 6, 8, 12, 17, 30, 64, 100}) for (int shift = 0; shift < n && shift < 5; shift++) for (int zero = 0; zero < 2; zero++) {  // dominant elements in permuted rows
    if (!m.next()) continue;
    D a(n, vector<double>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[(i + shift) % n][j] = zero && i == n / 2 ? 0 : i == j ? 3 * n + i : ((i * 7 + j * 3) % 5) - 2;
    one_general(a, zero ? 0 : 1);
  }
  m.part = "eigenvectors";
  for (int n = 2; n <= 3; n++) {
    vector<vector<double>> ds = n == 2 ? vector<vector<double>>{{1, 2}, {2, 1}, {-1, 1}, {0, 3}, {5, -2}} : vector<vector<double>>{{1, 2, 3}, {3, 1, 2}, {2, 3, 1}, {3, 2, 1}, {-2, 0, 5}, {4, -4, 1}};
    const double AL[] = {0, 1, -2};
    for (auto& d : ds) mc::sequences(3, n * (n - 1), [&](const vector<int>& s) { if (!m.next()) return; int k = n * (n - 1) / 2; vector<double> lo, up; for (int i = 0; i < k; i++) { lo.push_back(AL[s[i]]); up.push_back(AL[s[k + i]]); } one_eigen(d, lo, up); });
  }
  for (int n = 4; n <= 6; n++) for (int v = 0; v < 8; v++) { if (!m.next()) continue; vector<double> d, lo, up; for (int i = 0; i < n; i++) d.push_back(3 * ((i * 5 + v) % n) - 4); for (int i = 0; i < n * (n - 1) / 2; i++) { lo.push_back((i + v) % 3 == 0); up.push_back((i * 2 + v) % 4 == 0 ? -1 : 0); } one_eigen(d, lo, up); }
  m.part = "triangular";
  for (int n = 1; n <= 4; n++) { const double AL[] = {1, -2, 0, 0.5}; mc::sequences(n < 4 ? 4 : 3, n * (n + 1) / 2, [&](const vector<int>& s) {
    if (!m.next()) return;
    D a(n, vector<double>(n)); int k = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a[i][j] = AL[s[k++]];
    one_triangular(a);
  }); }
  for (int n : {5, 8, 17, 40, 100}) for (int z : {-1, 0, n / 2, n - 1}) { if (!m.next()) continue; D a(n, vector<double>(n)); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a[i][j] = i == j ? (i == z ? 0 : i % 2 ? -2 - i : 2 + i) : ((i + 2 * j) % 5 - 2) / 4.0; one_triangular(a); }
  m.part = "complex";
  for (int n = 1; n <= 3; n++) { const double DG[] = {1, 4, 2, -1}; const C OF[] = {C(0, 0), C(0, 1), C(1, -0.5), C(-1, 0)}; mc::sequences(4, n, [&](const vector<int>& d) { mc::sequences(4, n * (n - 1) / 2, [&](const vector<int>& o) {
    if (!m.next()) return;
    DC a(n, vector<C>(n)); int k = 0;
    for (int i = 0; i < n; i++) { a[i][i] = DG[d[i]]; for (int j = i + 1; j < n; j++) { a[j][i] = OF[o[k++]]; a[i][j] = conj(a[j][i]); } }
    one_complex(a);
  }); }); }
  for (int n : {4, 5, 8, 17, 30}) for (int v = 0; v < 3; v++) { if (!m.next()) continue; DC a(n, vector<C>(n)); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { a[i][j] = i == j ? C(3 * n + (i * 5) % n) : C((i + j + v) % 3 - 1, (i * 2 + j) % 5 - 2); a[j][i] = conj(a[i][j]); } one_complex(a, true); }
  m.part = "files";
  const double VAL[] = {0, -1.5, 1e-300, -123456789.0, 3.14159265358979, 1e15};
  auto chop = [&](const string& f, const string& g, size_t n) { ifstream i(f, ios::binary); string s((istreambuf_iterator<char>(i)), {}); ofstream o(g, ios::binary); o << s.substr(0, n); };
  auto size = [&](const string& f) { ifstream i(f, ios::binary | ios::ate); return size_t(i.tellg()); };
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) for (int v = 0; v < 6; v++) for (int fmt = 0; fmt < 2; fmt++) {
    if (!m.next()) continue;
    LinalgFileFormat F = fmt ? MatrixBinary : MatrixAscii; double tol = fmt ? 0 : 6e-9;
    m.begin("%dx%d matrix from value %d, %s file", r, c, v, fmt ? "binary" : "ascii"); m.state(); m.step(8);
    Matrix A(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) A(i, j) = VAL[(v + i * c + j) % 6];
    string f = m.scratch + "/m", g = m.scratch + "/g";
    auto close = [&](double a, double b) { return a == b || fabs(a - b) <= tol * fabs(b); };
    WriteMatrixToFile(f, A, F); Matrix B = ReadMatrixFromFile(f, r, c, F);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m.check(close(B(i, j), A(i, j)), "element %d,%d was written as %.17g and read as %.17g", i, j, A(i, j), B(i, j));
    m.check(raises([&] { ReadMatrixFromFile(f, r + 1, c, F); }), "reading more rows than the file has does not raise");
    if (r > 1) m.check(raises([&] { ReadMatrixFromFile(f, r - 1, c, F); }), "reading fewer rows than the file has does not raise");
    if (fmt) for (size_t k = 0; k < size(f); k++) { chop(f, g, k); if (!m.check(raises([&] { ReadMatrixFromFile(g, r, c, F); }), "a file cut to %zu bytes does not raise", k)) break; }
    else for (int k = 0; k < r * c; k++) { chop(f, g, 18 * k + k / c); if (!m.check(raises([&] { ReadMatrixFromFile(g, r, c, F); }), "a file cut to %d numbers does not raise", k)) break; }
    int n = r * c; Vector x(n); for (int i = 0; i < n; i++) x(i) = VAL[(v + i) % 6];
    WriteVectorToFile(f, x, F); Vector y = ReadVectorFromFile(f, n, F);
    for (int i = 0; i < n; i++) m.check(close(y(i), x(i)), "vector element %d was written as %.17g and read as %.17g", i, x(i), y(i));
    m.check(raises([&] { ReadVectorFromFile(f, n + 1, F); }), "reading a longer vector than the file has does not raise");
    if (n > 1) m.check(raises([&] { ReadVectorFromFile(f, n - 1, F); }), "reading a shorter vector than the file has does not raise");
    if (r == c) for (int lo = 0; lo < 2; lo++) {
      SymmetricMatrix S(r, lo ? flens::Lower : flens::Upper); for (int i = 0; i < r; i++) for (int j = i; j < r; j++) (lo ? S(j, i) : S(i, j)) = A(i, j);
      WriteMatrixToFile(f, S, F); Matrix Q = ReadMatrixFromFile(f, r, r, F);
      for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) m.check(close(Q(i, j), A(min(i, j), max(i, j))), "symmetric element %d,%d is read as %.17g", i, j, Q(i, j));
    }
  }
  m.part = "helpers";
  for (int n = 1; n <= 5; n++) {
    if (!m.next()) continue;
    m.begin("helpers of size %d", n); m.state(); m.step(8);
    Matrix A(n, n + 1); InitializeMatrix(A, 2.5); for (int i = 0; i < n; i++) for (int j = 0; j <= n; j++) m.check(A(i, j) == 2.5, "InitializeMatrix");
    ComplexMatrix CM(n + 1, n); InitializeComplexMatrix(CM, C(1, -2)); for (int i = 0; i <= n; i++) for (int j = 0; j < n; j++) m.check(CM(i, j) == C(1, -2), "InitializeComplexMatrix");
    SymmetricMatrix S(n); InitializeSymmetricMatrix(S, -3); SymmetricMatrix Z = SymmetricZeroMatrix(n); Matrix Y = ZeroMatrix(n), I = IdentityMatrix(n); Vector zv = ZeroVector(n);
    m.check(S.dim() == n && Z.dim() == n && Y.numRows() == n && Y.numCols() == n && I.numRows() == n && I.numCols() == n && zv.length() == n, "sizes");
    for (int i = 0; i < n; i++) { m.check(zv(i) == 0, "ZeroVector"); for (int j = 0; j < n; j++) { m.check(Y(i, j) == 0 && I(i, j) == (i == j), "ZeroMatrix or IdentityMatrix"); m.check(el(S, i, j) == -3 && el(Z, i, j) == 0, "InitializeSymmetricMatrix or SymmetricZeroMatrix"); } }
    vector<vector<float>> rows(n, vector<float>(n + 1)); vector<float*> pt; for (int i = 0; i < n; i++) { for (int j = 0; j <= n; j++) rows[i][j] = 10 * i + j; pt.push_back(rows[i].data()); }
    SetMatrixFrom2DArray(A, pt.data()); for (int i = 0; i < n; i++) for (int j = 0; j <= n; j++) { m.check(A(i, j) == 10 * i + j, "SetMatrixFrom2DArray"); A(i, j) += 0.5; }
    Set2DArrayFromMatrix(A, pt.data()); for (int i = 0; i < n; i++) for (int j = 0; j <= n; j++) m.check(rows[i][j] == 10 * i + j + 0.5f, "Set2DArrayFromMatrix");
  }
  { const double AL[] = {-200000, -1, 0, 0.5, 7, -1e300, 1e300};
    for (int n = 1; n <= 4; n++) mc::sequences(7, n, [&](const vector<int>& s) {
      if (!m.next()) return;
      string h; Vector v(n); double mx = -HUGE_VAL; for (int i = 0; i < n; i++) { v(i) = AL[s[i]]; mx = max(mx, v(i)); h += mc::fmt("%g ", v(i)); }
      m.begin("values %s", h.c_str()); m.state(); m.step(2);
      m.check(FindLargestElement(v) == mx, "FindLargestElement is %g", FindLargestElement(v));
      if (n == 3) {
        Matrix E(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) E(i, j) = 10 * j + i;
        Vector w = v; Sort3x3(w, E);
        vector<double> want = {v(0), v(1), v(2)}; sort(want.rbegin(), want.rend());
        set<int> used;
        for (int k = 0; k < 3; k++) { m.check(w(k) == want[k], "Sort3x3: value %d is %g, expected %g", k, w(k), want[k]); int c = int(E(0, k)) / 10; used.insert(c); m.check(c >= 0 && c < 3 && v(c) == w(k) && E(0, k) == 10 * c && E(1, k) == 10 * c + 1 && E(2, k) == 10 * c + 2, "Sort3x3: vector %d does not belong to its value", k); }
        m.check(used.size() == 3, "Sort3x3 uses a vector twice");
      }
    }); }
  m.finish();
}
