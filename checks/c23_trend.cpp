// C23: trends: values, scaling, files and resampling.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <nrlib/exception/exception.hpp>
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/trend/trend.hpp>
#include <nrlib/trend/trendkit.hpp>
#include <nrlib/volume/volume.hpp>
using namespace std;
using namespace NRLib;
static mc::MC* M;
template <class F> static bool raises(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static const double TOL = 1e-9;
template <class... A> static bool nearf(double a, double b, double tol, const char* f, A... args) {
  if (a == b || fabs(a - b) <= tol * max(1.0, max(fabs(a), fabs(b)))) return true;
  M->fail(mc::fmt(f, args...) + mc::fmt(": implementation %.12g, model %.12g", a, b));
  return false;
}

// ---- model: values on a regular lattice, multilinear between, constant beyond ------------------------
struct Model {
  int dim; int n[3]; int ref[2];      // lattice; which of the three coordinates each axis follows (1D, 2D)
  double inc[3];                      // distance between lattice points
  vector<double> v;
  double& at(int i, int j, int k) { return v[i + n[0] * (j + n[1] * k)]; }
  double idx(double s, int a) const { double i = s / inc[a]; return n[a] == 1 ? 0.0 : min(max(i, 0.0), n[a] - 1.0); }
  double value(double a, double b, double c) const {   // lattice coordinates
    double q[3] = {a, b, c}, r = 0; int o[3]; double t[3];
    for (int d = 0; d < 3; d++) { q[d] = idx(q[d], d); o[d] = min(int(floor(q[d])), max(n[d] - 2, 0)); t[d] = q[d] - o[d]; }
    for (int m = 0; m < 8; m++) {
      double w = 1; int p[3];
      for (int d = 0; d < 3; d++) { int u = m >> d & 1; w *= u ? t[d] : 1 - t[d]; p[d] = min(o[d] + u, n[d] - 1); }
      if (w != 0) r += w * v[p[0] + n[0] * (p[1] + n[1] * p[2])];
    }
    return r;
  }
};
static bool check_trend(const Trend& t, Model& m, const char* what, bool unit) {
  double mx = *max_element(m.v.begin(), m.v.end()), mn = *min_element(m.v.begin(), m.v.end()), sum = 0; for (double x : m.v) sum += x;
  bool ok = true;
  ok &= nearf(t.GetMaxValue(), mx, TOL, "%s: largest value", what);
  ok &= nearf(t.GetMinValue(), mn, TOL, "%s: smallest value", what);
  ok &= nearf(t.GetMeanValue(), sum / m.v.size(), TOL, "%s: mean value", what);
  ok &= M->check(t.CheckForNegative() == (mn >= 0), "%s: CheckForNegative does not tell of negative values", what);
  ok &= M->check(t.GetTrendDimension() == m.dim, "%s: wrong dimension", what);
  vector<int> sz = t.GetTrendSize(); vector<double> in = t.GetIncrement();
  if (m.dim == 3) ok &= M->check(sz == vector<int>({m.n[0], m.n[1], m.n[2]}), "%s: wrong size", what);
  else if (m.dim) for (int d = 1; d <= 3; d++) {
    int a = m.ref[0] == d ? 0 : m.dim > 1 && m.ref[1] == d ? 1 : -1;
    ok &= M->check(sz[d - 1] == (a < 0 ? 0 : m.n[a]), "%s: wrong size in direction %d", what, d);
    if (a < 0 || m.n[a] > 1) ok &= nearf(in[d - 1], a < 0 ? 0 : m.inc[a], TOL, "%s: increment in direction %d", what, d);
  }
  if (m.dim == 1 || m.dim == 2) ok &= M->check(t.GetReference() == m.ref[0], "%s: wrong reference", what);
  if (!ok) return false;
  for (int k = 0; k < m.n[2]; k++) for (int j = 0; j < m.n[1]; j++) for (int i = 0; i < m.n[0]; i++) {
    int g[3] = {9, 9, 9}, l[3] = {i, j, k};
    if (m.dim == 3) { g[0] = i; g[1] = j; g[2] = k; } else for (int a = 0; a < m.dim; a++) g[m.ref[a] - 1] = l[a];
    if (!nearf(t.GetTrendElement(g[0], g[1], g[2]), m.at(i, j, k), TOL, "%s: element (%d,%d,%d)", what, i, j, k)) return false;
  }
  // positions: the three relative coordinates
  const double L = -0.375, H = 1.375, S = M->thorough() ? 0.0625 : 0.125;
  double sc[3] = {1, 1, 1};
  for (int a = 0; a < 3; a++) sc[a] = m.inc[a] * max(m.n[a] - 1, 1);
  vector<double> P; for (double s = L; s <= H + 1e-9; s += S) P.push_back(s); for (double s : {1 / 3.0, 2 / 3.0, 0.99, 1e-3}) P.push_back(s);
  for (double a : P) for (double b : (m.dim >= 2 || m.dim == 0 ? P : vector<double>{0.4})) for (double c : (m.dim == 3 ? P : vector<double>{0.7})) {
    if (m.dim == 3 && (a < 0 || a > 1 || b < 0 || b > 1 || c < 0 || c > 1)) continue;   // not defined without a volume
    double want = m.value(a * sc[0], b * sc[1], c * sc[2]), got;
    if (m.dim == 0) got = t.GetValue(a, b, c);
    else if (m.dim == 1) { double g[3] = {3.3, -2, 0.2}; g[m.ref[0] - 1] = a * sc[0]; got = t.GetValue(g[0], g[1], g[2]); }
    else got = t.GetValue(a * sc[0], b * sc[1], c * sc[2]);
    if (!nearf(got, want, 1e-8, "%s: value at (%g,%g,%g)", what, a, b, c)) return false;
  }
  if (!unit) return true;
  static const Volume vol(100, 200, 8, 5, ConstantSurface<double>(1000), ConstantSurface<double>(1010), 0.3);
  for (double a : P) for (double b : P) for (double c : (m.dim == 3 || m.dim == 0 ? P : vector<double>{a})) {
    double g[3] = {a, b, c}, l[3] = {0, 0, 0};
    if (m.dim == 3) for (int d = 0; d < 3; d++) l[d] = g[d]; else for (int d = 0; d < m.dim; d++) l[d] = g[m.ref[d] - 1];
    if (!nearf(t.GetValue(a * 8, b * 5, c * 10, vol), m.value(l[0] * sc[0], l[1] * sc[1], l[2] * sc[2]), 1e-8, "%s: value in a volume at relative (%g,%g,%g)", what, a, b, c)) return false;
    M->step();
  }
  return true;
}
static const int NOPS = 7;
static bool apply(Trend& t, Model& m, int op) {
  double sum = 0; for (double x : m.v) sum += x; double mean = sum / m.v.size();
  switch (op) {
  case 0: t.AddConstant(1.5); for (double& x : m.v) x += 1.5; M->note(" AddConstant(1.5)"); return true;
  case 1: t.AddConstant(-4); for (double& x : m.v) x -= 4; M->note(" AddConstant(-4)"); return true;
  case 2: t.Truncate(-1, 1.25); for (double& x : m.v) x = min(max(x, -1.0), 1.25); M->note(" Truncate(-1, 1.25)"); return true;
  case 3: t.Truncate(0, 100); for (double& x : m.v) x = max(x, 0.0); M->note(" Truncate(0, 100)"); return true;
  case 4: t.Truncate(0.5, 0.5); for (double& x : m.v) x = 0.5; M->note(" Truncate(0.5, 0.5)"); return true;
  case 5: case 6: {
    double g = op == 5 ? 2 : 0.25; if (fabs(mean) < 1e-6) return false;
    t.ScaleToAverage(g); for (double& x : m.v) x = m.dim ? x * g / mean : g; M->note(" ScaleToAverage(%g)", g); return true; }
  }
  return false;
}
template <class F> static void histories(Model m0, F make, int depth, bool unit) {
  for (int d = 0; d <= depth; d++) mc::sequences(NOPS, d, [&](const vector<int>& ops) {
    if (!M->next()) return;
    string vs; for (double x : m0.v) vs += mc::fmt(" %g", x);
    M->begin("%dD trend %dx%dx%d along %d %d, values%s:", m0.dim, m0.n[0], m0.n[1], m0.n[2], m0.ref[0], m0.ref[1], vs.c_str()); M->state();
    try {
      unique_ptr<Trend> t(make()); Model m = m0;
      for (int op : ops) { unique_ptr<Trend> c(t->Clone()); Model b = m; if (!apply(*t, m, op)) return; M->step();
        if (&op == &ops.back() && !nearf(c->GetMeanValue(), [&] { double s = 0; for (double x : b.v) s += x; return s / b.v.size(); }(), TOL, "a clone changed with its original")) return;
        if (ops.size() == 2 && &op == &ops[0] && !check_trend(*c, b, "clone", unit)) return; }
      if (!check_trend(*t, m, ops.empty() ? "new" : "after these", unit)) return;
      if (ops.size() < 2) { unique_ptr<Trend> c(t->Clone()); t.reset(); if (!check_trend(*c, m, "a clone that outlives its original", unit)) return; }
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
  });
}
static Model model(int dim, int a, int b, int c, int r1, int r2) {
  Model m; m.dim = dim; m.n[0] = a; m.n[1] = b; m.n[2] = c; m.ref[0] = r1; m.ref[1] = r2;
  for (int d = 0; d < 3; d++) m.inc[d] = 1.0 / max(m.n[d] - 1, 1);
  m.v.resize(a * b * c); return m;
}
static const int REF[][2] = {{1, 2}, {1, 3}, {2, 3}};
static void values() {
  M->part = "values";
  // constant
  for (double v : {-1.0, 0.0, 2.5}) { Model m = model(0, 1, 1, 1, 0, 0); m.v[0] = v; histories(m, [&]() -> Trend* { return new TrendConstant(v); }, 3, true); }
  // one direction: all assignments of few values
  for (int n = 2; n <= (M->thorough() ? 5 : 4); n++) for (int ref = 1; ref <= 3; ref++) for (int dz = 0; dz < 3; dz++)
    for (int s = 0, top = int(pow(4, n) + .5); s < top; s++) {
      Model m = model(1, n, 1, 1, ref, 0); static const double X[] = {-1, 0, 2, 3.5};
      for (int i = 0, q = s; i < n; i++, q /= 4) m.v[i] = X[q % 4];
      if (dz) m.inc[0] = dz == 1 ? 0.25 : 3;
      histories(m, [&]() -> Trend* { return dz ? new Trend1D(m.v, ref, m.inc[0]) : new Trend1D(m.v, ref); }, s % 16 == 6 ? 2 : dz ? 0 : 1, !dz);
    }
  // two directions
  for (int a : {1, 2, 3, 24}) for (int b : {1, 2, 3, 17}) for (auto& r : REF) for (int dz = 0; dz < 2; dz++) for (int s = 0; s < (M->thorough() ? 12 : 4); s++) {
    Model m = model(2, a, b, 1, r[0], r[1]); if (dz) { m.inc[0] = 0.2; m.inc[1] = 7; }
    for (int i = 0; i < a * b; i++) m.v[i] = ((i + 1) * (s + 3) * 7 % 11) - (s % 2 ? 0 : 4) + 0.25 * s;
    Grid2D<double> g(a, b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) g(i, j) = m.at(i, j, 0);
    histories(m, [&]() -> Trend* { return dz ? new Trend2D(g, r[0], r[1], m.inc[0], m.inc[1]) : new Trend2D(g, r[0], r[1]); }, dz ? 1 : 2, !dz);
  }
  // three
  for (int a : {1, 2, 3, 11}) for (int b : {1, 2, 3, 7}) for (int c : {1, 2, 3, 9}) for (int s = 0; s < (M->thorough() ? 6 : 2); s++) {
    Model m = model(3, a, b, c, 0, 0);
    for (int i = 0; i < a * b * c; i++) m.v[i] = ((i + 1) * (s + 3) * 7 % 29) - (s % 2 ? 0 : 4) + 0.25 * s;
    Grid<double> g(a, b, c); for (int k = 0; k < c; k++) for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) g(i, j, k) = m.at(i, j, k);
    histories(m, [&]() -> Trend* { Grid<double> h = g; return new Trend3D(h); }, M->thorough() ? 2 : 1, true);
  }
  // parameters that are not valid
  if (M->next()) {
    M->begin("parameters that are not valid"); M->state();
    for (int r : {0, 4, -1}) M->check(raises([&] { Trend1D t(vector<double>(3, 1.0), r); }) && raises([&] { Trend1D t(vector<double>(3, 1.0), r, 0.5); }), "reference %d was accepted", r);
    M->check(raises([&] { Trend1D t(vector<double>(), 1); }), "no values were accepted");
  }
}
// ---- files ---------------------------------------------------------------------------------------
static void spit(const string& f, const string& s) { ofstream o(f, ios::binary); o.write(s.data(), s.size()); }
static string num(double x, int st) { return st == 0 ? mc::fmt("%g", x) : st == 1 ? mc::fmt("%.6f", x) : mc::fmt("%.6e", x); }
static void files() {
  M->part = "files";
  string fn = M->scratch + "/t";
  // 1D: plain and with a header after comments
  const char* COM[] = {"", "* comment\n", "* a comment of several 1.5 words\n", "\"quoted\"\n", "\"quoted 3\" x\n*\n", "*** 1\n* 2\n* 3 4\n", "*x\n"};
  for (int com = 0; com < 7; com++) for (int n : {2, 3, 4, 60, 500}) for (int st = 0; st < 3; st++) for (int sep = 0; sep < 4; sep++) for (int end = 0; end < 3; end++) for (int hs = 0; hs < (com ? 3 : 1); hs++) {
    if (!M->next()) continue;
    Model m = model(1, n, 1, 1, 1, 0); string body, head = COM[com];
    for (int i = 0; i < n; i++) { m.v[i] = (i * 5 % 7) - 2 + 0.5 * com; body += num(m.v[i], st) + (i + 1 == n ? (end == 0 ? "\n" : end == 1 ? "" : "  \n\n") : sep == 0 ? "\n" : sep == 1 ? " " : sep == 2 ? "\t" : "\n\n"); }
    if (com) head += num(10, st) + (hs == 1 ? " start" : hs == 2 ? "  " : "") + "\n" + num(4, st) + (hs == 1 ? " step 4\n" : "\n") + mc::fmt("%d", n) + (hs == 1 ? " number of\n" : "\n");
    spit(fn, head + body);
    M->begin("1D trend file [%s]", (head + body).c_str()); M->state();
    try {
      string err; int f = GetTrend1DFileFormat(fn, err);
      if (!M->check(f == (com ? 0 : 1) && err.empty(), "format is reported as %d, error [%s]", f, err.c_str())) continue;
      for (int ref = 1; ref <= 3; ref++) { m.ref[0] = ref; Trend1D t(fn, ref); if (!check_trend(t, m, "read", true)) break; M->step(); }
      if (com) { vector<double> v; double s0, dz; ReadTrend1D(fn, err, v, s0, dz); M->check(err.empty() && v == m.v && s0 == 10 && dz == 4, "start, step or values of ReadTrend1D are wrong"); }
      M->check(raises([&] { Trend1D t(fn, 0); }) && raises([&] { Trend1D t(fn, 4); }), "a reference outside 1 to 3 was accepted");
      if (com && n == 4 && end == 0) for (size_t c = 0; c < head.size() + body.size() - 1; c++) {   // cut before the end of the last number
        string s = (head + body).substr(0, c); spit(fn, s); M->step();
        bool partial = false; if (c > head.size() + body.rfind(num(m.v[3], st))) partial = true;      // a shorter last number
        if (!partial && !M->check(raises([&] { Trend1D t(fn, 1); }), "a file cut after %zu of %zu bytes was accepted", c, head.size() + body.size())) break;
      }
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
  }
  // 2D and 3D text
  for (int a : {1, 2, 3, 13}) for (int b : {1, 2, 3, 11}) for (int c : {0, 1, 2, 3, 9}) for (int st = 0; st < 3; st++) for (int sep = 0; sep < 3; sep++) for (int end = 0; end < 2; end++) {
    if (!M->next()) continue;
    Model m = model(c ? 3 : 2, a, b, max(c, 1), 1, 2); string head = c ? mc::fmt("%d %d %d\n", a, b, c) : mc::fmt("%d %d\n", a, b), body, last;
    for (size_t i = 0; i < m.v.size(); i++) m.v[i] = (int(i) * 5 % 7) - 2 + 0.5 * sep;
    size_t nn = m.v.size(), q = 0;
    auto put = [&](double x) { last = num(x, st); body += last; if (++q < nn) body += sep == 0 ? " " : sep == 1 ? "\n" : q % 2 ? "  " : " \n"; };
    if (c) for (double x : m.v) put(x); else for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) put(m.at(i, j, 0));
    if (!end) body += "\n";
    spit(fn, head + body);
    M->begin("%dD trend file [%s]", m.dim, (head + body).c_str()); M->state();
    try {
      if (c) { Trend3D t(fn); check_trend(t, m, "read", true); }
      else for (auto& r : REF) { m.ref[0] = r[0]; m.ref[1] = r[1]; Trend2D t(fn, r[0], r[1]); if (!check_trend(t, m, "read", true)) break; }
      string all = head + body;
      for (size_t k = 0; k <= all.size() - last.size() - !end; k += all.size() > 400 ? all.size() / 37 : 1) { spit(fn, all.substr(0, k)); M->step(); if (!M->check(raises([&] { if (c) Trend3D t(fn); else Trend2D t(fn); }), "a file cut after %zu of %zu bytes was accepted", k, all.size())) break; }
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
  }
  // 3D binary
  for (int a : {1, 2, 3, 14}) for (int b : {1, 2, 3, 12}) for (int c : {1, 2, 3, 10}) for (int be = 0; be < 2; be++) {
    if (!M->next()) continue;
    Model m = model(3, a, b, c, 0, 0); string all;
    auto put = [&](const void* p) { const char* q = static_cast<const char*>(p); for (int i = 0; i < 4; i++) all += q[be ? 3 - i : i]; };
    for (int d : {a, b, c}) put(&d);
    for (size_t i = 0; i < m.v.size(); i++) { m.v[i] = (int(i) * 5 % 7) - 2 + 0.25 * b; float f = float(m.v[i]); put(&f); }
    spit(fn, all);
    M->begin("binary 3D trend file %dx%dx%d, %s endian", a, b, c, be ? "big" : "little"); M->state();
    try {
      Endianess e = be ? END_BIG_ENDIAN : END_LITTLE_ENDIAN;
      Trend3D t(fn, true, e); check_trend(t, m, "read", true);
      for (size_t k = 0; k < all.size(); k += all.size() > 400 ? all.size() / 37 : 1) { spit(fn, all.substr(0, k)); M->step(); if (!M->check(raises([&] { Trend3D t(fn, true, e); }), "a file cut after %zu of %zu bytes was accepted", k, all.size())) break; }
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
  }
}
// ---- resampling and interpolation ----------------------------------------------------------------
static void resampling() {
  M->part = "resampling";
  // ascending positions in the range of an ascending sampling
  for (int mask = 0; mask < (1 << 7); mask++) for (int ys = 1; ys < (1 << 9); ys++) {
    if (__builtin_popcount(mask) < 2 || (!M->thorough() && __builtin_popcount(ys) > 4 && __builtin_popcount(ys) < 8)) continue;
    if (!M->next()) continue;
    vector<double> x, fx, y; for (int i = 0; i < 7; i++) if (mask >> i & 1) { x.push_back(i * 0.5 - 1); fx.push_back(i * i % 5 - 0.5 * i); }
    for (int i = 0; i < 9; i++) if (ys >> i & 1) { double q = x.front() + (x.back() - x.front()) * i / 8; y.push_back(q); }
    M->begin("ResampleTrend1D from sampling %d to positions %d", mask, ys); M->state();
    vector<double> fy(y.size(), -77.0);
    ResampleTrend1D(x, fx, y, fy);
    for (size_t j = 0; j < y.size(); j++) {
      size_t i = 0; while (i + 2 < x.size() && y[j] > x[i + 1]) i++;
      double t = (y[j] - x[i]) / (x[i + 1] - x[i]), w = fx[i] * (1 - t) + fx[i + 1] * t;
      if (!nearf(fy[j], w, 1e-9, "value %zu, at %g", j, y[j])) break;
      M->step();
    }
  }
  // regular samplings: linear and bilinear interpolation, missing outside
  for (int n : {2, 3, 4, 5, 40}) for (double x0 : {0.0, -3.0, 1000.0}) for (double dx : {1.0, 0.25, 20.0}) for (int ms = 0; ms < 2; ms++) {
    if (M->next()) {
      M->begin("LinearInterpolation of %d values from %g step %g", n, x0, dx); M->state();
      vector<double> x, y, p, r; for (int i = 0; i < n; i++) { x.push_back(x0 + dx * i); y.push_back((i * 3 % 5) - 1.5); }
      for (double q = -1; q <= n + 1e-9; q += 0.125) p.push_back(x0 + dx * q);
      if (ms) r.assign(p.size(), 5.0);
      LinearInterpolation(x, y, p, r);
      if (M->check(r.size() == p.size(), "%zu values for %zu positions", r.size(), p.size())) for (size_t k = 0; k < p.size(); k++) {
        double q = (p[k] - x0) / dx, w; if (q < -1e-9 || q > n - 1 + 1e-9) w = RMISSING; else { int i = min(int(q), n - 2); w = y[i] + (q - i) * (y[i + 1] - y[i]); }
        if (!nearf(r[k], w, 1e-8, "value at %g", p[k])) break;
        M->step();
      }
    }
    for (int m = 2; m <= 4; m++) {
      if (!M->next()) continue;
      M->begin("Interpolate in %dx%d values from %g step %g, missing %d", n, m, x0, dx, ms); M->state();
      vector<double> x, y, px, py; vector<vector<double>> z(n, vector<double>(m)), r;
      for (int i = 0; i < n; i++) x.push_back(x0 + dx * i);
      for (int j = 0; j < m; j++) y.push_back(-x0 + 2 * dx * j);
      for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) z[i][j] = (i * 7 + j * 3) % 11;
      if (ms) z[n / 2][m / 2] = RMISSING;
      for (double q = -0.5; q <= n - 0.4; q += 0.125) px.push_back(x0 + dx * q);
      for (double q = -0.5; q <= m - 0.4; q += 0.125) py.push_back(-x0 + 2 * dx * q);
      r.assign(px.size(), vector<double>(py.size(), 1.0));
      BilinearInterpolation(x, y, z, px, py, r);
      bool ok = true;
      for (size_t a = 0; a < px.size() && ok; a++) for (size_t b = 0; b < py.size() && ok; b++) {
        double q = (px[a] - x0) / dx, s = (py[b] + x0) / (2 * dx), w;
        if (q < -1e-9 || s < -1e-9 || q > n - 1 + 1e-9 || s > m - 1 + 1e-9) w = RMISSING;
        else { int i = min(int(q), n - 2), j = min(int(s), m - 2); double t = q - i, u = s - j; double c[4] = {z[i][j], z[i + 1][j], z[i][j + 1], z[i + 1][j + 1]}, f[4] = {(1 - t) * (1 - u), t * (1 - u), (1 - t) * u, t * u};
          w = 0; bool gone = false; for (int k = 0; k < 4; k++) { if (c[k] == RMISSING) gone = true; w += c[k] * f[k]; } if (gone) { ok = M->check(r[a][b] == RMISSING, "a value was given at (%g,%g) in a cell with a missing corner", px[a], py[b]); continue; } }
        ok = nearf(r[a][b], w, 1e-8, "value at (%g,%g)", px[a], py[b]) && nearf(Interpolate(x, y, z, px[a], py[b]), w, 1e-8, "Interpolate at (%g,%g)", px[a], py[b]); M->step();
      }
    }
  }
  // a surface resampled at given positions, also transposed
  for (int nx = 1; nx <= 4; nx++) for (int ny = 1; ny <= 4; ny++) for (int tr = 0; tr < 2; tr++) {
    if (!M->next()) continue;
    M->begin("ResampleTrend2D at %dx%d positions, transpose %d", nx, ny, tr); M->state();
    RegularSurface<double> s(0, 0, 12, 12, 5, 5); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) s(i, j) = i * 2 + j * j - 3;
    vector<double> x, y; for (int i = 0; i < nx; i++) x.push_back(0.5 + i * 2.75); for (int j = 0; j < ny; j++) y.push_back(1.25 + j * 3);
    RegularSurface<double> r = ResampleTrend2D(s, x, y, tr);
    if (!M->check(int(r.GetNI()) == nx && int(r.GetNJ()) == ny, "wrong size")) continue;
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { nearf(r(i, j), tr ? s.GetZ(y[j], x[i]) : s.GetZ(x[i], y[j]), 1e-9, "value (%d,%d)", i, j); M->step(); }
  }
}
// ---- binning, order and bounds ---------------------------------------------------------------------
static void tools() {
  M->part = "tools";
  for (int n = 1; n <= (M->thorough() ? 7 : 6); n++) mc::sequences(n < 6 ? 4 : 3, n, [&](const vector<int>& s) {
    if (!M->next()) return;
    vector<double> x(s.begin(), s.end()); string t; for (double v : x) t += mc::fmt(" %g", v);
    M->begin("values%s", t.c_str()); M->state();
    vector<double> so; vector<size_t> o, r; SortOrderAndRank(x, so, o, r);
    bool ok = so.size() == x.size() && o.size() == x.size() && r.size() == x.size() && is_sorted(so.begin(), so.end());
    for (size_t i = 0; ok && i < x.size(); i++) ok = o[i] < x.size() && so[i] == x[o[i]] && r[o[i]] == i;
    if (!M->check(ok, "SortOrderAndRank: values, order and rank do not agree")) return;
    if (!M->check(CheckIfVectorIsSorted(x) == is_sorted(x.begin(), x.end()), "CheckIfVectorIsSorted is wrong")) return;
    sort(x.begin(), x.end());
    // all values strictly within a range lie between the two bounds
    for (double a = -0.5; a <= 4; a += 0.5) for (double b = a; b <= 4; b += 0.5) {
      size_t lo = FindLowerBoundInSortedVector(x, a), up = FindUpperBoundInSortedVector(x, b); M->step();
      ok = lo < x.size() && up < x.size();
      for (size_t i = 0; ok && i < x.size(); i++) if (x[i] > a && x[i] < b) ok = lo <= i && i <= up;
      if (!M->check(ok, "values within %g to %g are not between the bounds %zu and %zu", a, b, lo, up)) return;
    }
    if (x.size() > 1) { double m = 0, v = 0; for (double q : x) m += q; m /= x.size(); for (double q : x) v += (q - m) * (q - m); v /= x.size() - 1; vector<double> y = x; y.insert(y.begin() + 1, RMISSING); nearf(CalculateVariance(x), v, 1e-9, "CalculateVariance") && nearf(CalculateVariance(y), v, 1e-9, "CalculateVariance with a missing value"); }
    // logs with missing values
    vector<vector<double>> logs(2, vector<double>(x.size(), RMISSING)), pos(2, vector<double>(x.size(), 1.0)); double sum = 0; vector<double> all, xs;
    for (size_t w = 0; w < 2; w++) for (size_t i = 0; i < x.size(); i++) { pos[w][i] = i * 0.5 + w; if (s[i] != int(2 * w)) { logs[w][i] = s[i] + 10 * w; sum += logs[w][i]; all.push_back(logs[w][i]); if (s[i] == 1) pos[w][i] = RMISSING; } }
    double tr = -5; EstimateConstantTrend(logs, tr); vector<double> y0; PreprocessData0D(logs, y0);
    if (!all.empty()) nearf(tr, sum / all.size(), 1e-9, "EstimateConstantTrend");
    M->check(y0 == all, "PreprocessData0D does not give the values that are there");
    vector<double> px, py, wx, wy; PreprocessData1D(pos, logs, vector<double>(1, 100.0), px, py);
    for (size_t w = 0; w < 2; w++) for (size_t i = 0; i < x.size(); i++) if (logs[w][i] != RMISSING && pos[w][i] != RMISSING) { wx.push_back(pos[w][i] + 100); wy.push_back(logs[w][i]); }
    M->check(px == wx && py == wy, "PreprocessData1D does not give the pairs that are there");
  });
  // binning: weights are kept, linear data stay linear
  for (int n = 2; n <= 5; n++) for (double x0 : {0.0, -2.0, 500.0}) for (double dx : {1.0, 0.5}) for (int mask = 1; mask < (1 << 9); mask++) {
    if (!M->next()) continue;
    M->begin("binning of positions %d on %d points from %g step %g", mask, n, x0, dx); M->state();
    vector<double> xn, x, y, yn, wn; for (int i = 0; i < n; i++) xn.push_back(x0 + dx * i);
    vector<double> W(n), Y(n);
    for (int i = 0; i < 9; i++) if (mask >> i & 1) {
      double q = (n - 1) * i / 8.0; x.push_back(x0 + dx * q); y.push_back((i * 7 % 5) + 1);
      int j = min(int(q), n - 2); double t = q - j; W[j] += 1 - t; W[j + 1] += t; Y[j] += (1 - t) * y.back(); Y[j + 1] += t * y.back();
    }
    MakeBinnedDataset1D(x, y, NULL, xn, yn, wn);
    if (M->check(yn.size() == size_t(n) && wn.size() == size_t(n), "wrong size")) for (int i = 0; i < n; i++) { nearf(wn[i], W[i], 1e-8, "weight of bin %d", i); if (W[i] > 1e-6) nearf(yn[i], Y[i] / W[i], 1e-7, "value of bin %d", i); M->step(); }
    // in two directions: the same along the first
    vector<double> yc = {10, 11, 12}, X = x, Yp, Z = y, w; for (size_t i = 0; i < x.size(); i++) Yp.push_back(10 + (i % 5) * 0.5);
    vector<double> W2(n * 3), Z2(n * 3);
    for (size_t i = 0; i < x.size(); i++) { double q = (x[i] - x0) / dx, s = Yp[i] - 10; int a = min(int(q), n - 2), b = min(int(s), 1); double t = q - a, u = s - b; for (int k = 0; k < 4; k++) { double f = (k & 1 ? t : 1 - t) * (k & 2 ? u : 1 - u); int c = (a + (k & 1)) * 3 + b + (k >> 1); W2[c] += f; Z2[c] += f * y[i]; } }
    MakeBinnedDataset2D(xn, yc, X, Yp, Z, w);
    double tot = 0, want = 0; for (double q : w) tot += q; for (double q : W2) if (q > 1e-5) want += q;
    nearf(tot, want, 1e-7, "sum of the weights in two directions");
    for (size_t k = 0; k < X.size() && k < w.size(); k++) { int a = int((X[k] - x0) / dx + 0.5), b = int(Yp[k] - 10 + 0.5); if (a < 0 || a >= n || b < 0 || b > 2) { M->fail("a bin outside the grid"); break; } if (!nearf(w[k], W2[a * 3 + b], 1e-8, "weight of bin (%d,%d)", a, b) || !nearf(Z[k], Z2[a * 3 + b] / W2[a * 3 + b], 1e-6, "value of bin (%d,%d)", a, b)) break; M->step(); }
  }
}
int main(int argc, char** argv) { mc::MC m(argc, argv); M = &m; values(); files(); resampling(); tools(); m.finish(); }
