// C19: regular and rotated surfaces: geometry, interpolation with missing nodes, arithmetic histories, file formats.
#include "mc.hpp"
#include <algorithm>
#include <fstream>
#include <memory>
#include <nrlib/exception/exception.hpp>
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/surface/regularsurfacerotated.hpp>
#include <nrlib/surface/surface.hpp>
#include <nrlib/surface/surfaceio.hpp>
using namespace std;
using namespace NRLib;
static mc::MC* M;
static const double PI_ = 3.14159265358979323846;
template <class F> static bool raises(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

/// The model: a plain array with geometry.
struct Mod {
  int ni = 0, nj = 0; double x0 = 0, y0 = 0, lx = 0, ly = 0, dx = 0, dy = 0, miss = -999; vector<double> z;
  void shape(int a, int b, double v) { ni = a; nj = b; z.assign(a * b, v); step(); }
  void step() { dx = ni > 1 ? lx / (ni - 1) : 1; dy = nj > 1 ? ly / (nj - 1) : 1; }
  void dim(double a, double b, double c, double d) { x0 = a; y0 = b; lx = c; ly = d; step(); }
  double at(int i, int j) const { return i < 0 || j < 0 || i >= ni || j >= nj ? miss : z[i + j * ni]; }
  /// weights of the present corners, renormalised; inside: all four needed
  double get(double x, double y, bool inside) const {
    double cx = (x - x0) / dx, cy = (y - y0) / dy; int i = (int)floor(cx), j = (int)floor(cy); double u = cx - i, v = cy - j, s = 0, w = 0; int n = 0;
    for (int k = 0; k < 4; k++) { double c = at(i + (k & 1), j + (k >> 1)); if (c == miss) continue; double f = ((k & 1) ? u : 1 - u) * ((k >> 1) ? v : 1 - v); s += f * c; w += f; n++; }
    if (n == 4) return s;
    if (inside || w == 0) return miss;
    return s / w;
  }
};

static RegularSurface<double> make(const Mod& m) {
  RegularSurface<double> s(m.x0, m.y0, m.lx, m.ly, m.ni, m.nj, 0.0); s.SetMissingValue(m.miss);
  for (size_t k = 0; k < m.z.size(); k++) s(k) = m.z[k];
  return s;
}
static bool close_(double a, double b, double tol = 1e-9) { return fabs(a - b) <= tol * (1 + fabs(b)); }

template <class S> static bool same(const S& s, const Mod& m, const char* what) {
  if (!M->check((int)s.GetNI() == m.ni && (int)s.GetNJ() == m.nj && (int)s.GetN() == m.ni * m.nj, "%s: shape is %zux%zu, expected %dx%d", what, s.GetNI(), s.GetNJ(), m.ni, m.nj)) return false;
  if (!M->check(close_(s.GetDX(), m.dx) && close_(s.GetDY(), m.dy) && close_(s.GetLengthX(), m.lx) && close_(s.GetLengthY(), m.ly), "%s: spacing %.12gx%.12g lengths %.12gx%.12g, expected %.12gx%.12g %.12gx%.12g", what, s.GetDX(), s.GetDY(), s.GetLengthX(), s.GetLengthY(), m.dx, m.dy, m.lx, m.ly)) return false;
  if (!M->check(s.GetMissingValue() == m.miss, "%s: missing value %g, expected %g", what, (double)s.GetMissingValue(), m.miss)) return false;
  for (int j = 0; j < m.nj; j++) for (int i = 0; i < m.ni; i++)
    if (!M->check(close_(s(i, j), m.at(i, j)) && s(i, j) == s(size_t(i + j * m.ni)) && s.IsMissingAt(i, j) == (m.at(i, j) == m.miss) && s.IsMissing(s(i, j)) == (m.at(i, j) == m.miss), "%s: node (%d,%d) is %.12g, expected %.12g", what, i, j, (double)s(i, j), m.at(i, j))) return false;
  return true;
}
static bool geom(const RegularSurface<double>& s, const Mod& m, const char* what) {
  if (!same(s, m, what)) return false;
  bool ok = M->check(s.GetXMin() == m.x0 && s.GetYMin() == m.y0 && s.GetXMax() == m.x0 + m.lx && s.GetYMax() == m.y0 + m.ly, "%s: extent %g..%g x %g..%g", what, s.GetXMin(), s.GetXMax(), s.GetYMin(), s.GetYMax());
  for (int j = 0; ok && j < m.nj; j++) for (int i = 0; ok && i < m.ni; i++) {
    double x, y, x2, y2, x3, y3, z, x4, y4, z2; s.GetXY(i, j, x, y); s.GetXY(i + j * m.ni, x2, y2); s.GetNode(i, j, x3, y3, z); s.GetNode(i + j * m.ni, x4, y4, z2);
    double ex = m.x0 + i * m.dx, ey = m.y0 + j * m.dy;
    ok = M->check(close_(x, ex) && close_(y, ey) && x2 == x && y2 == y && x3 == x && y3 == y && x4 == x && y4 == y && z == s(i, j) && z2 == z && s.GetX(i) == x && s.GetY(j) == y, "%s: node (%d,%d) lies at (%g,%g)/(%g,%g)/(%g,%g), expected (%g,%g)", what, i, j, x, y, x2, y2, x3, y3, ex, ey);
  }
  return ok;
}

static void queries(const Mod& m, const RegularSurface<double>& s, double off) {
  for (double b = -1.25 + off; b <= m.nj + 0.3; b += 0.25) for (double a = -1.25 + off; a <= m.ni + 0.3; a += 0.25) {
    double x = m.x0 + a * m.dx, y = m.y0 + b * m.dy; M->step();
    double g = s.GetZ(x, y), h = s.GetZInside(x, y), eg = m.get(x, y, false), eh = m.get(x, y, true);
    if (!M->check(close_(g, eg), "GetZ(%g,%g) (cell position %g,%g) is %.12g, expected %.12g", x, y, a, b, g, eg)) return;
    if (!M->check(close_(h, eh), "GetZInside(%g,%g) (cell position %g,%g) is %.12g, expected %.12g", x, y, a, b, h, eh)) return;
    double c[4]; s.GetCorners(x, y, c); int i = (int)floor(a), j = (int)floor(b);
    for (int k = 0; k < 4; k++) if (!M->check(c[k] == m.at(i + (k & 1), j + (k >> 1)), "corner %d around (%g,%g) is %g, expected %g", k, x, y, c[k], m.at(i + (k & 1), j + (k >> 1)))) return;
    int gi, gj; s.FindGeneralIndex(x, y, gi, gj);
    if (!M->check(gi == i && gj == j, "FindGeneralIndex(%g,%g) gives (%d,%d), expected (%d,%d)", x, y, gi, gj, i, j)) return;
    size_t ni_, nj_; s.FindNearestNodeIndex(x, y, ni_, nj_); int ei = min(max((int)floor(a + 0.5), 0), m.ni - 1), ej = min(max((int)floor(b + 0.5), 0), m.nj - 1);
    if (!M->check((int)ni_ == ei && (int)nj_ == ej, "FindNearestNodeIndex(%g,%g) gives (%zu,%zu), expected (%d,%d)", x, y, ni_, nj_, ei, ej)) return;
    bool in = x >= m.x0 && x <= m.x0 + m.lx && y >= m.y0 && y <= m.y0 + m.ly;
    if (!M->check(s.IsInsideSurface(x, y) == in, "IsInsideSurface(%g,%g) is %d", x, y, s.IsInsideSurface(x, y))) return;
    if (in) {
      size_t fi, fj; double ci, cj; s.FindIndex(x, y, fi, fj); s.FindContIndex(x, y, ci, cj);
      if (!M->check((int)fi == i && (int)fj == j && fi == s.FindI(x) && fj == s.FindJ(y) && close_(ci, a) && close_(cj, b), "FindIndex(%g,%g) gives (%zu,%zu), continuous (%g,%g), expected (%d,%d)", x, y, fi, fj, ci, cj, i, j)) return;
    }
  }
}

static void interpolation() {
  M->part = "interpolation";
  int shapes[][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 2}, {2, 5}, {17, 3}, {3, 21}, {33, 29}, {1, 70}, {129, 2}};
  for (auto& sh : shapes) for (int pat = 0; pat < (sh[0] * sh[1] > 12 ? 4 : 1 << (sh[0] * sh[1])); pat++) for (int g = 0; g < 3; g++) {
    if (!M->thorough() && g > 0 && sh[0] * sh[1] > 6) continue;
    if (!M->next()) continue;
    Mod m; m.miss = g == 1 ? -1 : -999; m.shape(sh[0], sh[1], 0);
    m.dim(g == 0 ? 0 : g == 1 ? -1.5 : 1024, g == 0 ? 0 : g == 1 ? 10 : -64, g == 1 ? 2.0 * max(1, m.ni - 1) : 1.0 * (m.ni - 1), g == 2 ? 0.5 * max(1, m.nj - 1) : 1.0 * (m.nj - 1));
    for (int k = 0; k < m.ni * m.nj; k++) m.z[k] = (k < 31 && (pat >> k & 1)) || (sh[0] * sh[1] > 12 && pat == 3 && k % 7 == 5) ? m.miss : 2 + 3 * k - (k % 3) * 4.5 + (k == 4 ? 11 : 0);
    M->begin("%dx%d nodes, missing 0x%x, geometry %d", m.ni, m.nj, pat, g); M->state();
    RegularSurface<double> s = make(m);
    if (geom(s, m, "surface")) { queries(m, s, 0); queries(m, s, 0.125); }
    Grid2D<double> gr(m.ni, m.nj); for (size_t k = 0; k < m.z.size(); k++) gr(k) = m.z[k];
    RegularSurface<double> s2(m.x0, m.y0, m.lx, m.ly, gr); s2.SetMissingValue(m.miss); geom(s2, m, "surface from grid");
    unique_ptr<Surface<double>> cl(s.Clone());
    M->check(cl->GetZ(m.x0, m.y0) == s.GetZ(m.x0, m.y0) && cl->GetXMax() == s.GetXMax() && cl->Min() == s.Min(), "the clone differs");
    if (pat == 0) for (double xa : {-0.25, 0.0, 0.25}) for (double xb : {-0.25, 0.0, 0.25}) for (double ya : {-0.25, 0.0, 0.25}) for (double yb : {-0.25, 0.0, 0.25}) {
      double a = m.x0 + xa, b = m.x0 + m.lx + xb, c = m.y0 + ya, d = m.y0 + m.ly + yb; bool e = xa >= 0 && xb <= 0 && ya >= 0 && yb <= 0;
      M->check(s.EnclosesRectangle(a, b, c, d) == e, "EnclosesRectangle(%g,%g,%g,%g) is %d", a, b, c, d, !e);
    }
  }
}

static void summaries() {
  M->part = "summaries";
  int shapes[][2] = {{1, 1}, {1, 2}, {2, 2}, {3, 1}, {2, 3}, {5, 1}};
  for (auto& sh : shapes) for (double miss : {-999.0, 2.0, 1e30}) mc::sequences(4, sh[0] * sh[1], [&](const vector<int>& q) {
    if (!M->next()) return;
    double vals[] = {miss, 1, -3, 7.5}; Mod m; m.miss = miss; m.shape(sh[0], sh[1], 0); m.dim(0, 0, 1, 1); string h;
    for (size_t k = 0; k < q.size(); k++) { m.z[k] = vals[q[k]]; h += mc::fmt("%g ", m.z[k]); }
    M->begin("%dx%d: %s, missing %g", sh[0], sh[1], h.c_str(), miss); M->state(); M->step();
    RegularSurface<double> s = make(m); double lo = miss, hi = miss, sum = 0; int n = 0;
    for (double v : m.z) if (v != miss) { lo = n ? min(lo, v) : v; hi = n ? max(hi, v) : v; sum += v; n++; }
    int cnt; double av = s.Avg(cnt); size_t i = 99, j = 99;
    M->check(s.Min() == lo && s.Max() == hi, "Min %g Max %g, expected %g %g", s.Min(), s.Max(), lo, hi);
    M->check(cnt == n && close_(av, n ? sum / n : miss) && s.Avg() == av, "Avg %g over %d, expected %g over %d", av, cnt, n ? sum / n : miss, n);
    M->check(s.MinNode(i, j) == lo && i < s.GetNI() && j < s.GetNJ() && s(i, j) == lo, "MinNode gives (%zu,%zu)", i, j);
    M->check(s.MaxNode(i, j) == hi && i < s.GetNI() && j < s.GetNJ() && s(i, j) == hi, "MaxNode gives (%zu,%zu)", i, j);
  });
}

/// a second surface for non-conform operations: other extent, spacing and missing value
static Mod other(int k) {
  Mod m; m.miss = k == 0 ? -999 : -7; m.shape(k == 0 ? 2 : 3, 2, 0);
  if (k == 0) m.dim(-4, -4, 16, 16); else m.dim(0.5, 0.5, 2, 1);
  for (size_t i = 0; i < m.z.size(); i++) m.z[i] = 1.5 + i; if (k == 1) m.z[2] = m.miss; return m;
}

static void histories() {
  M->part = "histories";
  static const char* N[] = {"Assign(2)", "Add(1.5)", "Subtract(0.5)", "Multiply(-2)", "SetMissing(1,0)", "CreateNeighbourAvg(0,0)", "CreateNeighbourAvg(1,1)", "AddNonConform(a)", "SubtractNonConform(b)", "MultiplyNonConform(b)", "DivideNonConform(a)",
                            "AddNonConform(constant)", "Resize(3,2,4)", "Resize(2,2,5)", "SetDimensions", "SetMissingValue(-7)", "Swap", "copy", "(0,1) = 8", "AddNonConform(b)", "DivideNonConform(b)"};
  int depth = M->thorough() ? 4 : 3;
  Mod oa = other(0), ob = other(1); RegularSurface<double> sa = make(oa), sb = make(ob); ConstantSurface<double> sc(2.5);
  for (int d = 1; d <= depth; d++) mc::sequences(21, d, [&](const vector<int>& q) {
    if (!M->next()) return;
    string h; for (int o : q) h += string(" ") + N[o];
    M->begin("%s", h.c_str()); M->state();
    Mod m, t; m.shape(2, 3, 0); m.dim(0, 0, 2, 3); for (int k = 0; k < 6; k++) m.z[k] = 3 - k; m.z[3] = m.miss;
    t.shape(2, 2, 6); t.dim(1, 1, 1, 1); t.miss = -1; t.z[1] = -1;
    RegularSurface<double> s = make(m), r = make(t); s.SetName("s"); r.SetName("r"); string ns = "s", nr = "r";
    for (int o : q) {
      M->step();
      auto bin = [&](function<double(double, double)> f, const Mod* e, double c) {
        for (int j = 0; j < m.nj; j++) for (int i = 0; i < m.ni; i++) { double& v = m.z[i + j * m.ni]; if (v == m.miss) continue; double w = e ? e->get(m.x0 + i * m.dx, m.y0 + j * m.dy, false) : c; v = e && w == e->miss ? m.miss : f(v, w); }
      };
      switch (o) {
        case 0: s.Assign(2); fill(m.z.begin(), m.z.end(), 2); break;
        case 1: s.Add(1.5); bin([](double a, double b) { return a + b; }, nullptr, 1.5); break;
        case 2: s.Subtract(0.5); bin([](double a, double b) { return a - b; }, nullptr, 0.5); break;
        case 3: s.Multiply(-2); bin([](double a, double b) { return a * b; }, nullptr, -2); break;
        case 4: s.SetMissing(1, 0); m.z[1] = m.miss; break;
        case 5: case 6: {
          int i0 = o - 5, j0 = o - 5, n = 0; double sum = 0;
          for (int j = j0 - 1; j <= j0 + 1; j++) for (int i = i0 - 1; i <= i0 + 1; i++) if ((i != i0 || j != j0) && m.at(i, j) != m.miss) { sum += m.at(i, j); n++; }
          bool b = s.CreateNeighbourAvg(i0, j0); m.z[i0 + j0 * m.ni] = n ? sum / n : m.miss; M->check(b == (n > 0), "CreateNeighbourAvg returned %d", b); break;
        }
        case 7: s.AddNonConform(&sa); bin([](double a, double b) { return a + b; }, &oa, 0); break;
        case 8: s.SubtractNonConform(&sb); bin([](double a, double b) { return a - b; }, &ob, 0); break;
        case 9: s.MultiplyNonConform(&sb); bin([](double a, double b) { return a * b; }, &ob, 0); break;
        case 10: s.DivideNonConform(&sa); bin([](double a, double b) { return a / b; }, &oa, 0); break;
        case 11: s.AddNonConform(&sc); bin([](double a, double b) { return a + b; }, nullptr, 2.5); break;
        case 12: s.Resize(3, 2, 4); m.shape(3, 2, 4); break;
        case 13: s.Resize(2, 2, 5); m.shape(2, 2, 5); break;
        case 14: s.SetDimensions(0.5, -1, 3, 2); m.dim(0.5, -1, 3, 2); break;
        case 15: s.SetMissingValue(-7); m.miss = -7; break;
        case 16: s.Swap(r); swap(m, t); swap(ns, nr); break;
        case 17: r = s; t = m; nr = ns; break;
        case 18: s(0, 1) = 8; m.z[m.ni] = 8; break;
        case 19: s.AddNonConform(&sb); bin([](double a, double b) { return a + b; }, &ob, 0); break;
        case 20: s.DivideNonConform(&sb); bin([](double a, double b) { return a / b; }, &ob, 0); break;
      }
      if (!geom(s, m, "surface") || !geom(r, t, "other surface")) return;
      if (!M->check(s.GetName() == ns && r.GetName() == nr, "names are %s and %s", s.GetName().c_str(), r.GetName().c_str())) return;
      double x = m.x0 + 0.375 * m.dx, y = m.y0 + 0.625 * m.dy, e = m.get(x, y, false);
      if (!M->check(close_(s.GetZ(x, y), e), "GetZ(%g,%g) is %g, expected %g", x, y, s.GetZ(x, y), e)) return;
    }
  });
  M->part = "constant surface";
  if (M->next()) {
    M->begin("all operations"); M->state(); ConstantSurface<double> c(2); c.Add(3); c.Multiply(-2);
    M->check(c.GetZ() == -10 && c.GetZ(1e9, -1e9) == -10 && c.Min() == -10 && c.Max() == -10 && c.IsInsideSurface(1e30, 0) && c.EnclosesRectangle(-1e30, 1e30, -1e30, 1e30) && !c.IsMissing(-10) && c.GetXMin() < -1e300 && c.GetYMax() > 1e300 && c.GetXMax() > 1e300 && c.GetYMin() < -1e300, "wrong");
    unique_ptr<Surface<double>> k(c.Clone()); c.Add(1); M->check(k->GetZ(0, 0) == -10, "the clone follows the original");
  }
}

struct Rot { Mod m; double ang;
  void glob(double lx, double ly, double& x, double& y) const { x = m.x0 + cos(ang) * lx - sin(ang) * ly; y = m.y0 + sin(ang) * lx + cos(ang) * ly; }
  double get(double x, double y, bool in) const { double a = x - m.x0, b = y - m.y0; return m.get(m.x0 + cos(ang) * a + sin(ang) * b, m.y0 - sin(ang) * a + cos(ang) * b, in); }
};
static bool rotcheck(const RegularSurfaceRotated<double>& s, const Rot& r, const char* what) {
  const Mod& m = r.m;
  if (!same(s, m, what)) return false;
  if (!M->check(s.GetXRef() == m.x0 && s.GetYRef() == m.y0 && s.GetAngle() == r.ang, "%s: reference (%g,%g), angle %g", what, s.GetXRef(), s.GetYRef(), s.GetAngle())) return false;
  double x, y, xl = 1e300, xh = -1e300, yl = 1e300, yh = -1e300;
  for (int c = 0; c < 4; c++) { r.glob((c & 1) * m.lx, (c >> 1) * m.ly, x, y); xl = min(xl, x); xh = max(xh, x); yl = min(yl, y); yh = max(yh, y); }
  if (!M->check(close_(s.GetXMin(), xl) && close_(s.GetXMax(), xh) && close_(s.GetYMin(), yl) && close_(s.GetYMax(), yh), "%s: extent %g..%g x %g..%g, expected %g..%g x %g..%g", what, s.GetXMin(), s.GetXMax(), s.GetYMin(), s.GetYMax(), xl, xh, yl, yh)) return false;
  for (int j = 0; j < m.nj; j++) for (int i = 0; i < m.ni; i++) {
    double x2, y2, ex, ey; s.GetXY(i, j, x, y); s.GetXY(i + j * m.ni, x2, y2); r.glob(i * m.dx, j * m.dy, ex, ey);
    if (!M->check(close_(x, ex) && close_(y, ey) && x == x2 && y == y2, "%s: node (%d,%d) lies at (%g,%g), expected (%g,%g)", what, i, j, x, y, ex, ey)) return false;
  }
  for (double b = -1.375; b < m.nj + 0.3; b += 0.25) for (double a = -1.375; a < m.ni + 0.3; a += 0.25) {
    r.glob(a * m.dx, b * m.dy, x, y); M->step();
    double e = m.get(m.x0 + a * m.dx, m.y0 + b * m.dy, false), f = m.get(m.x0 + a * m.dx, m.y0 + b * m.dy, true); bool in = a > 0 && b > 0 && a * m.dx < m.lx && b * m.dy < m.ly;
    if (!M->check(close_(s.GetZ(x, y), e, 1e-5) && close_(s.GetZInside(x, y), f, 1e-5), "%s: GetZ(%g,%g) (cell position %g,%g) is %g, inside %g, expected %g, %g", what, x, y, a, b, s.GetZ(x, y), s.GetZInside(x, y), e, f)) return false;
    if (!M->check(s.IsInsideSurface(x, y) == in, "%s: IsInsideSurface(%g,%g) is %d", what, x, y, !in)) return false;
  }
  return true;
}
static bool resampled(const RegularSurface<double>& p, const RegularSurfaceRotated<double>& s, const Rot& r, double tol, const char* what) {
  if (!M->check(p.GetMissingValue() == r.m.miss || tol > 1e-8, "%s: missing value changed", what)) return false;
  if (!M->check(close_(p.GetXMin(), s.GetXMin(), tol) && close_(p.GetXMax(), s.GetXMax(), tol) && close_(p.GetYMin(), s.GetYMin(), tol) && close_(p.GetYMax(), s.GetYMax(), tol), "%s: extent %g..%g x %g..%g", what, p.GetXMin(), p.GetXMax(), p.GetYMin(), p.GetYMax())) return false;
  for (size_t k = 0; k < p.GetN(); k++) {
    double x, y; p.GetXY(k, x, y);
    // near a cell boundary (or the margin) rounding may choose either side: accept any of the neighbouring answers
    bool ok = false; double e = 0;
    for (int t = 0; t < 9 && !ok; t++) { double h = t ? 1e-6 : 0; e = r.get(x + h * (t % 3 - 1), y + h * (t / 3 - 1), false); if (e == r.m.miss) e = p.GetMissingValue(); ok = close_(p(k), e, max(tol, 1e-4)); }
    if (!M->check(ok, "%s: node %zu at (%.9g,%.9g) is %g, the surface there is %g", what, k, x, y, p(k), r.get(x, y, false))) return false;
  }
  return true;
}

static void rotated() {
  M->part = "rotated";
  int shapes[][2] = {{2, 2}, {3, 2}, {2, 4}, {3, 3}, {5, 4}};
  vector<double> A; for (int k = -12; k <= 24; k += M->thorough() ? 1 : 2) A.push_back(k * PI_ / 12); A.push_back(0.3); A.push_back(1e-4); A.push_back(2.0);
  for (auto& sh : shapes) for (size_t ia = 0; ia < A.size(); ia++) for (int g = 0; g < 4; g++) {
    if (!M->next()) continue;
    Rot r; r.ang = A[ia]; r.m.miss = g == 2 ? -7 : -999; r.m.shape(sh[0], sh[1], 0); r.m.dim(g == 0 ? 0 : 1000, g == 0 ? 0 : -500, g == 3 ? 7.3 : sh[0] - 1, g == 3 ? 2.9 : 2.0 * (sh[1] - 1));
    for (size_t k = 0; k < r.m.z.size(); k++) r.m.z[k] = 1 + 2.0 * k - (k % 2) * 5.0; if (g >= 1) r.m.z[1] = r.m.miss;
    M->begin("%dx%d nodes, angle %g, geometry %d", sh[0], sh[1], r.ang, g); M->state();
    RegularSurface<double> base = make(r.m); RegularSurfaceRotated<double> s(base, r.ang);
    if (!rotcheck(s, r, "from surface")) continue;
    RegularSurfaceRotated<double> s2(r.m.x0, r.m.y0, r.m.lx, r.m.ly, sh[0], sh[1], r.ang, 0.0); s2.SetMissingValue(r.m.miss); for (size_t k = 0; k < r.m.z.size(); k++) s2(k) = r.m.z[k];
    if (!rotcheck(s2, r, "from dimensions")) continue;
    Grid2D<double> gr(base); RegularSurfaceRotated<double> s3(r.m.x0, r.m.y0, r.m.lx, r.m.ly, gr, r.ang); s3.SetMissingValue(r.m.miss);
    if (!rotcheck(s3, r, "from grid")) continue;
    RegularSurface<double> p = s.ResampleSurface();
    if (!resampled(p, s, r, 1e-9, "resampled")) continue;
    M->check(p.GetNI() == size_t(floor((s.GetXMax() - s.GetXMin()) / s.GetDX() + 1e-9)) + 1 || p.GetNI() == size_t(floor((s.GetXMax() - s.GetXMin()) / s.GetDX() - 1e-9)) + 1, "resampled to %zu columns", p.GetNI());
    // changes
    Rot q = r; q.ang = r.ang + 0.4; s.SetAngle(q.ang); if (!rotcheck(s, q, "after SetAngle")) continue;
    q.m.dim(3, 4, 2, 5); s.SetDimensions(3, 4, 2, 5); if (!rotcheck(s, q, "after SetDimensions")) continue;
    s.Add(2); s.Multiply(3); s.Subtract(1); for (auto& v : q.m.z) if (v != q.m.miss) v = (v + 2) * 3 - 1; if (!rotcheck(s, q, "after arithmetic")) continue;
    // non-conform arithmetic against every kind of surface
    for (int op = 0; op < 4; op++) {
      RegularSurfaceRotated<double> t(s2); Rot e = r; Mod o = other(1); o.dim(r.m.x0 - 1, r.m.y0 - 1.5, 2.75, 3.5); RegularSurface<double> os = make(o); bool near = false;
      for (int j = 0; j < e.m.nj; j++) for (int i = 0; i < e.m.ni; i++) {
        double& v = e.m.z[i + j * e.m.ni]; if (v == e.m.miss) continue; double x, y; r.glob(i * e.m.dx, j * e.m.dy, x, y);
        for (double f : {(x - o.x0) / o.dx, (y - o.y0) / o.dy}) near = near || fabs(f - round(f)) < 1e-9;
        double w = o.get(x, y, false); v = w == o.miss ? e.m.miss : op == 0 ? v + w : op == 1 ? v - w : op == 2 ? v * w : v / w;
      }
      if (near) continue;
      if (op == 0) t.AddNonConform(&os); else if (op == 1) t.SubtractNonConform(&os); else if (op == 2) t.MultiplyNonConform(&os); else t.DivideNonConform(&os);
      if (!same(t, e.m, op == 0 ? "AddNonConform" : op == 1 ? "SubtractNonConform" : op == 2 ? "MultiplyNonConform" : "DivideNonConform")) break;
    }
    q.m.shape(3, 3, 6); s.Resize(3, 3, 6); rotcheck(s, q, "after Resize");
  }
}

static string slurp(const string& f) { ifstream i(f, ios::binary); stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const string& f, const string& t) { ofstream o(f, ios::binary); o << t; }
static string f32(float v) { uint32_t u; memcpy(&u, &v, 4); string s; for (int k = 3; k >= 0; k--) s += char(u >> (8 * k)); return s; }
static string f64(double v) { uint64_t u; memcpy(&u, &v, 8); string s; for (int k = 7; k >= 0; k--) s += char(u >> (8 * k)); return s; }

template <class A> static void storm_one(const Mod& m, const RegularSurface<A>& s, const string& f, bool cuts) {
  s.WriteToFile(f, SURF_STORM_BINARY); string t = slurp(f); M->step();
  // the file itself
  istringstream is(t); string w; int ni = 0, nj = 0; double v[6]; is >> w >> ni >> nj; for (double& q : v) is >> q; string rest; getline(is, rest); size_t pos = is.tellg();
  if (!M->check(w == "STORMGRID_BINARY" && ni == m.ni && nj == m.nj && close_(v[0], m.dx) && close_(v[1], m.dy) && close_(v[2], m.x0) && close_(v[3], m.x0 + m.lx) && close_(v[4], m.y0) && close_(v[5], m.y0 + m.ly), "header is: %s %d %d %g %g %g %g %g %g", w.c_str(), ni, nj, v[0], v[1], v[2], v[3], v[4], v[5])) return;
  string body; for (double z : m.z) body += f64(z == m.miss ? -999.0 : z);
  if (!M->check(t.substr(pos) == body, "the binary part of the file is not the surface's values (%zu bytes, expected %zu)", t.size() - pos, body.size())) return;
  M->check(FindSurfaceFileType(f) == SURF_STORM_BINARY, "FindSurfaceFileType gives %d", (int)FindSurfaceFileType(f));
  Mod e = m; e.miss = -999; for (double& z : e.z) if (z == m.miss) z = -999;
  for (int how = 0; how < 3; how++) {
    M->step();
    try {
      RegularSurface<A> r; if (how == 0) r = RegularSurface<A>(f); else { r = RegularSurface<A>(9, 9, 9, 9, 2, 2, 3); r.ReadFromFile(f, how == 1 ? SURF_STORM_BINARY : SURF_UNKNOWN); }
      if (!same(r, e, "read back")) return;
      if (!M->check(close_(r.GetXMin(), m.x0) && close_(r.GetYMin(), m.y0) && r.GetName() == "surf", "read back at (%g,%g), name %s", r.GetXMin(), r.GetYMin(), r.GetName().c_str())) return;
      RegularSurfaceRotated<A> q(f); if (!M->check(q.GetAngle() == 0 && q.GetNI() == r.GetNI() && q(0) == r(0) && close_(q.GetXMax(), m.x0 + m.lx) && close_(q.GetYRef(), m.y0), "read back as rotated surface differs")) return;
    } catch (std::exception& x) { M->fail(string("reading it back raised: ") + x.what()); return; }
  }
  if (!cuts) return;
  for (size_t c = 0; c < t.size(); c++) {
    spit(f, t.substr(0, c)); M->step();
    if (!M->check(raises([&] { RegularSurface<A> r; r.ReadFromFile(f, SURF_STORM_BINARY); }), "a file cut after %zu of %zu bytes was accepted", c, t.size())) return;
  }
  spit(f, t + "x"); M->check(raises([&] { RegularSurface<A> r(f, SURF_STORM_BINARY); }), "a file with an extra byte was accepted");
}

static vector<vector<int>> file_shapes() { vector<vector<int>> v; for (int i = 1; i <= 4; i++) for (int j = 1; j <= 4; j++) v.push_back({i, j}); for (auto& q : vector<vector<int>>{{5, 1}, {1, 6}, {7, 1}, {6, 2}, {13, 1}, {5, 7}, {25, 2}, {3, 41}, {64, 1}, {23, 31}}) v.push_back(q); return v; }
static void storm_files() {
  M->part = "Storm binary";
  string f = M->scratch + "/surf.storm";
  for (auto& sh : file_shapes()) for (int ni : {sh[0]}) for (int nj : {sh[1]}) for (int g = 0; g < 3; g++) for (int miss = 0; miss < 3; miss++) for (int pat = 0; pat < 4; pat++) {
    if (!M->next()) continue;
    Mod m; m.miss = miss == 0 ? -999 : miss == 1 ? 9999900 : -1; m.shape(ni, nj, 0); m.dim(g == 0 ? 0 : g == 1 ? -1234.5 : 500000.123, g == 0 ? 0 : 7000000.25, g == 1 ? 33.3 : ni - 1, g == 2 ? 0.7 : nj - 1);
    for (int k = 0; k < ni * nj; k++) m.z[k] = (pat == 1 && k % 2) || (pat == 2 && k == 0) || (pat == 3 && k == ni * nj - 1) ? m.miss : 10.5 + 32 * k - 100.0 * (k % 3);
    M->begin("%dx%d, geometry %d, missing value %g, pattern %d", ni, nj, g, m.miss, pat); M->state();
    storm_one(m, make(m), f, g == 1 && miss != 2 && pat < 2);
    RegularSurface<float> s(m.x0, m.y0, m.lx, m.ly, ni, nj, 0.f); s.SetMissingValue((float)m.miss); for (size_t k = 0; k < m.z.size(); k++) s(k) = (float)m.z[k];
    storm_one(m, s, f, false);
  }
  M->part = "Storm binary header";
  const char* bad[] = {"STORMGRID_BINARY\n\n2 2 2.0 1.0\n0 1 0 1\n", "STORMGRID_BINARY\n\n2 2 1.0 0.5\n0 1 0 1\n", "STORMGRID_ASCII\n\n2 2 1.0 1.0\n0 1 0 1\n", "STORMGRID_BINARY\n\n2 x 1.0 1.0\n0 1 0 1\n", "STORMGRID_BINARY\n\n3 2 1.0 1.0\n0 1 0 1\n", "\n"};
  for (auto b : bad) if (M->next()) { M->begin("header %s", b); M->state(); spit(f, string(b) + f64(1) + f64(2) + f64(3) + f64(4)); M->check(raises([&] { RegularSurface<double> r(f, SURF_STORM_BINARY); }), "accepted"); }
  if (M->next()) { M->begin("good header"); spit(f, string("STORMGRID_BINARY\n\n2 2 1.0 1.0\n0 1 0 1\n") + f64(1) + f64(2) + f64(3) + f64(4)); RegularSurface<double> r(f); M->check(r(1, 0) == 2 && r(0, 1) == 3 && r.GetXMax() == 1, "misread"); }
  if (M->next()) { M->begin("missing file"); M->check(raises([&] { RegularSurface<double> r(M->scratch + "/none"); }) && raises([&] { RegularSurface<double> r(M->scratch + "/none", SURF_STORM_BINARY); }) && raises([&] { RegularSurface<double> r(1, 1, 1, 1, 2, 2); r.WriteToFile(f, SURF_SGRI); }) && raises([&] { RegularSurfaceRotated<double> r(M->scratch + "/none"); }), "no error"); }
}

static void irap_files() {
  M->part = "IRAP classic";
  string f = M->scratch + "/surf.irap";
  for (auto& sh : file_shapes()) for (int ni : {sh[0]}) for (int nj : {sh[1]}) for (int g = 0; g < 3; g++) for (int miss = 0; miss < 3; miss++) for (int pat = 0; pat < 3; pat++) for (double deg : {0.0, 30.0, -72.25, 150.5}) {
    if (!M->next()) continue;
    Rot r; Mod& m = r.m; r.ang = deg * PI_ / 180; m.miss = miss == 0 ? 9999900 : miss == 1 ? -999 : -1; m.shape(ni, nj, 0); m.dim(g == 0 ? 0 : g == 1 ? -1234.5 : 500000.25, g == 0 ? 0 : 7000000.75, (ni - 1) * (g == 1 ? 12.5 : 1), (nj - 1) * (g == 2 ? 0.75 : 1));
    for (int k = 0; k < ni * nj; k++) m.z[k] = (pat == 1 && k % 2) || (pat == 2 && k == 0) ? m.miss : 10.5 + 32 * k - 100.125 * (k % 3);
    M->begin("%dx%d, geometry %d, missing value %g, pattern %d, %g degrees", ni, nj, g, m.miss, pat, deg); M->state(); M->step();
    RegularSurface<double> s = make(m); RegularSurfaceRotated<double> q(s, r.ang);
    if (deg == 0) s.WriteToFile(f, SURF_IRAP_CLASSIC_ASCII); else q.WriteToFile(f, SURF_IRAP_CLASSIC_ASCII);
    string t = slurp(f); istringstream is(t); vector<string> tok; string w; while (is >> w) tok.push_back(w);
    double xm = m.x0 + m.lx, ym = m.y0 + m.ly; vector<double> h = {-996, (double)nj, m.dx, m.dy, m.x0, xm, m.y0, ym, (double)ni, deg, m.x0, m.y0, 0, 0, 0, 0, 0, 0, 0};
    for (double z : m.z) h.push_back(z == m.miss ? 9999900 : z);
    if (!M->check(tok.size() == h.size(), "the file has %zu numbers, expected %zu", tok.size(), h.size())) continue;
    bool ok = true; for (size_t k = 0; ok && k < h.size(); k++) ok = M->check(fabs(atof(tok[k].c_str()) - h[k]) < 0.0051 * (k < 12 && k > 3 && k != 9) + 1e-6, "number %zu of the file is %s, expected %.9g", k, tok[k].c_str(), h[k]);
    if (!ok) continue;
    M->check(FindSurfaceFileType(f) == SURF_IRAP_CLASSIC_ASCII, "FindSurfaceFileType gives %d", (int)FindSurfaceFileType(f));
    Rot e = r; e.m.miss = 9999900; for (double& z : e.m.z) if (z == m.miss) z = 9999900;
    try {
      RegularSurfaceRotated<double> b(f, miss == 0 ? SURF_IRAP_CLASSIC_ASCII : SURF_UNKNOWN);
      if (!M->check(fabs(b.GetAngle() - r.ang) < 1e-7, "angle read back as %g", b.GetAngle())) continue;
      e.ang = b.GetAngle(); if (!rotcheck(b, e, "read back")) continue;
    } catch (std::exception& x) { M->fail(string("reading it back raised: ") + x.what()); continue; }
    if (deg == 0) { RegularSurface<double> b(f); if (!geom(b, e.m, "read back unrotated")) continue; M->check(b.GetName() == "surf", "name %s", b.GetName().c_str()); }
    else M->check(raises([&] { RegularSurface<double> b(f); }), "a rotated file was accepted as unrotated surface");
    // fewer or more numbers
    for (size_t n = 0; n <= tok.size() + 1; n++) {
      if (n == tok.size() || (n > 21 && n + 2 < tok.size())) continue;
      string u; for (size_t k = 0; k < n; k++) u += (k < tok.size() ? tok[k] : "7") + (k % 5 ? " " : "\n"); M->step();
      spit(f, u); if (!M->check(raises([&] { RegularSurfaceRotated<double> b(f, SURF_IRAP_CLASSIC_ASCII); }), "a file with %zu of %zu numbers was accepted", n, tok.size())) break;
    }
  }
  M->part = "rotated to Storm binary";
  for (int g = 0; g < 4; g++) for (double deg : {0.0, 20.0, 90.0, -45.0}) {
    if (!M->next()) continue;
    Rot r; r.ang = deg * PI_ / 180; r.m.shape(3, 4, 0); r.m.dim(100, -20, g % 2 ? 6 : 2, g / 2 ? 3 : 4.5); for (int k = 0; k < 12; k++) r.m.z[k] = k * 1.5 - 3;
    M->begin("geometry %d, %g degrees", g, deg); M->state(); RegularSurface<double> base = make(r.m); RegularSurfaceRotated<double> q(base, r.ang);
    string p = M->scratch + "/surf.storm"; q.WriteToFile(p); try { RegularSurface<double> b(p); if (deg == 0) geom(b, r.m, "read back"); else resampled(b, q, r, 1e-6, "read back"); } catch (std::exception& x) { M->fail(string("reading it back raised: ") + x.what()); }
  }
}

static void sgri_files() {
  M->part = "Sgri";
  string dir = M->scratch + "/d"; if (system(("mkdir -p " + dir).c_str())) abort();
  string f = dir + "/surf.sgrh";
  for (auto& sh : vector<vector<int>>{{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {3, 3}, {17, 5}, {4, 40}, {30, 30}}) for (int nx : {sh[0]}) for (int ny : {sh[1]}) for (int ng = 1; ng <= 3; ng++) for (int name = 0; name < 3; name++) for (double ang : {0.0, 0.5}) for (int ver = 1; ver <= 2; ver++) {
    if (!M->next()) continue;
    M->begin("%dx%d, %d grids, file name %d, angle %g, version %d", nx, ny, ng, name, ang, ver); M->state(); M->step();
    float dx = 12.5, dy = 2, xm = 100, ym = -50, miss = -99;
    string h = mc::fmt("NORSAR General Grid Format v%d.0\n2 ! dimension\nX coordinate\nY coordinate\nTime\n%d\n", ver, ng); for (int k = 0; k < ng; k++) h += mc::fmt("grid %d\n", k);
    h += mc::fmt("1 1\n%d %d\n%g %g\n%g %g %g\n%g\n", nx, ny, dx, dy, xm, ym, ang, miss); h += name == 0 ? "\n" : name == 1 ? "data.bin\n" : "data.bin ! the file\n"; h += "0\n";
    string b; for (int g = 0; g < ng; g++) for (int k = 0; k < nx * ny; k++) b += f32(k == 1 ? miss : 3.5f * k - 20 * g);
    string bf = name == 0 ? dir + "/surf.Sgri" : dir + "/data.bin"; spit(f, h); spit(bf, b);
    M->check(FindSurfaceFileType(f) == SURF_SGRI, "FindSurfaceFileType gives %d", (int)FindSurfaceFileType(f));
    auto mod = [&](int g) { Rot r; r.ang = ang; r.m.miss = miss; r.m.shape(nx, ny, 0); r.m.dim(xm - 0.5 * dx, ym - 0.5 * dy, (nx - 1) * dx, (ny - 1) * dy); for (int k = 0; k < nx * ny; k++) r.m.z[k] = k == 1 ? miss : 3.5 * k - 20 * g; return r; };
    try {
      RegularSurfaceRotated<double> s(f); Rot e = mod(0); if (rotcheck(s, e, "read")) M->check(s.GetName() == (name == 0 ? "surf" : "data"), "name is %s", s.GetName().c_str());
      bool rs = raises([&] { RegularSurface<double> p(f); geom(p, e.m, "read unrotated"); }); M->check(rs == (ang != 0), "reading as unrotated surface %s", rs ? "raised" : "did not raise");
      for (int lab = 0; lab < 5; lab++) {
        vector<string> L; if (lab == 1) L = {"X", "Y"}; if (lab == 2) L = {"x coord"}; if (lab == 3) L = {"X", "Time"}; if (lab == 4) L = {"depth"}; M->step();
        vector<RegularSurfaceRotated<float>> v; bool r = raises([&] { v = ReadMultipleSgriSurf(f, L); });
        if (!M->check(r == (lab >= 3), "reading several with label set %d %s", lab, r ? "raised" : "did not raise") || r) continue;
        if (!M->check((int)v.size() == ng, "%zu surfaces read, expected %d", v.size(), ng)) break;
        for (int g = 0; g < ng; g++) { Rot q = mod(g); if (!same(v[g], q.m, mc::fmt("surface %d of several", g).c_str())) break; double x, y, ex, ey; v[g].GetXY(nx * ny - 1, x, y); q.glob((nx - 1) * q.m.dx, (ny - 1) * q.m.dy, ex, ey); M->check(close_(x, ex) && close_(y, ey) && v[g].GetAngle() == ang, "surface %d of several is misplaced", g); }
      }
    } catch (std::exception& x) { M->fail(string("reading raised: ") + x.what()); }
    spit(bf, b.substr(0, b.size() - 1)); M->check(raises([&] { ReadMultipleSgriSurf(f, {}); }), "several surfaces were read from a truncated file");
    spit(bf, b.substr(0, 4 * nx * ny - 1)); M->check(raises([&] { RegularSurfaceRotated<double> s(f); }), "a truncated binary file was accepted");
    remove(bf.c_str()); M->check(raises([&] { RegularSurfaceRotated<double> s(f); }), "a missing binary file was accepted");
    remove(f.c_str());
  }
  M->part = "Sgri header";
  struct H { const char* n; const char* dim; const char* x; const char* y; const char* grids; const char* size; const char* step; const char* cplx; } bad[] = {
    {"three dimensions", "3", "X", "Y", "1", "2 2", "1 1", "0"}, {"swapped axes", "2", "Y", "X", "1", "2 2", "1 1", "0"}, {"no grids", "2", "X", "Y", "0", "2 2", "1 1", "0"}, {"no columns", "2", "X", "Y", "1", "0 2", "1 1", "0"},
    {"no rows", "2", "X", "Y", "1", "2 0", "1 1", "0"}, {"zero x step", "2", "X", "Y", "1", "2 2", "0 1", "0"}, {"negative y step", "2", "X", "Y", "1", "2 2", "1 -1", "0"}, {"complex", "2", "X", "Y", "1", "2 2", "1 1", "1"}};
  for (auto& b : bad) {
    if (!M->next()) continue;
    M->begin("%s", b.n); M->state(); string h = mc::fmt("NORSAR General Grid Format v1.0\n%s\n%s\n%s\nTime\n%s\ngrid\n1 1\n%s\n%s\n0 0 0\n-99\n\n%s\n", b.dim, b.x, b.y, b.grids, b.size, b.step, b.cplx);
    spit(f, h); spit(dir + "/surf.Sgri", string(64, '\0')); M->check(raises([&] { RegularSurfaceRotated<double> s(f, SURF_SGRI); }), "accepted");
  }
}

static void file_types() {
  M->part = "file types";
  string f = M->scratch + "/t";
  struct T { const char* t; int e; int hufsa; } C[] = {{"", 0, -1}, {"  \n ", 0, 0}, {"-996 3", 1, 0}, {"\n -996\n", 1, 0}, {"STORMGRID_BINARY\n", 2, 0}, {"STORMGRID_BINARYX\n", 0, 0}, {"NORSAR General Grid Format v1.0\n", 3, 0}, {"NORSAR General Grid Format v2.0\n", 3, 0},
    {"NORSAR General Grid Format v3.0\n", 0, 0}, {"2 3\n1 2 3\n4 5 6\n", 0, 1}, {"2 3\n1 2 3\n4 5 6", 0, 1}, {"2 3\n1 2 3\n4 5\n", 0, 0}, {"3 3\n1 2 3\n4 5 6\n", 0, 0}, {"1 2\n1 2\n", 0, 1}, {"1 2\n1 2 3\n", 0, 0}, {"name 12\n1 2\n", 0, 0}, {"1.5 2.5\n1 2\n", 0, 0}, {"a b\n", 0, 0}, {"1 2 3\n", 0, 0}, {"4 1\n1\n2\n3\n4\n", 0, 1}};
  for (auto& c : C) {
    if (!M->next()) continue;
    M->begin("\"%s\"", c.t); M->state(); M->step(); spit(f, c.t);
    try { M->check(FindSurfaceFileType(f) == c.e, "FindSurfaceFileType gives %d, expected %d", (int)FindSurfaceFileType(f), c.e); if (c.hufsa >= 0) M->check(FindHufsaTrends(f) == (c.hufsa == 1), "FindHufsaTrends gives %d", FindHufsaTrends(f)); } catch (std::exception& x) { M->fail(string("raised: ") + x.what()); }
    if (c.e == 0) M->check(raises([&] { RegularSurface<double> s(f); }) && raises([&] { RegularSurfaceRotated<double> s(f); }), "a file of unknown type was read");
  }
  if (M->next()) { M->begin("format names"); set<string> n; for (int k = 0; k < 5; k++) n.insert(GetSurfFormatString((SurfaceFileFormat)k)); M->check(n.size() == 5, "names coincide"); }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv); M = &m;
  interpolation();
  summaries();
  histories();
  rotated();
  storm_files();
  irap_files();
  sgri_files();
  file_types();
  m.finish();
}
