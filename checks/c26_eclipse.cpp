// C26: corner-point (Eclipse) grids: cells, pillars, point location and GRDECL files.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <nrlib/exception/exception.hpp>
#include <nrlib/eclipsegrid/eclipsefaceindexer.hpp>
#include <nrlib/eclipsegrid/eclipsegrid.hpp>
#include <nrlib/geometry/line.hpp>
#include <nrlib/geometry/point.hpp>
using namespace std;
using NRLib::EclipseFault; using NRLib::EclipseGeometry; using NRLib::EclipseGrid; using NRLib::FaceIndexer; using NRLib::Line; using NRLib::Point;
static mc::MC* M;
template <class F> static bool raises(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static string path(const char* n) { return M->scratch + "/" + n; }
static bool nearp(const Point& a, const Point& b, double tol) { return fabs(a.x - b.x) <= tol && fabs(a.y - b.y) <= tol && fabs(a.z - b.z) <= tol; }

// ---- model: everything stored per pillar, cell and corner ---------------------------------------------
struct Model {
  size_t ni, nj, nk;
  vector<Point> p1, p2;                 // pillars, i fastest
  map<vector<size_t>, double> z;        // (i,j,k,a,b,c)
  vector<int> act;                      // i fastest
  size_t P(size_t i, size_t j) const { return i + j * (ni + 1); }
  size_t C(size_t i, size_t j, size_t k) const { return i + ni * (j + nj * k); }
  bool active(size_t i, size_t j, size_t k) const { return act[C(i, j, k)] != 0; }
  size_t top(size_t i, size_t j) const { for (size_t k = 0; k < nk; k++) if (active(i, j, k)) return k; return nk; }
  size_t bot(size_t i, size_t j) const { for (size_t k = nk; k-- > 0;) if (active(i, j, k)) return k; return nk; }
  bool pillar(size_t i, size_t j) const {
    for (size_t a = 0; a < 2; a++) for (size_t b = 0; b < 2; b++) if (i >= a && j >= b && i - a < ni && j - b < nj && top(i - a, j - b) < nk) return true;
    return false;
  }
  Point at(size_t i, size_t j, double zz) const {
    Point a = p1[P(i, j)], b = p2[P(i, j)], r; r.z = zz;
    double t = b.z == a.z ? 0 : (zz - a.z) / (b.z - a.z);
    r.x = a.x + t * (b.x - a.x); r.y = a.y + t * (b.y - a.y);
    return r;
  }
  double zc(size_t i, size_t j, size_t k, size_t a, size_t b, size_t c) const { return z.at({i, j, k, a, b, c}); }
  Point corner(size_t i, size_t j, size_t k, size_t a, size_t b, size_t c) const { return at(i + a, j + b, zc(i, j, k, a, b, c)); }
  // a point on the top (c=0) or base of a cell: its depth is the bilinear mean of the corners' depths, and at that
  // depth it divides the cell as (u, v)
  Point surf(size_t i, size_t j, size_t k, size_t c, double u, double v) const {
    double zz = 0; for (size_t a = 0; a < 2; a++) for (size_t b = 0; b < 2; b++) zz += zc(i, j, k, a, b, c) * (a ? u : 1 - u) * (b ? v : 1 - v);
    return flat(i, j, zz, u, v);
  }
  Point flat(size_t i, size_t j, double zz, double u, double v) const {
    Point r(0, 0, zz);
    for (size_t a = 0; a < 2; a++) for (size_t b = 0; b < 2; b++) { Point q = at(i + a, j + b, zz); double w = (a ? u : 1 - u) * (b ? v : 1 - v); r.x += w * q.x; r.y += w * q.y; }
    return r;
  }
  double scale() const { double s = 1; for (auto& p : p1) s = max({s, fabs(p.x), fabs(p.y), fabs(p.z)}); return s; }
};
struct Shape { double x0, y0, dx, dy, ang, slant, fan, warp, thick, dip, step; int left; };  // how a grid is laid out
static Model layout(size_t ni, size_t nj, size_t nk, const Shape& s, unsigned long inactive) {
  Model m; m.ni = ni; m.nj = nj; m.nk = nk; m.p1.resize((ni + 1) * (nj + 1)); m.p2 = m.p1;
  for (size_t j = 0; j <= nj; j++) for (size_t i = 0; i <= ni; i++) {
    double x = s.dx * (i + s.warp * ((i * 3 + j * 5) % 4)), y = s.dy * (j + s.warp * ((i * 2 + j) % 3)) * (s.left ? -1 : 1);
    double X = s.x0 + cos(s.ang) * x - sin(s.ang) * y, Y = s.y0 + sin(s.ang) * x + cos(s.ang) * y;
    m.p1[m.P(i, j)] = Point(X, Y, 1000);
    m.p2[m.P(i, j)] = Point(X + s.slant * 100 + s.fan * 100 * (double(i) - ni / 2.0), Y + s.fan * 100 * (double(j) - nj / 2.0), 1100);
  }
  m.act.assign(ni * nj * nk, 1);
  for (size_t c = 0; c < m.act.size(); c++) if (inactive >> c & 1) m.act[c] = 0;
  for (size_t k = 0; k < nk; k++) for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++)
    for (size_t a = 0; a < 2; a++) for (size_t b = 0; b < 2; b++) for (size_t c = 0; c < 2; c++)
      m.z[{i, j, k, a, b, c}] = 1000 + s.thick * (k + c) + s.dip * (i + a) + 0.5 * s.dip * (j + b) + s.step * ((i + 2 * j) % 3) + 0.125 * s.dip * ((i + a) * (j + b) % 3) + 0.25 * s.dip * (k + c) * min<size_t>(i + a, 4);
  return m;
}
static void store(EclipseGrid& g, const Model& m) {
  for (size_t j = 0; j <= m.nj; j++) for (size_t i = 0; i <= m.ni; i++) g.SetPillar(i, j, Line(m.p1[m.P(i, j)], m.p2[m.P(i, j)], true, true));
  for (auto& kv : m.z) { auto& q = kv.first; g.SetZCorner(q[0], q[1], q[2], q[3], q[4], q[5], kv.second); }
  for (size_t c = 0; c < m.act.size(); c++) { if (c % 2) g.SetActive(c, m.act[c] != 0); else { size_t i, j, k; g.GetIJK(c, i, j, k); g.SetActive(i, j, k, m.act[c] != 0); } }
}
// A grid with pillars, corners and actives (and, with polys, the outline that locating points needs).
static EclipseGrid build(const Model& m, bool polys) {
  EclipseGrid g(m.ni, m.nj, m.nk); store(g, m); g.InitializeActivePillars();
  if (polys) { EclipseGeometry e = g.GetGeometry(); e.FindMinAndMaxZValueAndSetPolygons(); g.SetGeometry(e); }
  return g;
}
static bool sameGeometry(const EclipseGrid& g, const Model& m, double tol, const char* what) {
  if (!M->check(g.GetNI() == m.ni && g.GetNJ() == m.nj && g.GetNK() == m.nk && g.GetN() == m.ni * m.nj * m.nk, "%s: the grid is %zux%zux%zu, model %zux%zux%zu", what, g.GetNI(), g.GetNJ(), g.GetNK(), m.ni, m.nj, m.nk)) return false;
  bool ok = true;
  for (size_t j = 0; ok && j <= m.nj; j++) for (size_t i = 0; ok && i <= m.ni; i++) {
    Point a = g.GetPillar(i, j).GetPt1(), b = g.GetPillar(i, j).GetPt2();
    ok = M->check(nearp(a, m.p1[m.P(i, j)], tol) && nearp(b, m.p2[m.P(i, j)], tol), "%s: pillar (%zu,%zu) is (%.9g,%.9g,%.9g)-(%.9g,%.9g,%.9g), model (%.9g,%.9g,%.9g)-(%.9g,%.9g,%.9g)", what, i, j, a.x, a.y, a.z, b.x, b.y, b.z,
                  m.p1[m.P(i, j)].x, m.p1[m.P(i, j)].y, m.p1[m.P(i, j)].z, m.p2[m.P(i, j)].x, m.p2[m.P(i, j)].y, m.p2[m.P(i, j)].z);
  }
  for (auto& kv : m.z) { if (!ok) break; auto& q = kv.first; double z = g.GetZCorner(q[0], q[1], q[2], q[3], q[4], q[5]);
    ok = M->check(fabs(z - kv.second) <= tol, "%s: corner (%zu,%zu,%zu,%zu,%zu,%zu) is at %.9g, model %.9g", what, q[0], q[1], q[2], q[3], q[4], q[5], z, kv.second); }
  for (size_t k = 0; ok && k < m.nk; k++) for (size_t j = 0; ok && j < m.nj; j++) for (size_t i = 0; ok && i < m.ni; i++)
    ok = M->check(g.IsActive(i, j, k) == m.active(i, j, k) && g.GetGeometry().IsActive(m.C(i, j, k)) == m.active(i, j, k), "%s: cell (%zu,%zu,%zu) is %s", what, i, j, k, m.active(i, j, k) ? "inactive" : "active");
  return ok;
}
static const Shape SH[] = {
  {0, 0, 100, 100, 0, 0, 0, 0, 10, 0, 0, 0},                    // a box
  {0, 0, 100, 50, 0, 0, 0, 0, 8, 2, 0, 0},                      // sloping layers
  {0, 0, 100, 100, 0, 0.1, 0, 0, 10, 1.5, 0, 0},                // slanted pillars
  {-250.5, 40.25, 60, 45, 0.4, 0.05, 0.02, 0.05, 12, 2, 0, 0},  // rotated, warped, fanning pillars
  {461000.5, 5932000.25, 100, 100, 0.7, 0, 0, 0, 10, 3, 0, 0},  // map coordinates, rotated
  {461000.5, 5932000.25, 100, 75, 1.5707963267948966, 0, 0, 0, 10, 3, 0, 0},  // map coordinates, the i direction northwards
  {461000.5, 5932000.25, 50, 100, 0.3, 0.05, 0, 0, 10, 2, 7, 1},  // left-handed, with steps between the columns
  {10, 20, 100, 100, 0, 0, 0, 0.08, 10, 1, 4, 0},               // warped, with steps
  {0, 0, 25, 40, 3.0, -0.1, 0.03, 0, 6, -1, 0, 1},
};
static const int NS = sizeof SH / sizeof *SH;
struct Size { size_t i, j, k; };

static void storage() {
  M->part = "storage";
  vector<Size> sz = {{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {2, 3, 2}, {3, 2, 3}, {4, 3, 2}, {12, 2, 1}, {1, 11, 2}, {2, 1, 15}};
  if (M->thorough()) { sz.push_back({5, 4, 3}); sz.push_back({1, 1, 7}); sz.push_back({3, 3, 3}); }
  for (auto& s : sz) for (int q = 0; q < NS; q++) for (int ina = 0; ina < 4; ina++) {
    unsigned long mask = ina == 0 ? 0 : ina == 1 ? 0x5a5a5a5aul : ina == 2 ? 0x93ul : ~0ul;
    if (!M->next()) continue; M->begin("%zux%zux%zu shape %d inactive %lx", s.i, s.j, s.k, q, mask);
    Model m = layout(s.i, s.j, s.k, SH[q], mask);
    for (size_t j = 0; j <= m.nj; j++) for (size_t i = 0; i <= m.ni; i++) if ((i + j + q) % 5 == 4) m.p2[m.P(i, j)] = m.p1[m.P(i, j)];   // pillars given by one point are vertical
    EclipseGrid g = build(m, false); const EclipseGeometry& e = g.GetGeometry();
    double tol = 1e-9 * m.scale();
    if (!sameGeometry(g, m, 0, "after setting")) continue;
    M->state();
    // numbering
    size_t n = 0;
    for (size_t k = 0; k < m.nk; k++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++, n++) {
      size_t a, b, c; g.GetIJK(n, a, b, c);
      M->check(g.GetIndex(i, j, k) == n && a == i && b == j && c == k, "cell (%zu,%zu,%zu) has index %zu, and index %zu is cell (%zu,%zu,%zu)", i, j, k, g.GetIndex(i, j, k), n, a, b, c); M->step();
      for (size_t A = 0; A < 2; A++) for (size_t B = 0; B < 2; B++) for (size_t D = 0; D < 2; D++) {
        size_t w = 2 * i + A + 2 * m.ni * (2 * j + B) + 4 * m.ni * m.nj * (2 * k + D);
        M->check(e.FindZCornerIndex(i, j, k, A, B, D) == w, "corner (%zu,%zu,%zu,%zu,%zu,%zu) has place %zu in the file order, should have %zu", i, j, k, A, B, D, e.FindZCornerIndex(i, j, k, A, B, D), w);
        M->check(nearp(e.FindCornerPoint(i, j, k, A, B, D), m.corner(i, j, k, A, B, D), tol), "corner point (%zu,%zu,%zu,%zu,%zu,%zu) is wrong", i, j, k, A, B, D);
      }
      Point ce(0, 0, 0), ct[2] = {Point(0, 0, 0), Point(0, 0, 0)};
      for (size_t A = 0; A < 2; A++) for (size_t B = 0; B < 2; B++) for (size_t D = 0; D < 2; D++) { Point p = m.corner(i, j, k, A, B, D); ce += p * 0.125; ct[D] += p * 0.25; }
      M->check(nearp(e.FindCellCenterPoint(i, j, k), ce, tol), "the centre of cell (%zu,%zu,%zu) is wrong", i, j, k);
      M->check(nearp(e.FindCellCenterPointTopBot(i, j, k, true), ct[0], tol) && nearp(e.FindCellCenterPointTopBot(i, j, k, false), ct[1], tol), "the centre of the top or base of cell (%zu,%zu,%zu) is wrong", i, j, k);
      // faces: the four corners on that side, in order around it
      static const int F[6][4][3] = {{{1,0,0},{1,1,0},{1,1,1},{1,0,1}}, {{0,0,0},{0,1,0},{0,1,1},{0,0,1}}, {{0,1,0},{1,1,0},{1,1,1},{0,1,1}}, {{0,0,0},{1,0,0},{1,0,1},{0,0,1}}, {{0,0,1},{1,0,1},{1,1,1},{0,1,1}}, {{0,0,0},{1,0,0},{1,1,0},{0,1,0}}};
      for (int f = 0; f < 6; f++) { auto v = g.GetFaceCornerPoints(i, j, k, (NRLib::Face)f); bool ok = v.size() == 4;
        for (int c4 = 0; ok && c4 < 4; c4++) ok = nearp(v[c4], m.corner(i, j, k, F[f][c4][0], F[f][c4][1], F[f][c4][2]), tol);
        M->check(ok, "the corners of face %d of cell (%zu,%zu,%zu) are wrong", f, i, j, k); }
      static const int A8[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
      auto v = g.GetAllCornerPoints(i, j, k); bool ok = v.size() == 8; for (int c8 = 0; ok && c8 < 8; c8++) ok = nearp(v[c8], m.corner(i, j, k, A8[c8][0], A8[c8][1], A8[c8][2]), tol);
      M->check(ok, "the corners of cell (%zu,%zu,%zu) are wrong", i, j, k);
      // columns
      bool f1, f2; double zt = e.FindZTopInCellActiveColumn(i, j, k, f1), zb = e.FindZBotInCellActiveColumn(i, j, k, f2), wt = 1e300, wb = -1e300; bool col = m.top(i, j) < m.nk;
      for (size_t A = 0; A < 2; A++) for (size_t B = 0; B < 2; B++) { wt = min(wt, m.zc(i, j, k, A, B, 0)); wb = max(wb, m.zc(i, j, k, A, B, 1)); }
      M->check(f1 == col && f2 == col && (!col || (zt == wt && zb == wb)), "the highest or lowest corner of cell (%zu,%zu,%zu) is wrong: %.9g,%.9g should be %.9g,%.9g", i, j, k, zt, zb, wt, wb);
      for (int f = 0; f < 4; f++) { int di = f == 0 ? 1 : f == 1 ? -1 : 0, dj = f == 2 ? 1 : f == 3 ? -1 : 0, a2 = (int)i + di, b2 = (int)j + dj, io = -9, jo = -9;
        if (a2 < 0 || b2 < 0 || a2 >= (int)m.ni || b2 >= (int)m.nj) continue;
        g.GetNeighbourColumn((int)i, (int)j, (NRLib::Face)f, io, jo); M->check(io == a2 && jo == b2, "the neighbour of column (%zu,%zu) at face %d is (%d,%d)", i, j, f, io, jo); }
    }
    bool any = false; size_t tl = m.nk, bl = 0;
    for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) {
      M->check(g.FindTopCell(i, j) == m.top(i, j) && g.FindBottomCell(i, j) == m.bot(i, j) && e.IsColumnActive(i, j) == (m.top(i, j) < m.nk), "the first and last active cells of column (%zu,%zu) are %zu,%zu, should be %zu,%zu", i, j, g.FindTopCell(i, j), g.FindBottomCell(i, j), m.top(i, j), m.bot(i, j)); M->step();
      if (m.top(i, j) < m.nk) { any = true; tl = min(tl, m.top(i, j)); bl = max(bl, m.bot(i, j)); }
    }
    M->check(e.FindTopLayer() == tl && e.FindBottomLayer() == (any ? bl : m.nk), "the first and last layers with active cells are %zu,%zu", e.FindTopLayer(), e.FindBottomLayer());
    vector<Point> T, B, wT, wB;
    for (size_t i = 0; i <= m.ni; i++) for (size_t j = 0; j <= m.nj; j++) {
      M->check(g.IsPillarActive(i, j) == m.pillar(i, j), "pillar (%zu,%zu) is %s", i, j, m.pillar(i, j) ? "inactive" : "active");
      double zt = 1e300, zb = -1e300, ct = 1e300, cb = -1e300;
      for (size_t a = 0; a < 2; a++) for (size_t b = 0; b < 2; b++) if (i >= a && j >= b && i - a < m.ni && j - b < m.nj) { size_t I = i - a, J = j - b;
        for (size_t k = 0; k < m.nk; k++) if (m.active(I, J, k)) for (size_t c = 0; c < 2; c++) { zt = min(zt, m.zc(I, J, k, a, b, c)); zb = max(zb, m.zc(I, J, k, a, b, c)); }
        if (m.top(I, J) < m.nk) { ct = min(ct, m.zc(I, J, m.top(I, J), a, b, 0)); cb = max(cb, m.zc(I, J, m.bot(I, J), a, b, 1)); } }
      if (zt < 1e300) { wT.push_back(m.at(i, j, zt)); wB.push_back(m.at(i, j, zb)); }
      for (double z : {900.0, 1000.0, 1003.5, 1011.0, 1040.0, 1100.0, 1300.0}) {
        M->check(nearp(g.FindPointAtPillar(i, j, z), m.at(i, j, z), tol), "the point at depth %g on pillar (%zu,%zu) is wrong", z, i, j);
        bool found = !m.pillar(i, j); Point p = g.FindPointAtPillarInsideGrid(i, j, z, found); double wz = min(max(z, ct), cb);
        M->check(found == m.pillar(i, j) && (!found || nearp(p, m.at(i, j, wz), tol)), "the point of the grid nearest depth %g on pillar (%zu,%zu) is wrong: %.9g should be %.9g", z, i, j, p.z, wz); M->step();
      }
    }
    e.FindTopAndBotValuesOfGrid(T, B); bool ok = T.size() == wT.size() && B.size() == wB.size();
    for (size_t p = 0; ok && p < T.size(); p++) ok = nearp(T[p], wT[p], tol) && nearp(B[p], wB[p], tol);
    M->check(ok, "the top and base of the grid at the pillars are wrong (%zu,%zu points, should be %zu)", T.size(), B.size(), wT.size());
    if (any) for (double z : {1000.0, 1020.0}) {
      double sum = 0, cnt = 0;
      for (size_t j = 0; j <= m.nj; j++) for (size_t i = 0; i <= m.ni; i++) if (m.pillar(i, j)) {
        Point p = m.at(i, j, z), r;
        if (i < m.ni && m.pillar(i + 1, j)) { r = m.at(i + 1, j, z); sum += hypot(p.x - r.x, p.y - r.y); cnt++; }
        if (j < m.nj && m.pillar(i, j + 1)) { r = m.at(i, j + 1, z); sum += hypot(p.x - r.x, p.y - r.y); cnt++; } }
      M->check(fabs(e.FindMeanPillarDistance(z) - sum / cnt) <= 1e-7 * max(1.0, sum / cnt), "the mean distance between the active pillars is %.9g, should be %.9g", e.FindMeanPillarDistance(z), sum / cnt);
    }
    // resizing nulls everything out
    g.AddParameter("P", 3.5); g.Resize(m.ni, m.nj, m.nk + 1); bool z0 = true;
    M->check(g.GetNI() == m.ni && g.GetNK() == m.nk + 1 && g.GetN() == m.ni * m.nj * (m.nk + 1) && g.GetParameter("P").GetN() == g.GetN(), "wrong sizes after resizing");
    for (size_t c = 0; c < g.GetN(); c++) z0 = z0 && g.GetParameter("P")(c) == 0 && !g.GetGeometry().IsActive(c);
    for (size_t k = 0; k <= m.nk; k++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) for (int c = 0; c < 8; c++) z0 = z0 && g.GetZCorner(i, j, k, c & 1, c >> 1 & 1, c >> 2) == 0;
    M->check(z0, "the former contents are still there after resizing");
  }
}

// every pattern of active cells in small grids
static void activity() {
  M->part = "activity";
  vector<Size> sz = {{1, 1, 4}, {2, 2, 2}, {3, 1, 2}, {1, 3, 2}, {3, 3, 1}, {2, 2, 1}};
  if (M->thorough()) { sz.push_back({2, 2, 3}); sz.push_back({3, 2, 2}); sz.push_back({2, 3, 2}); sz.push_back({4, 3, 1}); }
  for (auto& s : sz) { Model m0 = layout(s.i, s.j, s.k, SH[6], 0); size_t n = s.i * s.j * s.k;
   for (unsigned long mask = 0; mask < 1ul << n; mask++) {
    if (!M->next()) continue; M->begin("%zux%zux%zu inactive %lx", s.i, s.j, s.k, mask); M->state();
    Model m = m0; for (size_t c = 0; c < n; c++) m.act[c] = !(mask >> c & 1);
    EclipseGrid g = build(m, true); const EclipseGeometry& e = g.GetGeometry(); double tol = 1e-9 * m.scale();
    bool any = false; size_t tl = m.nk, bl = 0; vector<Point> T, B, wT, wB; double sum = 0, cnt = 0; M->step();
    for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) {
      M->check(g.FindTopCell(i, j) == m.top(i, j) && g.FindBottomCell(i, j) == m.bot(i, j) && e.IsColumnActive(i, j) == (m.top(i, j) < m.nk), "the first and last active cells of column (%zu,%zu) are %zu,%zu, should be %zu,%zu", i, j, g.FindTopCell(i, j), g.FindBottomCell(i, j), m.top(i, j), m.bot(i, j));
      if (m.top(i, j) < m.nk) { any = true; tl = min(tl, m.top(i, j)); bl = max(bl, m.bot(i, j));
        for (size_t k = 0; k < m.nk; k++) { double z = 0; for (int b = 0; b < 8; b++) z += m.zc(i, j, k, b & 1, b >> 1 & 1, b >> 2) / 8; Point p = m.flat(i, j, z, 0.5, 0.5); size_t I = 99, J = 99, K = 99;
          bool f = g.FindIndex(p.x, p.y, p.z, I, J, K); M->check(f && I == i && J == j && K == k, "the centre of cell (%zu,%zu,%zu) is %s (%zu,%zu,%zu)", i, j, k, f ? "found in" : "not found:", I, J, K); } }
      bool f1, f2; e.FindZTopInCellActiveColumn(i, j, 0, f1); e.FindZBotInCellActiveColumn(i, j, 0, f2); M->check(f1 == (m.top(i, j) < m.nk) && f2 == f1, "column (%zu,%zu) is wrong about being active", i, j);
    }
    M->check(e.FindTopLayer() == tl && e.FindBottomLayer() == (any ? bl : m.nk), "the first and last layers with active cells are %zu,%zu, should be %zu,%zu", e.FindTopLayer(), e.FindBottomLayer(), tl, any ? bl : m.nk);
    for (size_t i = 0; i <= m.ni; i++) for (size_t j = 0; j <= m.nj; j++) {
      M->check(g.IsPillarActive(i, j) == m.pillar(i, j), "pillar (%zu,%zu) is %s", i, j, m.pillar(i, j) ? "inactive" : "active");
      double zt = 1e300, zb = -1e300, ct = 1e300, cb = -1e300;
      for (size_t a = 0; a < 2; a++) for (size_t b = 0; b < 2; b++) if (i >= a && j >= b && i - a < m.ni && j - b < m.nj) { size_t I = i - a, J = j - b;
        for (size_t k = 0; k < m.nk; k++) if (m.active(I, J, k)) for (size_t c = 0; c < 2; c++) { zt = min(zt, m.zc(I, J, k, a, b, c)); zb = max(zb, m.zc(I, J, k, a, b, c)); }
        if (m.top(I, J) < m.nk) { ct = min(ct, m.zc(I, J, m.top(I, J), a, b, 0)); cb = max(cb, m.zc(I, J, m.bot(I, J), a, b, 1)); } }
      if (zt < 1e300) { wT.push_back(m.at(i, j, zt)); wB.push_back(m.at(i, j, zb)); }
      for (double z : {900.0, 1012.5, 1300.0}) { bool found = !m.pillar(i, j); Point p = g.FindPointAtPillarInsideGrid(i, j, z, found); double wz = min(max(z, ct), cb);
        M->check(found == m.pillar(i, j) && (!found || nearp(p, m.at(i, j, wz), tol)), "the point of the grid nearest depth %g on pillar (%zu,%zu) is wrong: %.9g should be %.9g", z, i, j, p.z, wz); }
      if (m.pillar(i, j)) { Point p = m.at(i, j, 1010), r;
        if (i < m.ni && m.pillar(i + 1, j)) { r = m.at(i + 1, j, 1010); sum += hypot(p.x - r.x, p.y - r.y); cnt++; }
        if (j < m.nj && m.pillar(i, j + 1)) { r = m.at(i, j + 1, 1010); sum += hypot(p.x - r.x, p.y - r.y); cnt++; } }
    }
    e.FindTopAndBotValuesOfGrid(T, B); bool ok = T.size() == wT.size() && B.size() == wB.size();
    for (size_t p = 0; ok && p < T.size(); p++) ok = nearp(T[p], wT[p], tol) && nearp(B[p], wB[p], tol);
    M->check(ok, "the top and base of the grid at the pillars are wrong");
    if (any) M->check(fabs(e.FindMeanPillarDistance(1010) - sum / cnt) <= 1e-7 * max(1.0, sum / cnt), "the mean distance between the active pillars is %.9g, should be %.9g", e.FindMeanPillarDistance(1010), sum / cnt);
   } }
}

// layers that do or do not meet, and inactive cells between them
static void neighbours() {
  M->part = "neighbours";
  for (int nk = 1; nk <= (M->thorough() ? 5 : 4); nk++) for (int mask = 0; mask < 1 << nk; mask++) for (int gap = 0; gap < 1 << (nk - 1); gap++) for (int cor = 0; cor < 4; cor++) {
    if (!M->next()) continue; M->begin("nk %d active %x gaps %x at corner %d", nk, mask, gap, cor);
    EclipseGrid g(1, 1, nk); Model m; m.ni = m.nj = 1; m.nk = nk;
    for (int k = 0; k < nk; k++) { g.SetActive(0, 0, k, mask >> k & 1);
      for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) { double z = 100 + 10 * (k + c) + 3 * a + b; if (c == 0 && k > 0 && (gap >> (k - 1) & 1) && cor == 2 * a + b) z += 0.001; g.SetZCorner(0, 0, k, a, b, c, z); m.z[{0, 0, (size_t)k, (size_t)a, (size_t)b, (size_t)c}] = z; } }
    M->state();
    for (int k = 0; k < nk; k++) {
      int up = k, down = k;
      for (int q = k + 1; q < nk; q++) if (mask >> q & 1) { bool same = true; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) same = same && fabs(m.zc(0, 0, k, a, b, 1) - m.zc(0, 0, q, a, b, 0)) < 1e-4; if (same) down = q; break; }
      for (int q = k - 1; q >= 0; q--) if (mask >> q & 1) { bool same = true; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) same = same && fabs(m.zc(0, 0, k, a, b, 0) - m.zc(0, 0, q, a, b, 1)) < 1e-4; if (same) up = q; break; }
      int gd = g.GetNeighbourK(0, 0, k, NRLib::PosZ), gu = g.GetNeighbourK(0, 0, k, NRLib::NegZ); M->step(2);
      M->check(gd == down && gu == up, "the neighbours below and above of cell %d are %d,%d, should be %d,%d", k, gd, gu, down, up);
    }
    for (int f = 0; f < 4; f++) M->check(raises([&] { g.GetNeighbourK(0, 0, 0, (NRLib::Face)f); }), "a sideways neighbour layer is not refused");
  }
}

static void locate() {
  M->part = "locate";
  vector<Size> sz = {{1, 1, 1}, {1, 1, 2}, {2, 1, 3}, {2, 2, 1}, {3, 2, 2}, {2, 3, 5}};
  if (M->thorough()) { sz.push_back({4, 4, 4}); sz.push_back({1, 5, 8}); sz.push_back({5, 2, 6}); sz.push_back({1, 1, 17}); }
  for (auto& s : sz) for (int q = 0; q < NS; q++) for (int ina = 0; ina < 4; ina++) {
    if (!M->next()) continue; M->begin("%zux%zux%zu shape %d %s", s.i, s.j, s.k, q, ina == 0 ? "all active" : ina == 1 ? "some cells inactive" : "whole columns inactive");
    unsigned long mask = 0; if (ina > 1) for (size_t c = 0; c < s.i * s.j * s.k && c < 60; c++) if ((c % (s.i * s.j) + ina) % 3 == 0) mask |= 1ul << c;
    if (ina == 1) for (size_t c = 0; c < s.i * s.j * s.k; c++) if (c / (s.i * s.j) != (c % (s.i * s.j)) % s.k && c % 2) mask |= c < 60 ? 1ul << c : 0;   // every column keeps an active cell
    Model m = layout(s.i, s.j, s.k, SH[q], mask); EclipseGrid g = build(m, true); EclipseGeometry e = g.GetGeometry();
    double tol = 1e-8 * m.scale(); M->state();
    vector<double> fr = {0.125, 0.5, 0.8125}; if (M->thorough()) fr = {0.03125, 0.25, 0.5, 0.6875, 0.9375};
    for (size_t k = 0; k < m.nk; k++) for (size_t j = 0; j < m.nj; j++) for (size_t i = 0; i < m.ni; i++) {
      for (double u : {0.0, 0.25, 0.5, 1.0}) for (double v : {0.0, 0.375, 0.5, 1.0}) for (double w : {0.0, 0.5, 1.0}) {
        Point a = m.surf(i, j, k, 0, u, v), b = m.surf(i, j, k, 1, u, v), r = a * (1 - w) + b * w, p = e.FindPointInCell(i, j, k, u, v, w); M->step();
        M->check(nearp(p, r, tol), "the point (%g,%g,%g) in cell (%zu,%zu,%zu) is (%.9g,%.9g,%.9g), should be (%.9g,%.9g,%.9g)", u, v, w, i, j, k, p.x, p.y, p.z, r.x, r.y, r.z);
      }
      if (m.top(i, j) == m.nk) continue;
      for (double u : fr) for (double v : fr) for (double w : fr) {
        // a point inside: at depth z, dividing the cell as (u,v), between the top and the base of the cell there
        double zt = 0, zb = 0; for (size_t a = 0; a < 2; a++) for (size_t b = 0; b < 2; b++) { double W = (a ? u : 1 - u) * (b ? v : 1 - v); zt += W * m.zc(i, j, k, a, b, 0); zb += W * m.zc(i, j, k, a, b, 1); }
        double z = zt + w * (zb - zt); Point p = m.flat(i, j, z, u, v); size_t I = 99, J = 99, K = 99; M->step();
        bool f = g.FindIndex(p.x, p.y, p.z, I, J, K);
        M->check(f && I == i && J == j && K == k, "the point (%.9g,%.9g,%.9g) in cell (%zu,%zu,%zu) is %s (%zu,%zu,%zu)", p.x, p.y, p.z, i, j, k, f ? "found in" : "not found:", I, J, K);
        if (k == 0 && u == fr[0]) { Point o = m.flat(i, j, zt - 0.5, u, v); M->check(!g.FindIndex(o.x, o.y, o.z, I, J, K), "a point above column (%zu,%zu) is found in (%zu,%zu,%zu)", i, j, I, J, K); }
        if (k == m.nk - 1 && u == fr[0]) { Point o = m.flat(i, j, zb + 0.5, u, v); M->check(!g.FindIndex(o.x, o.y, o.z, I, J, K), "a point below column (%zu,%zu) is found in (%zu,%zu,%zu)", i, j, I, J, K); }
        if (i == 0) { Point o = m.flat(i, j, z, -3.0 - u, v); M->check(!g.FindIndex(o.x, o.y, o.z, I, J, K), "a point beside the grid is found in (%zu,%zu,%zu)", I, J, K); }
        if (j == m.nj - 1) { Point o = m.flat(i, j, z, u, 4.0 + v); M->check(!g.FindIndex(o.x, o.y, o.z, I, J, K), "a point beside the grid is found in (%zu,%zu,%zu)", I, J, K); }
      }
    }
  }
}

// ---- files --------------------------------------------------------------------------------------------
static void spit(const string& p, const string& s) { ofstream f(p, ios::binary); f << s; }
static string slurp(const string& p) { ifstream f(p, ios::binary); return string(istreambuf_iterator<char>(f), istreambuf_iterator<char>()); }
static const double PV[] = {0, 1, -1, 0.12345, -999.25, 12345.5, 1e7 + 0.25, -1234567.125, 99999999.875, -123456789.0625, 1e12, 0.00001, 250, -0.5, 1234567890.123};
static EclipseFault::Segment seg(int a, int b, int c, int d, int e, int f, int face) { EclipseFault::Segment s; s.i_from = a; s.i_to = b; s.j_from = c; s.j_to = d; s.k_from = e; s.k_to = f; s.face = (NRLib::Face)face; return s; }
static bool sameSeg(const EclipseFault::Segment& a, const EclipseFault::Segment& b) { return a.i_from == b.i_from && a.i_to == b.i_to && a.j_from == b.j_from && a.j_to == b.j_to && a.k_from == b.k_from && a.k_to == b.k_to && a.face == b.face; }
struct Full { Model m; map<string, vector<double>> par; map<string, vector<EclipseFault::Segment>> fa; };
static Full full(Size s, int q, int np, int nf, unsigned long mask) {
  Full r; r.m = layout(s.i, s.j, s.k, SH[q], mask); size_t n = s.i * s.j * s.k;
  static const char* N[] = {"PORO", "PERMX", "A_1"};
  for (int p = 0; p < np; p++) for (size_t c = 0; c < n; c++) r.par[N[p]].push_back(PV[(c + 4 * p) % 15]);
  static const char* FN[] = {"F1", "fault_2", "Z"};
  for (int f = 0; f < nf; f++) for (int t = 0; t <= f; t++) r.fa[FN[f]].push_back(seg(0, (int)s.i - 1, t % (int)s.j, (int)s.j - 1, 0, t % (int)s.k, (f + 2 * t + 1) % 6));
  return r;
}
static void fill(EclipseGrid& g, const Full& r) {
  store(g, r.m); g.InitializeActivePillars();
  for (auto& p : r.par) { if (p.first == "PORO") { NRLib::Grid<double> d(r.m.ni, r.m.nj, r.m.nk); for (size_t c = 0; c < p.second.size(); c++) d(c) = p.second[c]; g.AddParameter(p.first, d); }
    else { g.AddParameter(p.first, 7.0); for (size_t c = 0; c < p.second.size(); c++) { size_t i, j, k; g.GetIJK(c, i, j, k); g.GetParameter(p.first)(i, j, k) = p.second[c]; } } }
  for (auto& f : r.fa) { EclipseFault ft(f.first); for (auto& s : f.second) ft.AddSegment(s); g.AddFault(ft); }
}
static bool sameFull(const EclipseGrid& g, const Full& r, const char* what, bool params = true) {
  bool ok = sameGeometry(g, r.m, 0.00051, what); if (!ok) return false;
  auto names = g.GetParameterNames(); vector<string> w; if (params) for (auto& p : r.par) w.push_back(p.first);
  if (!M->check(names == w, "%s: %zu parameters, should be %zu", what, names.size(), w.size())) return false;
  for (auto& n : w) for (size_t c = 0; ok && c < g.GetN(); c++) { double v = g.GetParameter(n)(c), x = r.par.at(n)[c]; ok = M->check(fabs(v - x) <= 0.0000051 + 1e-12 * fabs(x), "%s: parameter %s of cell %zu is %.12g, should be %.12g", what, n.c_str(), c, v, x); }
  auto& fs = g.GetFaults(); if (!M->check(fs.size() == r.fa.size(), "%s: %zu faults, should be %zu", what, fs.size(), r.fa.size())) return false;
  for (auto& f : r.fa) { auto it = fs.find(f.first); bool eq = it != fs.end() && it->second.GetName() == f.first && it->second.GetSegments().size() == f.second.size();
    for (size_t t = 0; eq && t < f.second.size(); t++) eq = sameSeg(it->second.GetSegments()[t], f.second[t]);
    ok &= M->check(eq, "%s: fault %s is wrong", what, f.first.c_str()); }
  return ok;
}
static void files() {
  M->part = "files";
  vector<Size> sz = {{1, 1, 1}, {2, 1, 3}, {3, 2, 2}, {13, 1, 2}, {1, 9, 1}, {1, 1, 21}};
  if (M->thorough()) { sz.push_back({5, 4, 3}); sz.push_back({7, 1, 1}); sz.push_back({1, 1, 50}); sz.push_back({40, 1, 2}); }
  string f = path("g.grdecl");
  for (auto& s : sz) for (int q = 0; q < NS; q++) for (int np = 0; np < 4; np++) for (int nf = 0; nf < 4; nf++) {
    if (!M->next()) continue; M->begin("%zux%zux%zu shape %d, %d parameters, %d faults", s.i, s.j, s.k, q, np, nf);
    Full r = full(s, q, np, nf, (q + np) % 3 ? 0x25ul : 0); EclipseGrid g(s.i, s.j, s.k); fill(g, r);
    if (!sameFull(g, r, "before writing")) continue;
    M->check(g.HasStairSteppedFaults() == [&] { for (auto& x : r.fa) for (auto& t : x.second) if (t.face >= 4) return true; return false; }(), "the grid is wrong about having horizontal fault segments");
    g.WriteToFile(f); M->state();
    { EclipseGrid h(f); if (!sameFull(h, r, "after writing and reading")) continue;
      for (size_t j = 0; j <= r.m.nj; j++) for (size_t i = 0; i <= r.m.ni; i++) M->check(h.IsPillarActive(i, j) == r.m.pillar(i, j), "pillar (%zu,%zu) of the grid read is %s", i, j, h.IsPillarActive(i, j) ? "active" : "inactive");
      // it locates the same points
      for (size_t c = 0; c < h.GetN(); c++) { size_t i, j, k, I = 99, J = 99, K = 99; h.GetIJK(c, i, j, k); if (r.m.top(i, j) == r.m.nk) continue; double z = 0; for (int b = 0; b < 8; b++) z += r.m.zc(i, j, k, b & 1, b >> 1 & 1, b >> 2) / 8; Point p = r.m.flat(i, j, z, 0.5, 0.5);
        bool fd = h.FindIndex(p.x, p.y, p.z, I, J, K); M->check(fd && I == i && J == j && K == k, "the centre of cell (%zu,%zu,%zu) of the grid read is %s (%zu,%zu,%zu)", i, j, k, fd ? "found in" : "not found:", I, J, K); }
      // writing what was read gives the same file
      h.WriteToFile(path("h")); M->check(slurp(path("h")) == slurp(f), "writing what was read gives another file");
    }
    g.WriteToFile(f, false); { EclipseGrid h(f); sameFull(h, r, "after writing without the parameters", false); }
    // the same in several files
    vector<string> fn = {path("a"), path("b"), path("c")};
    vector<vector<list<string>>> splits = {{{"SPECGRID", "COORD"}, {"ZCORN", "ACTNUM"}, {}}, {{"SPECGRID"}, {"ACTNUM"}, {}}, {{"SPECGRID", "ZCORN", "ACTNUM"}, {"COORD"}, {}}};
    if (np > 0) { splits.push_back({{"SPECGRID", "COORD", "ZCORN", "ACTNUM"}, {"A_1"}, {}}); splits.back()[1].front() = r.par.begin()->first; }
    for (size_t t = 0; t < splits.size(); t++) {
      g.WriteToFiles(fn, splits[t]); EclipseGrid h; string err; try { h.ReadFromFiles(fn); } catch (std::exception& x) { err = x.what(); } M->step();
      if (M->check(err.empty(), "the files of split %zu are refused: %s", t, err.c_str())) sameFull(h, r, "after writing and reading several files");
    }
    M->check(raises([&] { vector<string> one(1, path("a")); vector<list<string>> k(1); k[0].push_back("NOSUCH"); g.WriteToFiles(one, k); }), "writing an absent parameter is not refused");
  }
}

// Text a user writes: comments, line ends, axes, and files that stop.
static string text(const Full& r, const char* eol, bool comments, const string& head) {
  string s, E = eol; const Model& m = r.m; auto com = [&](const char* t) { if (comments) s += string("-- ") + t + E; };
  com("a grid / with a slash"); s += head;
  s += "SPECGRID" + E + mc::fmt("%zu %zu %zu 1 F /", m.ni, m.nj, m.nk) + E; com("pillars"); s += "COORD" + E;
  for (size_t p = 0; p < m.p1.size(); p++) s += mc::fmt("%.6f %.6f %.6f", m.p1[p].x, m.p1[p].y, m.p1[p].z) + E + mc::fmt("\t%.6f %.6f %.6f", m.p2[p].x, m.p2[p].y, m.p2[p].z) + E;
  s += "/" + E + E; s += "NOECHO" + E + "ZCORN" + E; int n = 0;
  for (size_t k = 0; k < 2 * m.nk; k++) for (size_t j = 0; j < 2 * m.nj; j++) for (size_t i = 0; i < 2 * m.ni; i++) s += mc::fmt("%.6f", m.zc(i / 2, j / 2, k / 2, i % 2, j % 2, k % 2)) + (++n % 5 ? string(" ") : E);
  s += " /" + E + "ACTNUM" + E; for (int a : m.act) s += a ? "1 " : "0 "; s += "/" + E;
  if (!r.fa.empty()) { s += "FAULTS" + E; com("name etc"); static const char* F[2][6] = {{"'X'", "'X-'", "'Y'", "'Y-'", "'Z'", "'Z-'"}, {"I", "I-", "'J'", "J-", "'K'", "K-"}}; int w = 0;
    for (auto& f : r.fa) for (auto& t : f.second) s += "'" + f.first + "' " + mc::fmt("%d %d %d %d %d %d %s /", t.i_from + 1, t.i_to + 1, t.j_from + 1, t.j_to + 1, t.k_from + 1, t.k_to + 1, F[w++ % 2][t.face]) + E; s += "/" + E; }
  for (auto& p : r.par) { s += p.first + E; for (size_t c = 0; c < p.second.size(); c++) s += mc::fmt("%.5f ", p.second[c]); s += E + "/" + E; com("end"); }
  s += "ECHO" + E;
  return s;
}
static void texts() {
  M->part = "text";
  string f = path("t.grdecl"); static const char* EOL[] = {"\n", "\r\n"};
  for (int e = 0; e < 2; e++) for (int c = 0; c < 2; c++) for (int q = 0; q < NS; q++) for (int np = 0; np < 3; np++) {
    if (!M->next()) continue; M->begin("line end %d comments %d shape %d parameters and faults %d", e, c, q, np);
    Full r = full({2, 3, 2}, q, np, np, np ? 0x11 : 0); spit(f, text(r, EOL[e], c, "")); M->state(); string err; EclipseGrid h;
    try { h.ReadFromFile(f); } catch (std::exception& x) { err = x.what(); }
    if (M->check(err.empty(), "the file is refused: %s", err.c_str())) sameFull(h, r, "read");
  }
  // local coordinates: x and y are counted along the axes given, from their origin
  for (double ang : {0.0, 0.5, 1.5707963267948966, 2.5, 3.141592653589793, -0.5, -1.75, -2.75}) for (int left = 0; left < 2; left++) for (int loc = 0; loc < 2; loc++) for (int q : {0, 1, 3}) {
    if (!M->next()) continue; M->begin("axes turned by %g, %s, %s coordinates, shape %d", ang, left ? "left-handed" : "right-handed", loc ? "local" : "map", q);
    Full r = full({2, 3, 1}, q, 0, 0, 0); double ox = 461000, oy = 5930000, L = 250, L2 = 400, sg = left ? -1 : 1;
    string head = "MAPUNITS\n 'METRES  ' /\nMAPAXES\n" + mc::fmt(" %.9f %.9f %.9f %.9f %.9f %.9f /\n", ox - sg * L2 * sin(ang), oy + sg * L2 * cos(ang), ox, oy, ox + L * cos(ang), oy + L * sin(ang)) + "GRIDUNIT\n 'METRES  ' '" + (loc ? "        " : "MAP     ") + "' /\n";
    spit(f, text(r, "\n", false, head)); EclipseGrid h; string err; M->state();
    try { h.ReadFromFile(f); } catch (std::exception& x) { err = x.what(); }
    if (!M->check(err.empty(), "the file is refused: %s", err.c_str())) continue;
    if (loc) for (int w = 0; w < 2; w++) for (auto& p : w ? r.m.p2 : r.m.p1) { double x = p.x, y = p.y; p.x = ox + x * cos(ang) - sg * y * sin(ang); p.y = oy + x * sin(ang) + sg * y * cos(ang); }
    sameGeometry(h, r.m, 0.0002, "read");
  }
  if (M->next()) { M->begin("local coordinates with no axes"); Full r = full({1, 1, 1}, 0, 0, 0, 0); spit(f, text(r, "\n", false, "GRIDUNIT\n 'METRES  ' '        ' /\n")); M->check(raises([&] { EclipseGrid h(f); }), "local coordinates with no axes are not refused"); }
  // files cut short anywhere: refused, or read the parts that are complete; never an endless loop
  for (int np = 0; np < 2; np++) {
    Full r = full({1, 2, 1}, 1, np, 2 * np, 0);
    string s = text(r, "\n", true, np ? "MAPUNITS\n 'METRES  ' /\nMAPAXES\n 0 100 0 0 100 0 /\nGRIDUNIT\n 'METRES  ' 'MAP     ' /\n" : ""); if (np) s += "MULTIPLY\n PORO 2 /\n/\nGDORIENT\n INC INC INC DOWN RIGHT /\n";
    for (size_t n = 0; n <= s.size(); n++) {
      if (!M->next()) continue; M->begin("parameters %d, the first %zu bytes of %zu", np, n, s.size());
      spit(f, s.substr(0, n)); bool ok = true; EclipseGrid h; M->state(); M->step();
      try { h.ReadFromFile(f); } catch (std::exception&) { ok = false; }
      // whatever was accepted is not made up: a parameter that is there has the values of the file
      if (ok && h.GetN() == r.m.act.size() && h.HasParameter("PORO")) for (size_t c = 0; c < h.GetN(); c++) M->check(fabs(h.GetParameter("PORO")(c) - r.par["PORO"][c]) < 1e-5, "a parameter is read wrongly from a file cut short");
      size_t zp = s.find("ZCORN"), ap = s.find("ACTNUM"); if (n > zp + 6 && n < s.rfind('/', ap)) M->check(!ok, "a file that ends inside the corner depths is accepted");
      if (n > ap + 7 && n < s.find('/', ap)) M->check(!ok, "a file that ends inside the active cells is accepted");
      if (np) { size_t pp = s.find("PORO\n"); if (n > pp + 5 && n < s.find('/', pp)) M->check(!ok, "a file that ends inside a parameter is accepted"); size_t fp = s.find("FAULTS\n"), fe = s.find("\n/\n", fp) + 1; if (n > fp + 7 && n <= fe) M->check(!ok, "a file that ends inside the faults is accepted"); }
    }
  }
  for (int few = 0; few < 4; few++) { static const char* W[] = {"COORD", "ZCORN", "ACTNUM", "PORO"};
    if (!M->next()) continue; M->begin("one value too few in %s", W[few]);
    Full r = full({2, 2, 1}, 1, 1, 0, 0); string s = text(r, "\n", false, ""); size_t p = s.find(W[few]), e = s.find('/', p), b = e; while (b > 0 && strchr(" \n", s[b - 1])) b--; while (!strchr(" \n", s[b - 1])) b--;
    spit(f, s.substr(0, b) + "\n" + s.substr(e)); M->check(raises([&] { EclipseGrid h(f); }), "too few values of %s are accepted", W[few]); }
  if (M->next()) { M->begin("pillars before the size"); spit(f, "COORD\n 1 2 3 4 5 6 /\nSPECGRID\n1 1 1 1 F /\n"); M->check(raises([&] { EclipseGrid h(f); }), "pillars before SPECGRID are accepted"); }
  if (M->next()) { M->begin("no such file"); M->check(raises([&] { EclipseGrid h(path("nosuch")); }), "an absent file is accepted"); }
  for (const char* l : {"'F' 1 1 1 1 1 1 'Q' /", "'F' 1 1 1 1 1 'X' /", "'F' 1 1 1 1 1 z 'X' /"}) { if (!M->next()) continue; M->begin("fault line %s", l); spit(f, string("SPECGRID\n1 1 1 1 F /\nFAULTS\n") + l + "\n/\n"); M->check(raises([&] { EclipseGrid h(f); }), "a malformed fault line is accepted"); }
}

static void faults() {
  M->part = "faults";
  int R = M->thorough() ? 3 : 2;
  // the faces of a fault: every cell of every segment once, i fastest
  for (int f = 0; f < 6; f++) for (int a = 0; a < R; a++) for (int b = a; b < R + 1; b++) for (int c = 0; c < R; c++) for (int d = c; d < R + 1; d++) for (int k = 0; k < R; k++) for (int l = k; l < R + 1; l++) for (int two = 0; two < 3; two++) {
    if (!M->next()) continue; M->begin("face %d i %d..%d j %d..%d k %d..%d, %d more segments", f, a, b, c, d, k, l, two);
    EclipseFault ft("F"); vector<EclipseFault::Segment> S = {seg(a, b, c, d, k, l, f)}; if (two > 0) S.push_back(seg(4, 5, 1, 1, 2, 3, (f + 1) % 6)); if (two > 1) S.push_back(seg(0, 0, 0, 0, 0, 0, (f + 3) % 6));
    bool st = false; vector<vector<int>> w, g; for (auto& s : S) { ft.AddSegment(s); st = st || s.face >= 4; for (int K = s.k_from; K <= s.k_to; K++) for (int J = s.j_from; J <= s.j_to; J++) for (int I = s.i_from; I <= s.i_to; I++) w.push_back({I, J, K, (int)s.face}); }
    size_t lim = w.size() + 5; for (FaceIndexer x(ft); !x.IsFinished() && g.size() < lim; ++x) { auto q = x.GetFace(); g.push_back({q.i_, q.j_, q.k_, (int)q.face_}); M->step(); }
    M->state(); M->check(g == w, "the faces of the fault are wrong: %zu of them, should be %zu", g.size(), w.size());
    M->check(ft.IsStairStepped() == st, "the fault is wrong about having horizontal segments");
    // the ends of the segment as seen from above
    int li, lj, ui, uj; EclipseFault::GetSegmentLowerCoord(S[0], li, lj); EclipseFault::GetSegmentUpperCoord(S[0], ui, uj);
    int wl[2] = {a + (f == 0), c + (f == 2)}, wu[2] = {b + (f != 1), d + (f != 3)};
    M->check(li == wl[0] && lj == wl[1] && ui == wu[0] && uj == wu[1], "the ends of the segment are (%d,%d)-(%d,%d), should be (%d,%d)-(%d,%d)", li, lj, ui, uj, wl[0], wl[1], wu[0], wu[1]);
    if (f < 4) for (int inc : {1, 3}) { auto s = S[0]; EclipseFault::IncreaseSegmentLength(s, inc); auto x = S[0]; if (f < 2) { x.j_from -= inc; x.j_to += inc; } else { x.i_from -= inc; x.i_to += inc; } M->check(sameSeg(s, x), "lengthening a segment is wrong"); }
  }
  if (M->next()) { M->begin("a fault with no segments"); EclipseFault ft("F"); FaceIndexer x(ft); M->check(x.IsFinished(), "a fault with no segments has faces"); ++x; M->check(x.IsFinished(), "a fault with no segments has faces"); }
  // crossing of straight vertical segments, as lines between pillars
  for (int f1 = 0; f1 < 4; f1++) for (int f2 = 0; f2 < 4; f2++) for (int p1 = 0; p1 < 3; p1++) for (int p2 = 0; p2 < 3; p2++) for (int a1 = 0; a1 < 3; a1++) for (int b1 = a1; b1 < 3; b1++) for (int a2 = 0; a2 < 3; a2++) for (int b2 = a2; b2 < 3; b2++) {
    if (!M->next()) continue; M->begin("faces %d %d at %d %d, %d..%d %d..%d", f1, f2, p1, p2, a1, b1, a2, b2); M->state(); M->step();
    auto mk = [](int f, int p, int a, int b) { return f < 2 ? seg(p, p, a, b, 0, 0, f) : seg(a, b, p, p, 0, 0, f); };
    int i = -7, j = -7; bool x = EclipseFault::SegmentsCross(mk(f1, p1, a1, b1), mk(f2, p2, a2, b2), i, j);
    if ((f1 < 2) == (f2 < 2)) { M->check(!x, "parallel segments cross"); continue; }
    int X = f1 < 2 ? p1 + (f1 == 0) : p2 + (f2 == 0), Y = f1 < 2 ? p2 + (f2 == 2) : p1 + (f1 == 2);
    int xl = f1 < 2 ? a2 : a1, xu = (f1 < 2 ? b2 : b1) + 1, yl = f1 < 2 ? a1 : a2, yu = (f1 < 2 ? b1 : b2) + 1;
    bool w = X >= xl && X <= xu && Y >= yl && Y <= yu;
    M->check(x == w && (!w || (i == X && j == Y)), "the segments %s at (%d,%d), should %s at (%d,%d)", x ? "cross" : "do not cross", i, j, w ? "cross" : "not cross", X, Y);
  }
}
// the parameters of a part of the grid
static void subgrids() {
  M->part = "subgrids";
  size_t n[3] = {3, 4, 3}; EclipseGrid g(3, 4, 3); g.AddParameter("A"); g.AddParameter("B", -2.5);
  for (size_t c = 0; c < g.GetN(); c++) g.GetParameter("A")(c) = 10.0 * c + 0.5;
  for (size_t a = 0; a < 3; a++) for (size_t b = a + 1; b < 3; b++) for (size_t c = 0; c < 4; c++) for (size_t d = c + 1; d < 4; d++) for (size_t e = 0; e < 3; e++) for (size_t f = e + 1; f < 3; f++) {
    if (!M->next()) continue; M->begin("i %zu..%zu j %zu..%zu k %zu..%zu", a, b, c, d, e, f); M->state();
    EclipseGrid s = g.ExtractSubGrid(a, b, c, d, e, f); bool ok = s.GetNI() == b - a + 1 && s.GetNJ() == d - c + 1 && s.GetNK() == f - e + 1 && s.HasParameter("A") && s.HasParameter("B") && !s.HasParameter("C");
    for (size_t k = e; ok && k <= f; k++) for (size_t j = c; ok && j <= d; j++) for (size_t i = a; ok && i <= b; i++) { ok = s("A")(i - a, j - c, k - e) == 10.0 * (i + n[0] * (j + n[1] * k)) + 0.5 && s("B")(i - a, j - c, k - e) == -2.5; M->step(); }
    M->check(ok, "the part of the grid has the wrong values");
  }
}
int main(int argc, char** argv) {
  mc::MC m(argc, argv); M = &m;
  storage(); activity(); neighbours(); locate(); files(); texts(); faults(); subgrids();
  m.finish();
}
