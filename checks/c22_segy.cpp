// C22: SEG-Y: survey geometry from traces, and files by every way of writing and reading.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <nrlib/exception/exception.hpp>
#include <nrlib/segy/segy.hpp>
#include <nrlib/segy/segygeometry.hpp>
#include <nrlib/segy/segytrace.hpp>
#include <nrlib/segy/traceheader.hpp>
#include <nrlib/stormgrid/stormcontgrid.hpp>
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/surface/regularsurfacerotated.hpp>
#include <nrlib/volume/volume.hpp>
using namespace std;
using namespace NRLib;
static mc::MC* M;
template <class F> static bool raises(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

// ---- surveys ---------------------------------------------------------------------------------------
struct Survey {
  int na, nb, il0, xl0, ilstep, xlstep;   // inlines and crosslines
  double ox, oy, ux, uy, vx, vy;          // position of (il0,xl0), vectors per unit of inline and crossline
  string name;
  int il(int a) const { return il0 + a * ilstep; }
  int xl(int b) const { return xl0 + b * xlstep; }
  double x(double il, double xl) const { return ox + (il - il0) * ux + (xl - xl0) * vx; }
  double y(double il, double xl) const { return oy + (il - il0) * uy + (xl - xl0) * vy; }
};
static vector<Survey> surveys() {
  vector<Survey> r;
  const double dir[][2] = {{1, 0}, {0.8, 0.6}, {M_SQRT1_2, M_SQRT1_2}, {0.6, 0.8}};
  const int steps[][2] = {{1, 1}, {2, 1}, {1, 3}, {2, 2}};
  const double dist[][2] = {{25, 25}, {12.5, 50}, {25, 12.5}};
  const int top = M->thorough() ? 4 : 3;
  for (int na = 1; na <= top; na++) for (int nb = 1; nb <= top; nb++)
    for (int d = 0; d < 16; d++) for (int hand = 0; hand < 2; hand++) for (auto& st : steps) for (auto& ds : dist) for (int o = 0; o < 2; o++) {
      Survey s; s.na = na; s.nb = nb; s.ilstep = st[0]; s.xlstep = st[1]; s.il0 = o ? 1000 : 3; s.xl0 = o ? 2001 : 1; s.ox = o ? 400000 : 5000; s.oy = o ? 6700000 : 7000;
      double c = dir[d % 4][0], n = dir[d % 4][1]; for (int k = 0; k < d / 4; k++) { double t = c; c = -n; n = t; }
      s.ux = c * ds[0] / st[0]; s.uy = n * ds[0] / st[0]; double sg = hand ? -1 : 1; s.vx = -n * sg * ds[1] / st[1]; s.vy = c * sg * ds[1] / st[1];
      s.name = mc::fmt("%d inlines from %d step %d and %d crosslines from %d step %d at (%g,%g), inline vector (%g,%g), crossline vector (%g,%g)", na, s.il0, s.ilstep, nb, s.xl0, s.xlstep, s.ox, s.oy, s.ux, s.uy, s.vx, s.vy);
      r.push_back(s);
    }
  return r;
}
typedef vector<pair<int, int>> Cells;
static Cells order(const Survey& s, int o) {  // 8 orders
  Cells r;
  int n1 = o & 1 ? s.nb : s.na, n2 = o & 1 ? s.na : s.nb;
  for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) {
    int p = o & 2 ? n1 - 1 - i : i, q = o & 4 ? n2 - 1 - j : j;
    r.push_back(o & 1 ? make_pair(q, p) : make_pair(p, q));
  }
  return r;
}
// the geometry found is that of the survey
static void check_geometry(const SegyGeometry& g, const Survey& s, const char* who) {
  const size_t nx = g.GetNx(), ny = g.GetNy();
  M->check(nx * ny == size_t(s.na * s.nb), "%s: %zu x %zu cells for %d x %d traces", who, nx, ny, s.na, s.nb);
  if (s.na > 1 || s.nb > 1) {
  M->check(g.GetMinIL() == s.il(0) && g.GetMaxIL() == s.il(s.na - 1) && g.GetMinXL() == s.xl(0) && g.GetMaxXL() == s.xl(s.nb - 1), "%s: inlines %d-%d, crosslines %d-%d", who, g.GetMinIL(), g.GetMaxIL(), g.GetMinXL(), g.GetMaxXL());
  M->check((s.na < 2 || g.GetILStep() == s.ilstep) && (s.nb < 2 || g.GetXLStep() == s.xlstep), "%s: steps %d, %d", who, g.GetILStep(), g.GetXLStep());
  }
  M->near(g.GetCosRot(), cos(g.GetAngle()), 1e-9, "cos"); M->near(g.GetSinRot(), sin(g.GetAngle()), 1e-9, "sin");
  const double tol = 1e-6 * (1 + fabs(s.oy) * 1e-3);
  set<pair<size_t, size_t>> seen;
  for (int a = 0; a < s.na; a++) for (int b = 0; b < s.nb; b++) {
    int il = s.il(a), xl = s.xl(b); double x = s.x(il, xl), y = s.y(il, xl), gx, gy;
    g.FindXYFromILXL(il, xl, gx, gy);
    M->check(fabs(gx - x) < tol && fabs(gy - y) < tol, "%s: position of inline %d, crossline %d is (%.3f,%.3f), expected (%.3f,%.3f)", who, il, xl, gx, gy, x, y);
    size_t i = 99, j = 99, i2 = 99, j2 = 99; int gil, gxl;
    g.FindIndex(x, y, i, j);
    M->check(i < nx && j < ny, "%s: index (%zu,%zu) of (%g,%g) outside", who, i, j, x, y);
    M->check(seen.insert(make_pair(i, j)).second, "%s: two traces in cell (%zu,%zu)", who, i, j);
    M->check(g.FindIndex(x, y) == j * nx + i, "%s: FindIndex(x,y)", who);
    g.FindIndex(il, xl, i2, j2);
    M->check(i == i2 && j == j2, "%s: inline %d, crossline %d is in cell (%zu,%zu) by its number and in (%zu,%zu) by its position", who, il, xl, i2, j2, i, j);
    g.FindILXL(i, j, gil, gxl); M->check(gil == il && gxl == xl, "%s: cell (%zu,%zu) is said to be inline %d, crossline %d, but it is %d, %d", who, i, j, gil, gxl, il, xl);
    g.FindXYFromIJ(i, j, gx, gy); M->check(fabs(gx - x) < tol && fabs(gy - y) < tol, "%s: FindXYFromIJ", who);
    // the lattice given by corner, increments and angle
    double lx = (i + 0.5) * g.GetDx(), ly = (j + 0.5) * g.GetDy();
    double cx = g.GetX0() + lx * g.GetCosRot() - ly * g.GetSinRot(), cy = g.GetY0() + lx * g.GetSinRot() + ly * g.GetCosRot();
    M->check(fabs(cx - x) < tol && fabs(cy - y) < tol, "%s: centre of cell (%zu,%zu) is (%.3f,%.3f) by origin and angle, expected (%.3f,%.3f)", who, i, j, cx, cy, x, y);
    // around the trace; across a line the numbering is arbitrary, so there only positions along the line are asked for
    for (double p : {-0.45, 0.0, 0.3, 0.45}) for (double q : {-0.45, -0.2, 0.0, 0.45}) {
      if ((nx == 1 && fabs(p) > 1e-9) || (ny == 1 && fabs(q) > 1e-9)) continue;
      double ax = x + p * g.GetDx() * g.GetCosRot() - q * g.GetDy() * g.GetSinRot(), ay = y + p * g.GetDx() * g.GetSinRot() + q * g.GetDy() * g.GetCosRot(), xi, yi;
      M->check(g.FindContIndex(ax, ay, xi, yi) && g.IsInside(ax, ay), "%s: (%g,%g) near inline %d, crossline %d is not inside", who, ax, ay, il, xl);
      M->check(fabs(xi - (i + 0.5 + p)) < 1e-6 && fabs(yi - (j + 0.5 + q)) < 1e-6, "%s: continuous index (%g,%g), expected (%g,%g)", who, xi, yi, i + 0.5 + p, j + 0.5 + q);
      M->check(g.FindIndex(ax, ay) == j * nx + i, "%s: (%g,%g) is not in the cell of its trace", who, ax, ay);
      double fil, fxl; g.FindContILXL(ax, ay, fil, fxl);
      double bx, by; g.FindXYFromContILXL(fil, fxl, bx, by); M->check(fabs(bx - ax) < tol && fabs(by - ay) < tol, "%s: FindXYFromContILXL does not undo FindContILXL at (%g,%g)", who, ax, ay);
      if (s.na > 1 && s.nb > 1) M->check(fabs(s.x(fil, fxl) - ax) < tol && fabs(s.y(fil, fxl) - ay) < tol, "%s: FindContILXL(%g,%g) is (%g,%g)", who, ax, ay, fil, fxl);
    }
    if (s.na > 1 && s.nb > 1) { g.FindILXL(x, y, gil, gxl); M->check(gil == il && gxl == xl, "%s: FindILXL(%g,%g) is (%d,%d), expected (%d,%d)", who, x, y, gil, gxl, il, xl); }
  }
  // outside
  for (double p : {-0.05, 0.5, 1.05}) for (double q : {-0.05, 0.5, 1.05}) {
    if ((nx == 1 && p != 0.5) || (ny == 1 && q != 0.5)) continue;
    double lx = p * nx * g.GetDx(), ly = q * ny * g.GetDy(), x = g.GetX0() + lx * g.GetCosRot() - ly * g.GetSinRot(), y = g.GetY0() + lx * g.GetSinRot() + ly * g.GetCosRot();
    bool in = p > 0 && p < 1 && q > 0 && q < 1;
    M->check(g.IsInside(x, y) == in, "%s: IsInside at (%g,%g) of the area", who, p, q);
    M->check(raises([&] { g.FindIndex(x, y); }) == !in, "%s: FindIndex at (%g,%g) of the area", who, p, q);
  }
  for (int a : {-1, s.na}) { size_t i, j; M->check(raises([&] { g.FindIndex(s.il(a), s.xl(0), i, j); }), "%s: FindIndex(inline %d) does not raise", who, s.il(a)); }
  for (int b : {-1, s.nb}) { size_t i, j; M->check(raises([&] { g.FindIndex(s.il(0), s.xl(b), i, j); }), "%s: FindIndex(crossline %d) does not raise", who, s.xl(b)); }
}
static SegYTrace* mktrace(const Survey& s, int a, int b) {
  TraceHeader h; h.SetInline(s.il(a)); h.SetCrossline(s.xl(b)); h.SetUtmx(s.x(s.il(a), s.xl(b))); h.SetUtmy(s.y(s.il(a), s.xl(b)));
  return new SegYTrace(h);
}
static void geometry() {
  M->part = "geometry";
  for (const Survey& s : surveys()) for (int o = 0; o < 8; o++) for (int reg = 0; reg < 2; reg++) {
    if (!M->next()) continue;
    M->begin("%s, order %d, regularize %d", s.name.c_str(), o, reg); M->state();
    vector<SegYTrace*> tr; for (auto& c : order(s, o)) tr.push_back(mktrace(s, c.first, c.second));
    vector<SegYTrace*> all = tr;
    try {
      SegyGeometry g(tr, reg);
      check_geometry(g, s, "from traces");
      M->check(tr.size() == size_t(s.na * s.nb), "traces after");
      if (tr.size() > 1) for (size_t k = 0; k < tr.size(); k++) { M->check(tr[k] != NULL, "trace %zu lost", k); if (tr[k]) M->check(g.FindIndex(tr[k]->GetX(), tr[k]->GetY()) == k && tr[k]->GetTableIndex() == k, "trace in wrong place"); }
      SegyGeometry c(&g); check_geometry(c, s, "copied");
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
    for (auto t : all) delete t;
    M->step();
  }
}

// ---- other ways of making a geometry ---------------------------------------------------------------
static void others() {
  M->part = "constructed";
  for (const Survey& s : surveys()) {
    if (s.na < 2 || s.nb < 2) continue;
    if (!M->next()) continue;
    M->begin("%s", s.name.c_str()); M->state();
    vector<SegYTrace*> tr; for (auto& c : order(s, 0)) tr.push_back(mktrace(s, c.first, c.second));
    vector<SegYTrace*> all = tr;
    try {
      SegyGeometry g(tr, false);
      SegyGeometry d(g.GetX0(), g.GetY0(), g.GetDx(), g.GetDy(), g.GetNx(), g.GetNy(), g.GetInLine0(), g.GetCrossLine0(), g.GetILStepX(), g.GetILStepY(), g.GetXLStepX(), g.GetXLStepY(), g.GetAngle());
      check_geometry(d, s, "given by its parameters");
      // every part of the survey by inline and crossline
      for (int a0 = 0; a0 < s.na; a0++) for (int a1 = a0; a1 < s.na; a1++) for (int b0 = 0; b0 < s.nb; b0++) for (int b1 = b0; b1 < s.nb; b1++) for (int st = 1; st <= 2; st++) {
        if ((a1 - a0) % st || (b1 - b0) % st) continue;
        bool ip = true, al = true; vector<int> w = {s.il(a0), s.il(a1), s.xl(b0), s.xl(b1), st == 1 ? -1 : st * s.ilstep, st == 1 ? -1 : st * s.xlstep};
        unique_ptr<SegyGeometry> p(g.GetILXLSubGeometry(w, ip, al));
        M->check(!ip && !al, "part of the survey is said to be interpolated or aligned");
        Survey t = s; t.na = (a1 - a0) / st + 1; t.nb = (b1 - b0) / st + 1; t.il0 = s.il(a0); t.xl0 = s.xl(b0); t.ox = s.x(t.il0, t.xl0); t.oy = s.y(t.il0, t.xl0); t.ilstep *= st; t.xlstep *= st;
        check_geometry(*p, t, "part of a survey");
        vector<int> area = g.findAreaILXL(p.get());
        int e[4] = {max(s.il(0), s.il(a0) - s.ilstep * st), min(s.il(s.na - 1), s.il(a1) + s.ilstep * st), max(s.xl(0), s.xl(b0) - s.xlstep * st), min(s.xl(s.nb - 1), s.xl(b1) + s.xlstep * st)};
        M->check(area.size() == 6 && area[0] <= s.il(a0) && area[1] >= s.il(a1) && area[2] <= s.xl(b0) && area[3] >= s.xl(b1) && area[0] >= e[0] && area[1] <= e[1] && area[2] >= e[2] && area[3] <= e[3] && area[4] == s.ilstep && area[5] == s.xlstep,
                 "findAreaILXL of inlines %d-%d, crosslines %d-%d step %d is %d-%d, %d-%d", s.il(a0), s.il(a1), s.xl(b0), s.xl(b1), st, area[0], area[1], area[2], area[3]);
        M->check((area[0] - s.il(0)) % s.ilstep == 0 && (area[1] - s.il(0)) % s.ilstep == 0 && (area[2] - s.xl(0)) % s.xlstep == 0 && (area[3] - s.xl(0)) % s.xlstep == 0, "findAreaILXL gives lines that do not exist");
      }
      // a request between lines: the start moves to the nearest line, the end on to the next
      for (int a0 = 0; a0 + 1 < s.na; a0++) for (int b0 = 0; b0 + 1 < s.nb; b0++) for (int r0 = 0; r0 < s.ilstep; r0++) for (int q0 = 0; q0 < s.xlstep; q0++) for (int r1 = 0; r1 < s.ilstep; r1++) for (int q1 = 0; q1 < s.xlstep; q1++) {
        if (2 * r0 == s.ilstep || 2 * q0 == s.xlstep) continue;
        bool ip = true, al = true; vector<int> w = {s.il(a0) + r0, s.il(s.na - 1) - r1, s.xl(b0) + q0, s.xl(s.nb - 1) - q1, -1, -1}; M->step();
        int c0 = a0 + (2 * r0 > s.ilstep), d0 = b0 + (2 * q0 > s.xlstep);
        if (w[0] > w[1] || w[2] > w[3] || s.il(c0) > w[1] || s.xl(d0) > w[3]) continue;
        unique_ptr<SegyGeometry> p(g.GetILXLSubGeometry(w, ip, al));
        M->check(!ip && al == (r0 || q0 || r1 || q1), "part of the survey: interpolated %d, aligned %d", ip, al);
        Survey t = s; t.na = s.na - c0; t.nb = s.nb - d0; t.il0 = s.il(c0); t.xl0 = s.xl(d0); t.ox = s.x(t.il0, t.xl0); t.oy = s.y(t.il0, t.xl0);
        check_geometry(*p, t, "part of a survey, moved to its lines");
      }
      // the lines that cover another geometry, at any angle
      if (s.na > 1 && s.nb > 1) for (int an = -8; an <= 8; an++) for (double f : {0.15, 0.4, 1.1}) for (int c = 0; c < 4; c++) {
        double ra = an * M_PI / 8 + 0.02, L = f * s.ilstep * (s.na - 1) * hypot(s.ux, s.uy), W = 0.7 * f * s.xlstep * (s.nb - 1) * hypot(s.vx, s.vy), ci = s.il(0) + (c & 1 ? 0.3 : 0.6) * s.ilstep * (s.na - 1), cx = s.xl(0) + (c & 2 ? 0.2 : 0.7) * s.xlstep * (s.nb - 1);
        SegyGeometry o(s.x(ci, cx), s.y(ci, cx), L / 2, W / 3, 2, 3, ra); vector<int> area = g.findAreaILXL(&o); M->step();
        double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}, D = s.ux * s.vy - s.uy * s.vx;
        for (int k = 0; k < 4; k++) { double u = (k & 1) * L, v = (k >> 1) * W, dx = cos(ra) * u - sin(ra) * v, dy = sin(ra) * u + cos(ra) * v, q[2] = {ci + (dx * s.vy - dy * s.vx) / D, cx + (s.ux * dy - s.uy * dx) / D}; for (int m = 0; m < 2; m++) { lo[m] = min(lo[m], q[m]); hi[m] = max(hi[m], q[m]); } }
        for (int m = 0; m < 2; m++) { int mn = m ? s.xl(0) : s.il(0), mx = m ? s.xl(s.nb - 1) : s.il(s.na - 1), st = m ? s.xlstep : s.ilstep, A = area[2 * m], B = area[2 * m + 1];
          if (!M->check(A >= mn && B <= mx && (A - mn) % st == 0 && (B - mn) % st == 0 && A <= max(lo[m] + 1e-6, double(mn)) && B >= min(hi[m] - 1e-6, double(mx)) && A > lo[m] - st - 1e-6 - (A == mn ? 1e9 : 0) && B < hi[m] + st + 1e-6 + (B == mx ? 1e9 : 0), "findAreaILXL: %s %d-%d for a geometry that reaches from %g to %g", m ? "crosslines" : "inlines", A, B, lo[m], hi[m])) break; }
      }
      for (int k = 0; k < 4; k++) for (int side = 0; side < 2; side++) { bool ip, al; vector<int> w = {s.il(0), s.il(s.na - 1), s.xl(0), s.xl(s.nb - 1), -1, -1}; w[k] = k < 2 ? s.il(side ? s.na : -1) : s.xl(side ? s.nb : -1);
        M->check(raises([&] { delete g.GetILXLSubGeometry(w, ip, al); }), "a part outside the survey does not raise"); }
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
    for (auto t : all) delete t;
    M->step();
  }
  // grids without numbers: inline j, crossline i
  for (int nx = 1; nx <= 3; nx++) for (int ny = 1; ny <= 3; ny++) for (int r = -8; r <= 8; r++) for (int k = 0; k < 3; k++) {
    if (k == 1 && r) continue;
    if (!M->next()) continue;
    double rot = r * M_PI / 16 * 0.98, dx = 25, dy = 12.5, x0 = 5000, y0 = 7000;
    M->begin("%d x %d cells, angle %g, made %s", nx, ny, rot, k == 0 ? "from numbers" : k == 1 ? "from a surface" : "from a rotated surface"); M->state();
    try {
      unique_ptr<SegyGeometry> g;
      if (k == 0) g.reset(new SegyGeometry(x0, y0, dx, dy, nx, ny, rot));
      if (k == 1) g.reset(new SegyGeometry(RegularSurface<double>(x0, y0, nx * dx, ny * dy, nx + 1, ny + 1, 1.0)));
      if (k == 2) g.reset(new SegyGeometry(RegularSurfaceRotated<double>(x0, y0, nx * dx, ny * dy, nx + 1, ny + 1, rot, 1.0)));
      Survey s; s.na = ny; s.nb = nx; s.il0 = s.xl0 = 0; s.ilstep = s.xlstep = 1; double c = cos(rot), n = sin(rot);
      s.ox = x0 + dx / 2 * c - dy / 2 * n; s.oy = y0 + dx / 2 * n + dy / 2 * c; s.ux = -n * dy; s.uy = c * dy; s.vx = c * dx; s.vy = n * dx;
      check_geometry(*g, s, "made");
      M->check(g->GetNx() == size_t(nx) && g->GetNy() == size_t(ny), "sizes"); M->near(g->GetX0(), x0, 1e-9, "x0"); M->near(g->GetY0(), y0, 1e-9, "y0");
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
    M->step();
  }
}
// traces missing from a survey, or gone from the list: what remains is placed
static void missing() {
  M->part = "missing";
  for (int sz = 0; sz < 3; sz++) for (int d = 0; d < 4; d++) for (int st = 0; st < 2; st++) for (int o = 0; o < 8; o++) {
    Survey s; s.na = sz == 1 ? 2 : 3; s.nb = sz == 0 ? 2 : 3; s.il0 = 11; s.xl0 = 31; s.ilstep = st ? 2 : 1; s.xlstep = st ? 3 : 1; s.ox = 5000; s.oy = 7000;
    double c = d == 0 ? 1 : d == 1 ? 0.8 : d == 2 ? -0.6 : 0, n = d == 0 ? 0 : d == 1 ? 0.6 : d == 2 ? 0.8 : -1, sg = d % 2 ? -1 : 1;
    s.ux = c * 25 / s.ilstep; s.uy = n * 25 / s.ilstep; s.vx = -n * sg * 12.5 / s.xlstep; s.vy = c * sg * 12.5 / s.xlstep;
    Cells all = order(s, o);
    for (unsigned m = 1; m < (1u << all.size()); m++) for (int nul = 0; nul < 2; nul++) {
      set<int> as, bs; for (size_t k = 0; k < all.size(); k++) if (m >> k & 1) { as.insert(all[k].first); bs.insert(all[k].second); }
      if (int(as.size()) != s.na || int(bs.size()) != s.nb || !as.count(0)) continue;   // every line is there
      // three traces at least off one line: otherwise no geometry follows
      bool spans = false; vector<pair<int, int>> v; for (size_t k = 0; k < all.size(); k++) if (m >> k & 1) v.push_back(all[k]);
      for (size_t k = 2; k < v.size(); k++) if ((v[1].first - v[0].first) * (v[k].second - v[0].second) != (v[1].second - v[0].second) * (v[k].first - v[0].first)) spans = true;
      if (!spans) continue;
      // the step of each direction is seen from the first trace
      int da = 99, db = 99; for (auto& c : v) { if (c.first != v[0].first) da = min(da, abs(c.first - v[0].first)); if (c.second != v[0].second) db = min(db, abs(c.second - v[0].second)); }
      if (!M->next()) continue;
      string ms; for (size_t k = 0; k < all.size(); k++) if (m >> k & 1) ms += mc::fmt(" (%d,%d)", s.il(all[k].first), s.xl(all[k].second)); else if (nul) ms += " -";
      M->begin("traces%s of a survey at direction %d", ms.c_str(), d); M->state();
      vector<SegYTrace*> tr; for (size_t k = 0; k < all.size(); k++) if (m >> k & 1) tr.push_back(mktrace(s, all[k].first, all[k].second)); else if (nul) tr.push_back(NULL);
      vector<SegYTrace*> keep = tr;
      try {
        SegyGeometry g(tr, false);
        check_geometry(g, s, "from some traces");
        size_t here = 0; for (size_t k = 0; k < tr.size(); k++) if (tr[k]) { here++; M->check(g.FindIndex(tr[k]->GetX(), tr[k]->GetY()) == k && tr[k]->GetTableIndex() == k, "trace in wrong place"); }
        M->check(tr.size() == size_t(s.na * s.nb) && here == v.size(), "%zu of %zu traces placed", here, v.size());
      } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
      for (auto t : keep) delete t;
      M->step();
    }
  }
}
// ---- files -------------------------------------------------------------------------------------------
static void put16(vector<unsigned char>& b, size_t at, int v) { b[at] = (v >> 8) & 255; b[at + 1] = v & 255; }
static void put32(vector<unsigned char>& b, size_t at, int v) { for (int k = 0; k < 4; k++) b[at + k] = (unsigned(v) >> (24 - 8 * k)) & 255; }
static int get16(const vector<unsigned char>& b, size_t at) { return int16_t(b[at] << 8 | b[at + 1]); }
static int get32(const vector<unsigned char>& b, size_t at) { return int(unsigned(b[at]) << 24 | b[at + 1] << 16 | b[at + 2] << 8 | b[at + 3]); }
static float getf(const vector<unsigned char>& b, size_t at) { int i = get32(b, at); float f; memcpy(&f, &i, 4); return f; }
struct Fmt { const char* name; int x, y, il, xl, off, sc = 71, start = 109; };
static const Fmt FMT[] = {{"SeisWorks", 73, 77, 9, 21, 0}, {"IESX", 73, 77, 221, 21, 0}, {"SIP", 181, 185, 189, 193, 37}, {"Charisma", 73, 77, 5, 21, 0}, {"SIPX", 73, 77, 181, 185, 0}, {"HESS", 73, 77, 185, 189, 0},
  {"SeisWorks", 181, 185, 189, 193, 0, 215, 105}, {"unnamed", 73, 77, 197, 201, 0, 69, 209}, {"SIP", 73, 185, 5, 237, 37, 71, 109}, {"SIP", 181, 185, 189, 193, 37, -1, 109}, {"SeisWorks", 73, 77, 1, 5, 0, -1, 109}};
static const int NF = 11, NO = -99999;   // six standard formats, and others made in each way; -1: no scaling of coordinates
static TraceHeaderFormat mkfmt(int f) {
  const Fmt& q = FMT[f];
  if (f < 6) return TraceHeaderFormat(f);
  if (f == 6) return TraceHeaderFormat(0, 0, q.sc, q.x, q.y, q.il, q.xl, q.start, NO);
  if (f == 7) return TraceHeaderFormat(q.sc, q.x, q.y, q.il, q.xl, q.start, TraceHeaderFormat::UTM);
  if (f == 8) { TraceHeaderFormat t(2); t.SetUtmxLoc(q.x); t.SetInlineLoc(q.il); t.SetCrosslineLoc(q.xl); return t; }
  if (f == 9) return TraceHeaderFormat(2, 1, NO, NO, NO, NO, NO, NO, NO);
  return TraceHeaderFormat(0, 1, NO, NO, NO, q.il, q.xl, NO, TraceHeaderFormat::UTM);
}
static float sample(int il, int xl, int k) { return float((il % 100) * 100 + (xl % 100)) + k * 0.25f * (il % 2 ? 1 : -1); }
static vector<unsigned char> slurp(const string& f) { ifstream i(f, ios::binary); return vector<unsigned char>((istreambuf_iterator<char>(i)), istreambuf_iterator<char>()); }
static double unit(int sc) { return sc < 0 ? -1.0 / sc : sc > 0 ? sc : 1; }
// surveys for files: positions that the unit of the file can hold
static vector<Survey> file_surveys(double u) {
  vector<Survey> r;
  const int v[][8] = {{2, 3, 10, 20, 25, 0, 0, 50}, {3, 2, 10, 20, 0, 25, -25, 0}, {2, 2, 7, 1001, 20, 15, 30, -40}, {1, 3, 5, 9, 0, 0, 25, 0}, {3, 1, 5, 9, 0, -25, 0, 0}, {1, 1, 4, 3, 0, 0, 0, 0}, {3, 3, 100, 200, -30, 40, -40, -30}};
  for (auto& w : v) for (int st = 1; st <= 2; st++) {
    Survey s; s.na = w[0]; s.nb = w[1]; s.il0 = w[2]; s.xl0 = w[3]; s.ilstep = st; s.xlstep = 3 - st; double f = u > 1 ? 20 * u / 10 * 2 : 1;
    s.ux = w[4] * f / s.ilstep; s.uy = w[5] * f / s.ilstep; s.vx = w[6] * f / s.xlstep; s.vy = w[7] * f / s.xlstep;
    s.ox = u < 1 ? (u < 1e-3 ? 40000 : 400000) + 3 * u : 40000 * (u > 1 ? u : 1); s.oy = u < 1 ? (u < 1e-3 ? 60000 : 600000) + 7 * u : 60000 * (u > 1 ? u : 1);
    s.name = mc::fmt("%d x %d traces from inline %d step %d, crossline %d step %d, at (%.4f,%.4f)+(%g,%g)+(%g,%g)", s.na, s.nb, s.il0, s.ilstep, s.xl0, s.xlstep, s.ox, s.oy, s.ux, s.uy, s.vx, s.vy);
    r.push_back(s);
  }
  return r;
}
static vector<unsigned char> own_file(const Survey& s, const Cells& cells, int fmt, int sc, int code, int nz, int dt, int start) {
  int ds = code == 3 ? 2 : 4; vector<unsigned char> b(3600 + cells.size() * (240 + nz * ds), 0);
  fill(b.begin(), b.begin() + 3200, 0x40); put16(b, 3216, dt); put16(b, 3220, nz); put16(b, 3224, code);
  size_t at = 3600;
  for (auto& c : cells) {
    int il = s.il(c.first), xl = s.xl(c.second); double u = FMT[fmt].sc > 0 ? unit(sc) : 1;
    put16(b, at + 114, nz); put16(b, at + 116, dt); put16(b, at + (FMT[fmt].sc > 0 ? FMT[fmt].sc : 71) - 1, sc); put16(b, at + FMT[fmt].start - 1, start);
    put32(b, at + FMT[fmt].x - 1, int(lround(s.x(il, xl) / u))); put32(b, at + FMT[fmt].y - 1, int(lround(s.y(il, xl) / u)));
    put32(b, at + FMT[fmt].il - 1, il); put32(b, at + FMT[fmt].xl - 1, xl); at += 240;
    for (int k = 0; k < nz; k++, at += ds) {
      float f = code == 5 || code == 1 ? sample(il, xl, k) : floorf(sample(il, xl, k)); int i;
      if (code == 5) { memcpy(&i, &f, 4); put32(b, at, i); }
      else if (code == 2) put32(b, at, int(f)); else if (code == 3) put16(b, at, int(f));
      else { // IBM
        unsigned sign = f < 0 ? 0x80000000u : 0; double m = fabs(f); int e = 64; if (m == 0) { put32(b, at, 0); continue; } while (m >= 1) { m /= 16; e++; } while (m < 1.0 / 16) { m *= 16; e--; }
        put32(b, at, int(sign | unsigned(e) << 24 | unsigned(m * 16777216))); }
    }
  }
  return b;
}
static void spit(const string& f, const vector<unsigned char>& b, size_t n) { ofstream o(f, ios::binary); o.write((const char*)b.data(), n); }
static float want(int code, int il, int xl, int k) { float f = sample(il, xl, k); return code == 5 || code == 1 ? f : floorf(f); }
// every way of reading gives the survey; `loose`: the file is broken, so it may raise instead
static void check_read(const string& file, const Survey& s, const Cells& cells, int fmt, int sc, int code, int nz, double dz, double z0, bool loose) {
  TraceHeaderFormat thf = mkfmt(fmt); const double tol = 1e-6 * unit(sc) + 1e-6;
  auto pos_ok = [&](double x, double y, int il, int xl) { return fabs(x - s.x(il, xl)) < tol && fabs(y - s.y(il, xl)) < tol; };
  auto is_cell = [&](int il, int xl) { for (auto& c : cells) if (s.il(c.first) == il && s.xl(c.second) == xl) return true; return false; };
  auto guard = [&](const char* who, function<void()> f) { try { f(); } catch (std::exception& e) { if (!loose) M->fail(string(who) + " raised " + e.what()); } };
  guard("GetNextTrace", [&] {
    SegY g(file, z0, thf);
    if (!loose) { M->check(g.GetNz() == size_t(nz) && fabs(g.GetDz() - dz) < 1e-9 && g.GetNTraces() == cells.size(), "header: nz %zu, dz %g, %zu traces; expected %d, %g, %zu", g.GetNz(), g.GetDz(), g.GetNTraces(), nz, dz, cells.size()); }
    size_t n = 0; bool end = false;
    while (!end) {
      unique_ptr<SegYTrace> t(g.GetNextTrace()); if (!t) break;
      if (n >= cells.size()) { M->fail("more traces than were written"); break; }
      int il = s.il(cells[n].first), xl = s.xl(cells[n].second);
      M->check(t->GetInline() == il && t->GetCrossline() == xl && pos_ok(t->GetX(), t->GetY(), il, xl), "trace %zu is read as inline %d, crossline %d at (%.4f,%.4f), expected %d, %d at (%.4f,%.4f)", n, t->GetInline(), t->GetCrossline(), t->GetX(), t->GetY(), il, xl, s.x(il, xl), s.y(il, xl));
      M->check(t->GetStart() == 0 && t->GetEnd() == size_t(nz - 1), "range");
      for (int k = 0; k < nz; k++) M->check(t->GetValue(k) == want(code, il, xl, k), "trace %zu sample %d is %g, expected %g", n, k, t->GetValue(k), want(code, il, xl, k));
      n++;
    }
    M->check(loose || n == cells.size(), "%zu traces, expected %zu", n, cells.size());
  });
  bool area = cells.size() == size_t(s.na * s.nb) || (s.na > 1 && s.nb > 1);
  if (area) guard("ReadAllTraces", [&] {
    SegY g(file, z0, thf); g.ReadAllTraces(NULL, 0.0);
    if (loose && g.GetNTraces() != cells.size()) return;
    g.CreateRegularGrid(cells.size() % 2);
    if (!loose) check_geometry(*g.GetGeometry(), s, "file");
    size_t tot = g.GetAllValues().size(); if (!loose) M->check(tot == cells.size() * nz && g.FindNumberOfSamplesInLongestTrace() == size_t(nz), "%zu values, expected %zu", tot, cells.size() * nz);
    for (int a = 0; a < s.na; a++) for (int b = 0; b < s.nb; b++) {
      int il = s.il(a), xl = s.xl(b); bool here = is_cell(il, xl);
      M->check(loose || g.IsTraceDefined(il, xl) == here, "IsTraceDefined(%d,%d)", il, xl);
      if (!g.IsTraceDefined(il, xl)) continue;
      M->check(here, "a trace that is not in the file");
      for (int w = 0; w < 2; w++) { const TraceHeader& h = w ? g.GetTraceHeader(il, xl) : g.GetTraceHeader(s.x(il, xl), s.y(il, xl)); M->check(h.GetInline() == il && h.GetCrossline() == xl && pos_ok(h.GetUtmx(), h.GetUtmy(), il, xl), "header of (%d,%d) is that of (%d,%d)", il, xl, h.GetInline(), h.GetCrossline()); }
      vector<float> d; bool miss = true; double zd = 0; g.GetNearestTrace(d, miss, zd, s.x(il, xl), s.y(il, xl));
      M->check(!miss && d.size() == size_t(nz) && fabs(zd - (z0 + 0.5 * dz)) < 1e-6, "GetNearestTrace");
      for (int k = 0; k < nz && k < int(d.size()); k++) { float w = want(code, il, xl, k), v = g.GetValue(s.x(il, xl), s.y(il, xl), z0 + (k + 0.5) * dz);
        M->check(d[k] == w, "(%d,%d) sample %d is %g, expected %g", il, xl, k, d[k], w); M->check(fabs(v - w) < 1e-2 + 1e-3 * fabs(w), "GetValue at (%d,%d) sample %d is %g, expected %g", il, xl, k, v, w); }
    }
  });
  for (int keep = 0; keep < 2; keep++) if (area) guard("FindAndSetGridGeometry", [&] {
    SegY g(file, z0, thf); g.FindAndSetGridGeometry(false, keep, keep);
    if (!loose) check_geometry(*g.GetGeometry(), s, "file, headers only");
    for (int a = 0; a < s.na; a++) for (int b = 0; b < s.nb; b++) {
      int il = s.il(a), xl = s.xl(b); bool here = is_cell(il, xl), def = g.IsTraceDefined(il, xl);
      M->check(loose || def == here, "IsTraceDefined(%d,%d) by headers", il, xl);
      if (!def) { if (!loose) M->check(g.GetFilePos(il, xl) == streampos(0), "position of a trace that is not there"); continue; }
      for (int w = 0; w < 3; w++) guard("GetTraceData", [&] {
        vector<float> d; if (w == 0) g.GetTraceData(il, xl, d); else if (w == 1) g.GetTraceData(s.x(il, xl), s.y(il, xl), d); else g.GetTraceData(keep ? g.GetFilePos(il, xl) : g.GetFilePos(s.x(il, xl), s.y(il, xl)), d);
        M->check(d.size() == size_t(nz), "size"); for (int k = 0; k < nz && k < int(d.size()); k++) M->check(d[k] == want(code, il, xl, k), "GetTraceData(%d,%d) sample %d is %g, expected %g", il, xl, k, d[k], want(code, il, xl, k)); });
      if (keep) guard("GetTraceHeader", [&] { const TraceHeader& h = g.GetTraceHeader(il, xl); M->check(h.GetInline() == il && h.GetCrossline() == xl && pos_ok(h.GetUtmx(), h.GetUtmy(), il, xl), "header"); });
      else M->check(raises([&] { g.GetTraceHeader(il, xl); }), "a header that was not kept is given");
    }
  });
  if (!loose) {
    guard("FindNumberOfTraces", [&] { M->check(SegY::FindNumberOfTraces(file, &thf) == cells.size(), "FindNumberOfTraces"); });
    if (area && code == 5 && unit(sc) <= 1) guard("with its own header format as the candidate", [&] { vector<TraceHeaderFormat*> v(1, &thf); SegY g(file, z0, v, false); M->check(g.GetTraceHeaderFormat().GetFormatName() == FMT[fmt].name, "format");
      if (fabs(hypot(s.ux * s.ilstep, s.uy * s.ilstep)) > 0) { unique_ptr<SegYTrace> t(g.GetNextTrace()); M->check(t && t->GetInline() == s.il(cells[0].first), "first trace"); } });
  }
}
static const int SC[] = {1, -10, -100, 10, 0, -1000, -10000, 100, 1000, 10000};
static void reading() {
  M->part = "reading";
  for (int fmt = 0; fmt < NF; fmt++) for (int sc : SC) for (int code : {5, 1, 2, 3}) for (int nz : {1, 2, 5}) for (int dt : {1000, 4000, 500, 2500})
    for (const Survey& s : file_surveys(FMT[fmt].sc > 0 ? unit(sc) : 1)) for (int o = 0; o < 8; o += M->thorough() ? 1 : 3) {
      if (!M->thorough() && (fmt + o / 3 + nz + dt / 500 + s.ilstep + (sc < 0)) % 2) continue;
      if ((fmt > 5 || abs(sc) > 100) && ((fmt * 5 + abs(sc) / 100 + o + nz + dt / 500 + s.ilstep + code) % (M->thorough() ? 3 : 7))) continue;
      if (!M->next()) continue;
      M->begin("%s file, unit %d, data format %d, %d samples each %d us, order %d: %s", FMT[fmt].name, sc, code, nz, dt, o, s.name.c_str()); M->state();
      Cells c = order(s, o); string f = M->scratch + "/in.sgy"; auto b = own_file(s, c, fmt, sc, code, nz, dt, 100); spit(f, b, b.size());
      check_read(f, s, c, fmt, sc, code, nz, dt / 1000.0, 100, false);
      M->step();
    }
  // some traces missing
  Survey s = file_surveys(1)[12];
  for (unsigned m = 1; m < 512; m++) for (int o = 0; o < 2; o++) {
    Cells all = order(s, o), c; set<int> as, bs; for (int k = 0; k < 9; k++) if (m >> k & 1) { c.push_back(all[k]); as.insert(all[k].first); bs.insert(all[k].second); }
    bool spans = false; for (size_t k = 2; k < c.size(); k++) if ((c[1].first - c[0].first) * (c[k].second - c[0].second) != (c[1].second - c[0].second) * (c[k].first - c[0].first)) spans = true;
    if (as.size() != 3 || bs.size() != 3 || !spans) continue;
    if (!M->next()) continue;
    string ms; for (auto& k : c) ms += mc::fmt(" (%d,%d)", s.il(k.first), s.xl(k.second));
    M->begin("file with the traces%s", ms.c_str()); M->state();
    string f = M->scratch + "/in.sgy"; auto b = own_file(s, c, 0, 1, 5, 2, 4000, 0); spit(f, b, b.size());
    check_read(f, s, c, 0, 1, 5, 2, 4, 0, false);
    M->step();
  }
}
// the headers of the file repeated before one of its traces
static void repeated() {
  M->part = "repeated";
  for (int k = 0; k < 4; k++) for (int nz : {1, 3, 900}) for (int code : {5, 1, 2, 3}) for (int where = 0; where < 6; where++) {
    Survey s = file_surveys(1)[k]; Cells c = order(s, 0); if (where >= int(c.size())) continue;
    if (!M->next()) continue;
    M->begin("%d samples of format %d, header repeated before trace %d of %s", nz, code, where, s.name.c_str()); M->state();
    auto b = own_file(s, c, 0, 1, code, nz, 4000, 0); b[0] = b[80] = b[160] = 0xc3; b[2] = 0xf1;
    vector<unsigned char> h(b.begin(), b.begin() + 3600); b.insert(b.begin() + 3600 + where * (240 + nz * (code == 3 ? 2 : 4)), h.begin(), h.end());
    string f = M->scratch + "/rep.sgy"; spit(f, b, b.size());
    try {
      SegY g(f, 0, TraceHeaderFormat(0)); size_t n = 0;
      for (; n <= c.size(); n++) { unique_ptr<SegYTrace> t(g.GetNextTrace()); if (!t) break; if (n >= c.size()) { M->fail("too many traces"); break; } int il = s.il(c[n].first), xl = s.xl(c[n].second);
        M->check(t->GetInline() == il && t->GetCrossline() == xl, "trace %zu is read as (%d,%d)", n, t->GetInline(), t->GetCrossline()); for (int j = 0; j < nz; j++) M->check(t->GetValue(j) == want(code, il, xl, j), "trace %zu sample %d", n, j); }
      M->check(n == c.size(), "%zu traces, expected %zu", n, c.size());
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
    M->step();
  }
}
static void truncated() {
  M->part = "truncated";
  for (int code : {5, 3}) for (int k = 0; k < 2; k++) {
    Survey s = file_surveys(1)[k ? 4 : 0]; Cells c = order(s, 0); auto b = own_file(s, c, 0, 1, code, 2, 4000, 0);
    for (size_t n = 0; n < b.size(); n += n < 3590 ? 97 : 1) {
      if (!M->next()) continue;
      M->begin("data format %d, file of %zu bytes cut after %zu", code, b.size(), n); M->state();
      string f = M->scratch + "/cut.sgy"; spit(f, b, n);
      check_read(f, s, c, 0, 1, code, 2, 4, 0, true);
      M->step();
    }
  }
}
// writing, by each way, and what the bytes say
static void writing() {
  M->part = "writing";
  static const char* WAY[] = {"WriteTrace with numbers", "WriteTrace by position", "WriteTrace with a header", "StoreTrace and WriteAllTracesToFile", "StoreTrace without some traces", "Initialize and WriteTrace", "WriteTrace in a volume"};
  for (int way = 0; way < 7; way++) for (int fmt = 0; fmt < NF; fmt++) for (int sc : SC) for (int nz : {1, 2, 5}) for (double dz : {1.0, 4.0, 0.5, 2.5, 1.001}) for (const Survey& s : file_surveys(FMT[fmt].sc > 0 ? unit(sc) : 1)) for (int o = 0; o < 8; o += M->thorough() ? 1 : 5) {
    if (sc == 0 || (FMT[fmt].sc < 0 && sc != 1)) continue;
    if ((fmt > 5 || abs(sc) > 100) && ((way * 3 + fmt * 5 + abs(sc) / 100 + o + nz + int(dz * 4) + s.ilstep) % (M->thorough() ? 3 : 7))) continue;
    if ((way == 1 || way >= 3) && way != 5 && (s.na < 2 || s.nb < 2)) continue;
    if (way == 6 && nz < 5) continue;
    if (!M->thorough() && (way + fmt + nz + int(dz * 2) + s.ilstep + o / 5) % 2) continue;
    if (!M->next()) continue;
    M->begin("%s, %s file, unit %d, %d samples each %g ms, order %d: %s", WAY[way], FMT[fmt].name, sc, nz, dz, o, s.name.c_str()); M->state();
    string f = M->scratch + "/out.sgy"; Cells c = order(s, o), wrote;
    const double z0 = 100; TraceHeaderFormat thf = mkfmt(fmt);
    try {
      {
        TextualHeader th; th.SetLine(2, "a line of text");
        unique_ptr<SegY> g; if (way == 5) { g.reset(new SegY); g->Initialize(f, z0, nz, dz, th, thf, 1); } else g.reset(new SegY(f, z0, nz, dz, th, thf));
        vector<SegYTrace*> tr; for (auto& k : order(s, 0)) tr.push_back(mktrace(s, k.first, k.second)); vector<SegYTrace*> keep = tr;
        if (way == 1 || way == 3 || way == 4 || way == 6) { SegyGeometry geo(tr, false); g->SetGeometry(&geo); }
        for (auto t : keep) delete t;
        Surface<double>* top = new ConstantSurface<double>(z0 + 2.25 * dz); Volume vol; vol.SetDimensions(s.ox, s.oy, 10, 10); vol.SetSurfaces(*top, ConstantSurface<double>(z0 + 4 * dz)); delete top;
        for (size_t q = 0; q < c.size(); q++) {
          auto& k = c[q]; int il = s.il(k.first), xl = s.xl(k.second); double x = s.x(il, xl), y = s.y(il, xl); vector<float> d; for (int j = 0; j < nz; j++) d.push_back(sample(il, xl, j));
          if (way == 4 && q % 2) continue;
          wrote.push_back(k);
          if (way == 0 || way == 5) g->WriteTrace(x, y, il, xl, d, sc, 7);
          else if (way == 1) g->WriteTrace(x, y, d, NULL, 0, 0, sc, 7);
          else if (way == 6) g->WriteTrace(x, y, vector<float>(d.begin() + 2, d.begin() + 4), &vol, -5.5f, 6.5f, sc, 7);
          else if (way == 2) { TraceHeader h(thf); h.SetScalCo(sc); h.SetUtmx(x); h.SetUtmy(y); h.SetInline(il); h.SetCrossline(xl); h.SetDt(int(floor(dz * 1000 + 0.5))); h.SetStartTime(float(z0)); h.SetOffset(7); g->WriteTrace(h, d, NULL); }
          else g->StoreTrace(x, y, d, NULL);
        }
        if (way == 3 || way == 4) { g->WriteAllTracesToFile(sc); sort(wrote.begin(), wrote.end());
          for (int a = 0; a < s.na; a++) for (int b = 0; b < s.nb; b++) M->check(g->IsTraceDefined(s.il(a), s.xl(b)) == bool(count(wrote.begin(), wrote.end(), make_pair(a, b))), "after writing, trace (%d,%d) is no longer where it was", s.il(a), s.xl(b)); }
      }
      auto b = slurp(f);
      M->check(b.size() == 3600 + wrote.size() * (240 + 4 * nz), "file of %zu bytes, expected %zu", b.size(), 3600 + wrote.size() * (240 + 4 * nz));
      if (b.size() >= 3600) {
        int dt = int(floor(dz * 1000 + 0.5));
        M->check(get16(b, 3216) == dt && get16(b, 3220) == nz && get16(b, 3224) == 5 && get16(b, 3212) == 1, "binary header: interval %d, samples %d, format %d, ensemble %d", get16(b, 3216), get16(b, 3220), get16(b, 3224), get16(b, 3212));
        M->check(b[0] == 0xc3 && b[165] == 0x81 && b[166] == 0x40 && b[167] == 0x93 && b[168] == 0x89, "textual header");
        size_t at = 3600;
        for (auto& k : wrote) {
          if (at + 240 + 4 * nz > b.size()) break;
          int il = s.il(k.first), xl = s.xl(k.second); double u = unit(sc), x = get32(b, at + FMT[fmt].x - 1) * u, y = get32(b, at + FMT[fmt].y - 1) * u;
          M->check(get32(b, at + FMT[fmt].il - 1) == il && get32(b, at + FMT[fmt].xl - 1) == xl, "trace (%d,%d) is written as (%d,%d)", il, xl, get32(b, at + FMT[fmt].il - 1), get32(b, at + FMT[fmt].xl - 1));
          M->check((FMT[fmt].sc < 0 || get16(b, at + FMT[fmt].sc - 1) == sc) && fabs(x - s.x(il, xl)) < 1e-3 * u + 1e-6 && fabs(y - s.y(il, xl)) < 1e-3 * u + 1e-6, "trace (%d,%d) is written at (%.4f,%.4f), expected (%.4f,%.4f)", il, xl, x, y, s.x(il, xl), s.y(il, xl));
          M->check(get16(b, at + 114) == nz && get16(b, at + 116) == dt && get16(b, at + FMT[fmt].start - 1) == 100, "samples %d, interval %d, start %d in the trace header", get16(b, at + 114), get16(b, at + 116), get16(b, at + FMT[fmt].start - 1));
          if (FMT[fmt].off) M->check(get32(b, at + FMT[fmt].off - 1) == (way == 3 || way == 4 ? 0 : 7), "offset %d", get32(b, at + FMT[fmt].off - 1));
          for (int j = 0; j < nz; j++) { float w = way == 6 && j < 2 ? -5.5f : way == 6 && j >= 4 ? 6.5f : sample(il, xl, j), v = getf(b, at + 240 + 4 * j); M->check(v == w, "trace (%d,%d) sample %d is %g, expected %g", il, xl, j, v, w); }
          at += 240 + 4 * nz;
        }
      }
      if (way != 6 && way != 4) check_read(f, s, wrote, fmt, sc, 5, nz, dz, z0, false);
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
    M->step();
  }
}

// ---- header formats and headers ----------------------------------------------------------------------
static void headers() {
  M->part = "headers";
  for (int f = 0; f < NF; f++) for (int g = 0; g < NF; g++) {
    if (!M->next()) continue;
    M->begin("formats %d and %d", f, g); M->state();
    TraceHeaderFormat a = mkfmt(f), b = mkfmt(g), c(a); const Fmt &p = FMT[f], &q = FMT[g];
    M->check(c.GetFormatName() == p.name && c.GetUtmxLoc() == p.x && c.GetUtmyLoc() == p.y && c.GetInlineLoc() == p.il && c.GetCrosslineLoc() == p.xl && c.GetScalCoLoc() == p.sc && c.GetStartTimeLoc() == p.start && c.GetBypassCoordScaling() == (p.sc < 0) && c.GetCoordSys() == TraceHeaderFormat::UTM, "format");
    int w = p.x != q.x || p.y != q.y || p.il != q.il || p.xl != q.xl || p.start != q.start ? 2 : p.sc == q.sc ? 0 : p.sc < 0 || q.sc < 0 ? 1 : 2;
    M->check(a.IsDifferent(b) == w, "IsDifferent is %d, expected %d", a.IsDifferent(b), w);
    c = b; M->check(c.IsDifferent(b) == 0 && a.IsDifferent(mkfmt(f)) == 0, "assigned");
    M->step();
  }
  // two fields at the same bytes
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int at : {5, 73, 189}) {
    if (!M->next()) continue;
    int loc[5] = {71, 101, 105, 113, 121}; loc[i] = at; loc[j] = at;
    M->begin("scaling, x, y, inline, crossline at %d %d %d %d %d", loc[0], loc[1], loc[2], loc[3], loc[4]); M->state();
    M->check(raises([&] { TraceHeaderFormat t(0, 0, loc[0], loc[1], loc[2], loc[3], loc[4], NO, NO); }) == (i != j), "two fields at the same place");
    M->step();
  }
  vector<TraceHeaderFormat*> l = TraceHeaderFormat::GetListOfStandardHeaders();
  for (size_t k = 0; k < l.size(); k++) { if (M->next()) { M->begin("standard format %zu of the list", k); M->state(); M->check(l.size() == 12 && l[k]->GetFormatName() == FMT[k / 2].name && l[k]->GetInlineLoc() == FMT[k / 2].il && l[k]->GetBypassCoordScaling() == bool(k % 2), "standard formats"); M->step(); } delete l[k]; }
  for (int bad : {-1, 6, 100}) { if (!M->next()) continue; M->begin("format %d", bad); M->state(); M->check(raises([&] { TraceHeaderFormat t(bad); }), "an unknown format does not raise"); M->step(); }
  // one header used for several traces: each is as if it were the first
  const int sc[] = {1, 0, -10, 10, -100, 100, -1000, 1000, -10000, 10000};
  for (int f = 0; f < NF; f++) for (int s1 : sc) for (int s2 : sc) for (int way = 0; way < 2; way++) {
    if (!M->next()) continue;
    M->begin("%s: format %d, units %d and then %d", way ? "header read" : "header set", f, s1, s2); M->state();
    try {
      string file = M->scratch + "/head.bin"; TraceHeader h(mkfmt(f)); const Fmt& q = FMT[f]; int k = 0;
      if (way == 0) { BigFile o; o.OpenWrite(file);
        for (int s : {s1, s2}) { double u = q.sc > 0 ? unit(s) : 1; if (q.sc > 0) h.SetScalCo(short(s)); h.SetUtmx((4000 + k) * u); h.SetUtmy((5000 + k) * u); h.SetInline(7 + k); h.SetCrossline(9 + k); h.SetStartTime(30.f + k); h.SetNSamples(3 + k); h.SetDt(4000 + k);
          M->check(fabs(h.GetUtmx() - (4000 + k) * u) < 1e-6 * u && fabs(h.GetUtmy() - (5000 + k) * u) < 1e-6 * u && h.GetInline() == 7 + k && h.GetCrossline() == 9 + k && h.GetStartTime() == 30 + k, "header %d: (%g,%g)", k, h.GetUtmx(), h.GetUtmy());
          h.Write(o); k++; }
        o.close(); auto b = slurp(file); M->check(b.size() == 480, "%zu bytes", b.size());
        if (b.size() == 480) for (k = 0; k < 2; k++) { size_t at = 240 * k; int s = k ? s2 : s1;
          M->check(get32(b, at + q.x - 1) == 4000 + k && get32(b, at + q.y - 1) == 5000 + k && get32(b, at + q.il - 1) == 7 + k && get32(b, at + q.xl - 1) == 9 + k && get16(b, at + q.start - 1) == 30 + k && get16(b, at + 114) == 3 + k && get16(b, at + 116) == 4000 + k && (q.sc < 0 || get16(b, at + q.sc - 1) == s), "header %d in the file: (%d,%d) unit %d", k, get32(b, at + q.x - 1), get32(b, at + q.y - 1), q.sc < 0 ? 1 : get16(b, at + q.sc - 1)); }
      } else {
        vector<unsigned char> b(480, 0);
        for (int s : {s1, s2}) { size_t at = 240 * k; put16(b, at + (q.sc > 0 ? q.sc : 71) - 1, s); put32(b, at + q.x - 1, 4000 + k); put32(b, at + q.y - 1, 5000 + k); put32(b, at + q.il - 1, 7 + k); put32(b, at + q.xl - 1, 9 + k); put16(b, at + q.start - 1, 30 + k); put16(b, at + 116, 4000); k++; }
        spit(file, b, 480); BigFile in; in.OpenRead(file); k = 0;
        for (int s : {s1, s2}) { double u = q.sc > 0 ? unit(s) : 1; h.Read(in); TraceHeader c(h);
          M->check(c.GetStatus() == 0 && fabs(c.GetUtmx() - (4000 + k) * u) < 1e-6 * u && fabs(c.GetUtmy() - (5000 + k) * u) < 1e-6 * u && c.GetInline() == 7 + k && c.GetCrossline() == 9 + k && c.GetStartTime() == 30 + k && c.GetCoord1() == c.GetUtmx() && c.GetCoord2() == c.GetUtmy(), "header %d read: (%g,%g), expected (%g,%g)", k, c.GetUtmx(), c.GetUtmy(), (4000 + k) * u, (5000 + k) * u); k++; }
        M->check(raises([&] { h.Read(in); }), "a third header");
      }
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
    M->step();
  }
}
// ---- traces cut to a volume, and values between traces -------------------------------------------------
struct Plane : public Surface<double> {   // a + b x + c y, missing where x is beyond
  double a, b, c, beyond;
  Plane(double a, double b, double c, double beyond) : a(a), b(b), c(c), beyond(beyond) {}
  Surface<double>* Clone() const { return new Plane(*this); }
  double GetZ(double x, double y) const { return x > beyond ? -999.0 : a + b * x + c * y; }
  bool EnclosesRectangle(double, double, double, double) const { return true; }
  void Add(double d) { a += d; } void Multiply(double d) { a *= d; b *= d; c *= d; }
  bool IsMissing(double z) const { return z == -999.0; } bool IsInsideSurface(double, double) const { return true; }
  double Min() const { return a; } double Max() const { return a; }
  double GetXMin() const { return -1e9; } double GetYMin() const { return -1e9; } double GetXMax() const { return 1e9; } double GetYMax() const { return 1e9; }
};
static void volumes() {
  M->part = "volume";
  const int nz = 6; const double z0 = 100, dz = 4;
  for (int sv : {0, 4, 12}) for (double top : {96.0, 100.0, 101.0, 104.0, 107.9, 110.0}) for (double len : {1.0, 4.0, 6.0, 13.5, 17.0, 30.0}) for (double slope : {0.0, 0.05}) for (int miss = 0; miss < 2; miss++) for (double pad : {0.0, 4.0, 10.0, 0.5}) for (int only = 0; only < 2; only++) for (int rel = 0; rel < 2; rel++) for (int code : {5, 3}) {
    if (!M->thorough() && (sv + int(top) + int(len) + only + rel + code / 2) % 2) continue;
    if (!M->next()) continue;
    Survey s = file_surveys(1)[sv]; Cells c = order(s, 0);
    M->begin("top %g, thickness %g, slope %g%s, padding %g%s%s, data format %d: %s", top, len, slope, miss ? ", missing beyond the first traces" : "", pad, rel ? " relative" : "", only ? ", only in the volume" : "", code, s.name.c_str()); M->state();
    string f = M->scratch + "/vol.sgy"; auto b = own_file(s, c, 0, 1, code, nz, 4000, 100); spit(f, b, b.size());
    double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& k : c) { double x = s.x(s.il(k.first), s.xl(k.second)), y = s.y(s.il(k.first), s.xl(k.second)); x0 = min(x0, x); x1 = max(x1, x); y0 = min(y0, y); y1 = max(y1, y); }
    Plane tp(top - slope * x0, slope, 0, miss ? x0 + 30 : 1e9), bt(top + len - slope * x0, slope, 0, 1e9);
    Volume v; v.SetDimensions(x0 - 5, y0 - 5, x1 - x0 + 10, (y1 - y0) / 2 + 10); v.SetSurfaces(tp, bt);
    // what each trace gives: 0 nothing, 1 samples from..to, 2 outside the data
    struct W { int kind; size_t from, to; }; vector<W> w; bool bad = false, any = false;
    for (auto& k : c) {
      double x = s.x(s.il(k.first), s.xl(k.second)), y = s.y(s.il(k.first), s.xl(k.second)), zt = tp.GetZ(x, y), zb = bt.GetZ(x, y); W q = {1, 0, 0};
      if ((only && y > y0 - 5 + (y1 - y0) / 2 + 10) || tp.IsMissing(zt)) q.kind = 0;
      else if (zt < z0 || zb > z0 + nz * dz) { q.kind = 2; bad = true; }
      else { double p = 0.5 * pad * (rel ? zb - zt : 1); q.from = size_t(max(0.0, floor((zt - p - z0) / dz + 1e-9))); q.to = size_t(min(double(nz - 1), floor((zb + p - z0) / dz + 1e-9))); any = true;
        double d1 = (zt - p - z0) / dz, d2 = (zb + p - z0) / dz; if (fabs(d1 - round(d1)) < 1e-6 && slope > 0) q.kind = 3; if (fabs(d2 - round(d2)) < 1e-6 && slope > 0) q.kind = 3; }
      w.push_back(q);
    }
    auto check_trace = [&](const SegYTrace* t, size_t n, const char* who) {
      int il = s.il(c[n].first), xl = s.xl(c[n].second);
      if (w[n].kind == 3) return;
      M->check(t->GetInline() == il && t->GetCrossline() == xl, "%s: trace %zu is (%d,%d)", who, n, t->GetInline(), t->GetCrossline());
      M->check(t->GetStart() == w[n].from && t->GetEnd() == w[n].to && t->GetTrace().size() == w[n].to - w[n].from + 1, "%s: trace %zu has samples %zu-%zu, expected %zu-%zu", who, n, t->GetStart(), t->GetEnd(), w[n].from, w[n].to);
      for (size_t k = 0; k < size_t(nz) + 1; k++) { float e = k < w[n].from || k > w[n].to ? -99999.f : want(code, il, xl, int(k)); M->check(t->GetValue(k) == e, "%s: trace %zu sample %zu is %g, expected %g", who, n, k, t->GetValue(k), e);
        M->check(t->GetLegalIndex(k) == min(max(k, w[n].from), w[n].to), "%s: GetLegalIndex", who); }
      SegYTrace copy(*t); M->check(copy.GetStart() == t->GetStart() && copy.GetEnd() == t->GetEnd() && copy.GetTrace() == t->GetTrace() && copy.GetX() == t->GetX() && copy.GetInline() == il && copy.GetTraceHeader().GetCrossline() == xl, "copy of a trace");
    };
    if (rel) try {   // its padding is relative
      SegY g(f, z0, mkfmt(0));
      for (size_t n = 0; n < c.size(); n++) {
        unique_ptr<SegYTrace> t; bool thrown = raises([&] { t.reset(g.GetNextTrace(pad, &v, only)); });
        M->check(thrown == (w[n].kind == 2), "trace %zu %s", n, thrown ? "raises" : "does not raise"); if (thrown) break;
        M->check((t.get() != NULL) == (w[n].kind != 0), "trace %zu is %s", n, t ? "read" : "left out"); if (t) check_trace(t.get(), n, "GetNextTrace");
      }
    } catch (std::exception& e) { M->fail(mc::fmt("GetNextTrace raised %s", e.what())); }
    try {
      SegY g(f, z0, mkfmt(0)); bool thrown = raises([&] { g.ReadAllTraces(&v, pad, only, rel); });
      M->check(thrown == (bad || !any), "ReadAllTraces %s", thrown ? "raises" : "does not raise");
      if (!thrown) for (size_t n = 0; n < c.size(); n++) { const SegYTrace* t = g.getTrace(int(n)); M->check((t != NULL) == (w[n].kind != 0), "ReadAllTraces: trace %zu", n); if (t) check_trace(t, n, "ReadAllTraces"); }
    } catch (std::exception& e) { M->fail(mc::fmt("ReadAllTraces raised %s", e.what())); }
    if (!miss && pad == 0 && !bad && !only) try {
      SegY g(f, z0, mkfmt(0)); g.FindAndSetGridGeometry(false, true, false);
      for (size_t n = 0; n < c.size(); n++) { int il = s.il(c[n].first), xl = s.xl(c[n].second); vector<float> d; g.GetTraceData(il, xl, d, &v);
        if (w[n].kind == 3) continue;
        M->check(d.size() == size_t(nz), "size"); for (size_t k = w[n].from; k <= w[n].to && k < d.size(); k++) M->check(d[k] == want(code, il, xl, int(k)), "GetTraceData in the volume, trace %zu sample %zu is %g", n, k, d[k]); }
    } catch (std::exception& e) { M->fail(mc::fmt("GetTraceData raised %s", e.what())); }
    M->step();
  }
}
// values at any position: a function that is linear in x, y and z is reproduced, and what is outside is missing or zero
static void values() {
  M->part = "values";
  for (const Survey& s : file_surveys(1)) for (int nz : {1, 2, 4}) for (int fn = 0; fn < 8; fn++) for (int how = 0; how < 2; how++) {
    if (s.na < 2 || s.nb < 2) continue;
    if (!M->next()) continue;
    double a = fn & 1 ? 3 : 0, bb = fn & 2 ? -5 : 0, cc = fn & 4 && nz > 1 ? 2 : 0; const double z0 = 100, dz = 4;
    M->begin("%s, %d samples, values %g i + %g j + %g k, %s", s.name.c_str(), nz, a, bb, cc, how ? "stored" : "read"); M->state();
    auto val = [&](double ia, double jb, double k) { return 10 + a * ia + bb * jb + cc * k; };
    string f = M->scratch + "/val.sgy"; Cells c = order(s, 0);
    try {
      { SegY o(f, z0, nz, dz, TextualHeader(), mkfmt(0)); for (auto& k : c) { vector<float> d; for (int j = 0; j < nz; j++) d.push_back(float(val(k.first, k.second, j))); int il = s.il(k.first), xl = s.xl(k.second); o.WriteTrace(s.x(il, xl), s.y(il, xl), il, xl, d, 1); } }
      SegY g(f, z0, mkfmt(0)); unique_ptr<SegY> st; SegY* h = &g; g.ReadAllTraces(NULL, 0); g.CreateRegularGrid(false);
      if (how) { st.reset(new SegY(M->scratch + "/val2.sgy", z0, nz, dz, TextualHeader(), mkfmt(0))); st->SetGeometry(g.GetGeometry()); h = st.get();
        for (int twice = 0; twice < 2; twice++) for (auto& k : c) { vector<float> d; for (int j = 0; j < nz; j++) d.push_back(float(val(k.first, k.second, j) - 1 + twice)); int il = s.il(k.first), xl = s.xl(k.second); st->StoreTrace(s.x(il, xl), s.y(il, xl), d, NULL); } }
      for (int p = -2; p <= 2 * s.na; p++) for (int q = -2; q <= 2 * s.nb; q++) for (int r = -1; r <= 4 * nz + 1; r++) {
        double ia = -0.45 + 0.45 * p, jb = -0.45 + 0.45 * q, z = z0 + (0.05 + 0.25 * r) * dz; if (r == 4 * nz) z = z0 + nz * dz - 1e-6;
        double x = s.x(s.il0 + ia * s.ilstep, s.xl0 + jb * s.xlstep), y = s.y(s.il0 + ia * s.ilstep, s.xl0 + jb * s.xlstep);
        if (fabs(ia - floor(ia) - 0.5) < 1e-6 || fabs(jb - floor(jb) - 0.5) < 1e-6) continue;
        bool in = ia > -0.5 && ia < s.na - 0.5 && jb > -0.5 && jb < s.nb - 0.5 && z >= z0 && z <= z0 + nz * dz;
        double e = val(ia, jb, (z - z0) / dz - 0.5), m = h->GetValue(x, y, z), zr = h->GetValue(x, y, z, SegY::ZERO), cl = h->GetValue(x, y, z, SegY::CLOSEST);
        if (in) M->check(fabs(m - e) < 2e-3 && zr == m && cl == m, "GetValue at inline %g, crossline %g, sample %g is %g, %g, %g; expected %g", ia, jb, (z - z0) / dz - 0.5, m, zr, cl, e);
        else M->check(m == -99999 && zr == 0, "GetValue outside, at inline %g, crossline %g, sample %g, is %g and %g", ia, jb, (z - z0) / dz - 0.5, m, zr);
      }
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
    M->step();
  }
  // traces from a grid of cells
  for (int nx = 1; nx <= 3; nx++) for (int ny = 1; ny <= 2; ny++) for (int ang = 0; ang < 2; ang++) for (double top : {98.0, 100.0, 104.0, 109.0}) for (double len : {4.0, 8.0, 16.0, 40.0}) for (int seis = 0; seis < 2; seis++) for (int file = 0; file < 2; file++) {
    if (!M->next()) continue;
    const double z0 = 100, dz = 4; const int nz = 6;
    M->begin("from a grid of %d x %d cells, angle %d, top %g, thickness %g, %s%s", nx, ny, ang, top, len, seis ? "seismic" : "cells", file ? ", written to file" : ""); M->state();
    try {
      Volume v; v.SetDimensions(5000, 7000, nx * 25, ny * 12.5); if (ang) v.SetAngle(0.5); v.SetSurfaces(ConstantSurface<double>(top), ConstantSurface<double>(top + len));
      StormContGrid grid(v, nx, ny, 4); for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < 4; k++) grid(i, j, k) = float(10 + i + 20 * j + k * k);
      string f = M->scratch + "/grid.sgy";
      { SegY g(&grid, NULL, z0, dz, nz, f, file, TraceHeaderFormat(0), seis);
        const SegyGeometry* geo = g.GetGeometry(); M->check(geo->GetNx() == size_t(nx) && geo->GetNy() == size_t(ny), "cells");
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
          double lx = (i + 0.5) * 25, ly = (j + 0.5) * 12.5, an = ang ? 0.5 : 0, x = 5000 + lx * cos(an) - ly * sin(an), y = 7000 + lx * sin(an) + ly * cos(an); vector<float> d; bool miss; double zd; g.GetNearestTrace(d, miss, zd, x, y);
          M->check(!miss && d.size() == size_t(nz), "trace"); double sh = seis ? 0 : 0.5 * dz;
          for (int k = 0; k < nz && k < int(d.size()); k++) { double z = z0 + k * dz + sh; int a = int(floor((top - z0 + sh) / dz)), b = int(floor((top + len - z0 - sh) / dz)); bool in = z >= top && z <= top + len && k >= a && k < b;
            if (k >= a && k < b && !in) continue;  // the sample is just outside the grid: not claimed
            float e = in ? float(grid.GetValueZInterpolated(x, y, z)) : 0; M->check(fabs(d[k] - e) < 1e-5, "sample %d of cell (%d,%d) is %g, expected %g", k, i, j, d[k], e); }
          SegYTrace copy(*g.getTrace(i + nx * j)); M->check(copy.GetTrace() == d && raises([&] { copy.GetTraceHeader(); }), "copy of a trace");
        } }
      if (file) { SegY r(f, z0, TraceHeaderFormat(0)); M->check(r.GetNTraces() == size_t(nx * ny) && r.GetNz() == size_t(nz) && r.GetDz() == dz, "file"); }
    } catch (std::exception& e) { if (top >= z0) M->fail(mc::fmt("raised %s", e.what())); }
    M->step();
  }
}
// data that fill a part of the trace
static void placed() {
  M->part = "placed";
  static const char* WAY[] = {"WriteTrace by position", "WriteTrace with a header", "StoreTrace"};
  for (int way = 0; way < 3; way++) for (double top : {-9.0, -2.25, -0.5, 0.0, 1.0, 2.25, 4.75, 5.0, 7.5}) for (int n : {1, 2, 3, 5}) for (int miss = 0; miss < 2; miss++) for (double dz : {4.0, 1.0}) {
    if (!M->next()) continue;
    M->begin("%s of %d samples from sample %g%s, interval %g", WAY[way], n, top, miss ? ", missing for the last traces" : "", dz); M->state();
    const int nz = 5; const double z0 = 100; Survey s = file_surveys(1)[0]; Cells c = order(s, 0); string f = M->scratch + "/placed.sgy";
    try {
      { SegY g(f, z0, nz, dz, TextualHeader(), mkfmt(0));
        vector<SegYTrace*> tr; for (auto& k : c) tr.push_back(mktrace(s, k.first, k.second)); vector<SegYTrace*> keep = tr; { SegyGeometry geo(tr, false); g.SetGeometry(&geo); } for (auto t : keep) delete t;
        Volume v; v.SetDimensions(s.ox - 10, s.oy - 10, 100, 200); v.SetSurfaces(Plane(z0 + top * dz, 0, 0, miss ? s.ox + 10 : 1e9), Plane(z0 + (top + n) * dz, 0, 0, 1e9));
        for (auto& k : c) { int il = s.il(k.first), xl = s.xl(k.second); double x = s.x(il, xl), y = s.y(il, xl); vector<float> d; for (int j = 0; j < n; j++) d.push_back(sample(il, xl, j));
          if (way == 0) g.WriteTrace(x, y, d, &v, -5.5f, 6.5f);
          else if (way == 1) { TraceHeader h(mkfmt(0)); h.SetUtmx(x); h.SetUtmy(y); h.SetInline(il); h.SetCrossline(xl); h.SetDt(int(dz * 1000)); g.WriteTrace(h, d, &v, -5.5f, 6.5f); }
          else g.StoreTrace(x, y, d, &v, -5.5f, 6.5f); }
        if (way == 2) g.WriteAllTracesToFile(); }
      auto b = slurp(f); M->check(b.size() == 3600 + c.size() * (240 + 4 * nz), "file of %zu bytes", b.size()); size_t at = 3600;
      if (b.size() == 3600 + c.size() * (240 + 4 * nz)) for (auto& k : c) { int il = s.il(k.first), xl = s.xl(k.second); at += 240;
        for (int j = 0; j < nz; j++, at += 4) { int i = j - int(floor(top)); float e = miss && s.x(il, xl) > s.ox + 10 ? 0 : i < 0 ? -5.5f : i < n ? sample(il, xl, i) : 6.5f; M->check(getf(b, at) == e, "trace (%d,%d) sample %d is %g, expected %g", il, xl, j, getf(b, at), e); } }
    } catch (std::exception& e) { M->fail(mc::fmt("raised %s", e.what())); }
    M->step();
  }
}
int main(int argc, char** argv) {
  mc::MC m(argc, argv); M = &m;
  headers(); values(); volumes(); placed(); geometry(); others(); missing(); reading(); repeated(); truncated(); writing();
  m.finish();
}
