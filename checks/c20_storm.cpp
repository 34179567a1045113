// C20: volumes between surfaces and the Storm grids in them: geometry, lookup, interpolation, value semantics, files.
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <nrlib/exception/exception.hpp>
#include <nrlib/stormgrid/stormcontgrid.hpp>
#include <nrlib/stormgrid/stormfaciesgrid.hpp>
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/surface/regularsurfacerotated.hpp>
#include <nrlib/volume/volume.hpp>
using namespace std;
using namespace NRLib;
static mc::MC* M;
static const double PI_ = 3.14159265358979323846;
template <class F> static bool raises(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static bool close_(double a, double b, double tol = 1e-9) { return fabs(a - b) <= tol * (1 + fabs(b)); }

/// surface kinds: constant, plane on a wide regular surface, plane with a hole (missing nodes), plane on a rotated surface
static double plane(double a, double b, double c, double x, double y) { return a + b * x + c * y; }
struct Surf {
  int kind = 0; double a = 0, b = 0, c = 0, x0 = 0, y0 = 0, L = 0; bool hole = false; double rot = 0;
  unique_ptr<Surface<double>> make() const {
    if (kind == 0) return unique_ptr<Surface<double>>(new ConstantSurface<double>(a));
    int n = 9; RegularSurface<double> s(x0, y0, L, L, n, n, 0.0);
    if (kind == 1) {
      for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { double x, y; s.GetXY(i, j, x, y); s(i, j) = plane(a, b, c, x, y); }
      if (hole) for (int j = 3; j < 5; j++) for (int i = 4; i < 7; i++) s.SetMissing(i, j);
      return unique_ptr<Surface<double>>(new RegularSurface<double>(s));
    }
    RegularSurfaceRotated<double> r(s, rot);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { double x, y; r.GetXY(i, j, x, y); r(i, j) = plane(a, b, c, x, y); }
    return unique_ptr<Surface<double>>(new RegularSurfaceRotated<double>(r));
  }
};
struct Vol {
  double x0, y0, lx, ly, ang; Surf top, bot;
  void glob(double u, double v, double& x, double& y) const { x = x0 + cos(ang) * u - sin(ang) * v; y = y0 + sin(ang) * u + cos(ang) * v; }
};
static vector<Vol> volumes(bool holes) {
  vector<Vol> V;
  for (double ang : {0.0, 0.3, PI_ / 2, -2.0, PI_}) for (int k = 0; k < 5; k++) for (int g = 0; g < 2; g++) {
    Vol v; v.x0 = g ? 1000.5 : 0; v.y0 = g ? -300 : 0; v.lx = g ? 30 : 4; v.ly = g ? 12.5 : 6; v.ang = ang;
    v.top.kind = k == 0 ? 0 : k == 4 ? 2 : 1; v.bot.kind = k <= 1 ? 0 : k == 4 ? 2 : 1;
    double ax = v.x0, ay = v.y0;
    v.top.a = 10; v.bot.a = 40;
    if (v.top.kind) { v.top.b = 0.05; v.top.c = -0.1; v.top.a -= plane(0, v.top.b, v.top.c, ax, ay); }
    if (v.bot.kind) { v.bot.b = k == 2 ? 0.05 : -0.05; v.bot.c = k == 2 ? -0.1 : 0.08; v.bot.a -= plane(0, v.bot.b, v.bot.c, ax, ay); }
    for (Surf* s : {&v.top, &v.bot}) { s->x0 = v.x0 - 64; s->y0 = v.y0 - 64; s->L = 128; s->rot = 0; if (s->kind == 2) { s->rot = 0.2; s->x0 += 20; s->y0 -= 20; s->L = 160; } }
    if (holes && k == 3) v.top.hole = true;
    V.push_back(v);
  }
  return V;
}
static string name(const Vol& v) { return mc::fmt("origin (%g,%g), %gx%g, angle %g, surfaces %d/%d%s", v.x0, v.y0, v.lx, v.ly, v.ang, v.top.kind, v.bot.kind, v.top.hole ? ", hole" : ""); }
static double topz(const Vol& v, double x, double y) { return plane(v.top.a, v.top.b, v.top.c, x, y); }
static double botz(const Vol& v, double x, double y) { return plane(v.bot.a, v.bot.b, v.bot.c, x, y); }

static void volume_geometry() {
  M->part = "volume geometry";
  for (auto& v : volumes(true)) for (int ctor = 0; ctor < 3; ctor++) {
    if (!M->next()) continue;
    M->begin("%s, constructor %d", name(v).c_str(), ctor); M->state();
    auto t = v.top.make(), b = v.bot.make(); unique_ptr<Volume> p;
    if (ctor == 0) { if (v.top.kind || v.bot.kind) continue; p.reset(new Volume(v.x0, v.y0, v.top.a, v.lx, v.ly, v.bot.a - v.top.a, v.ang)); }
    else if (ctor == 1) p.reset(new Volume(v.x0, v.y0, v.lx, v.ly, *t, *b, v.ang));
    else { p.reset(new Volume()); p->SetDimensions(v.x0, v.y0, v.lx, v.ly); p->SetAngle(v.ang); p->SetSurfaces(*t, *b, false); }
    const Volume& o = *p;
    if (!M->check(o.GetXMin() == v.x0 && o.GetYMin() == v.y0 && o.GetLX() == v.lx && o.GetLY() == v.ly && o.GetAngle() == v.ang, "dimensions differ")) continue;
    bool ok = true;
    for (double tol : {1e-6, 0.1}) { p->SetTolerance(tol); for (double q = -0.3; ok && q < 1.35; q += 0.1) for (double w = -0.3; ok && w < 1.35; w += 0.1) {
      double x, y, gx, gy; v.glob(q * v.lx, w * v.ly, x, y); o.GetXYFromRelative(q, w, gx, gy); M->step();
      ok = M->check(close_(gx, x) && close_(gy, y), "relative (%g,%g) is at (%g,%g), expected (%g,%g)", q, w, gx, gy, x, y);
      auto mar = [&](double m) { double a = q * v.lx, c = w * v.ly; return min(min(a + m, v.lx - a + m), min(c + m, v.ly - c + m)); };
      double m0 = mar(0), m1 = mar(tol);
      if (ok && fabs(m0) > 1e-9) ok = M->check((o.IsInside(x, y) != 0) == (m0 > 0), "IsInside(%g,%g) (relative %g,%g) is %d", x, y, q, w, o.IsInside(x, y));
      if (ok && fabs(m1) > 1e-9) ok = M->check((o.IsInsideTolerance(x, y) != 0) == (m1 > 0), "IsInsideTolerance(%g,%g) (relative %g,%g, tolerance %g) is %d", x, y, q, w, tol, o.IsInsideTolerance(x, y));
      if (ok && fabs(m0) > 1e-9 && !v.top.hole) for (double dz : {-2.0, -0.5, 0.5, 12.0}) for (int which = 0; which < 2; which++) {
        double zt = topz(v, x, y), zb = botz(v, x, y), z = which ? zb + dz : zt + dz;
        ok = M->check(o.IsInside(x, y, z) == (m0 > 0 && z > zt && z < zb) && o.IsInsideZTolerance(x, y, z, 1) == (m0 > 0 && z > zt - 1 && z < zb + 1), "IsInside(%g,%g,%g) is %d, with tolerance 1: %d (top %g, bottom %g)", x, y, z, o.IsInside(x, y, z), o.IsInsideZTolerance(x, y, z, 1), zt, zb) && ok;
      }
    } }
    if (!ok) continue;
    if (v.ang == 0) for (double q : {0.0, 0.5, 1.0}) for (double w : {0.0, 0.5, 1.0}) { double x = v.x0 + q * v.lx, y = v.y0 + w * v.ly; M->check(o.IsInside(x, y) != 0 && o.IsInsideTolerance(x, y) != 0, "(%g,%g), on the edge of the volume or in its middle, is not inside", x, y); }
    double cx, cy, cz, ex, ey; o.FindCenter(cx, cy, cz); v.glob(v.lx / 2, v.ly / 2, ex, ey);
    M->check(close_(cx, ex) && close_(cy, ey) && (v.top.hole || close_(cz, 0.5 * (topz(v, ex, ey) + botz(v, ex, ey)))), "FindCenter gives (%g,%g,%g), expected (%g,%g,%g)", cx, cy, cz, ex, ey, 0.5 * (topz(v, ex, ey) + botz(v, ex, ey)));
    // extremes over the cell centres
    for (int nx = 1; nx <= 4; nx++) for (int ny = 1; ny <= 4; ny++) {
      double e[4] = {1e300, -1e300, 1e300, -1e300};
      for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        double x, y; v.glob((i + 0.5) * v.lx / nx, (j + 0.5) * v.ly / ny, x, y); double zt = t->GetZ(x, y), zb = b->GetZ(x, y);
        if (!t->IsMissing(zt)) { e[0] = min(e[0], zt); e[1] = max(e[1], zt); } if (!b->IsMissing(zb)) { e[2] = min(e[2], zb); e[3] = max(e[3], zb); }
      }
      double g[4] = {o.GetTopZMin(nx, ny), o.GetTopZMax(nx, ny), o.GetBotZMin(nx, ny), o.GetBotZMax(nx, ny)}; M->step();
      for (int k = 0; k < 4; k++) if (fabs(e[k]) < 1e299) M->check(close_(g[k], e[k], 1e-6), "%dx%d: %s %s is %g, expected %g", nx, ny, k < 2 ? "top" : "bottom", k % 2 ? "maximum" : "minimum", g[k], e[k]);
      M->check(o.GetZMin(nx, ny) == g[0] && o.GetZMax(nx, ny) == g[3], "GetZMin/GetZMax differ from the top's minimum and the bottom's maximum");
    }
    // thickness: the largest one, up to the sampling distance
    double hi = -1e300, lo = 0, slope = hypot(v.bot.b - v.top.b, v.bot.c - v.top.c) * (v.lx + v.ly) / 100;
    for (int k = 0; k < 4; k++) { double x, y; v.glob((k & 1) * v.lx, (k >> 1) * v.ly, x, y); hi = max(hi, botz(v, x, y) - topz(v, x, y)); }
    lo = hi - slope; if (!v.top.hole) M->check(o.GetLZ() <= hi + 1e-9 && o.GetLZ() >= lo - 1e-9, "GetLZ is %g, the largest thickness is %g", o.GetLZ(), hi);
    else M->check(o.GetLZ() <= hi + 5 && o.GetLZ() > 0, "GetLZ is %g with missing values, at most %g possible", o.GetLZ(), hi);
    // surface coverage: a surface covers iff its extent contains the volume's
    double xl = 1e300, xh = -1e300, yl = 1e300, yh = -1e300; for (int k = 0; k < 4; k++) { double x, y; v.glob((k & 1) * v.lx, (k >> 1) * v.ly, x, y); xl = min(xl, x); xh = max(xh, x); yl = min(yl, y); yh = max(yh, y); }
    for (int side = 0; side < 5; side++) for (double d : {-0.01, 0.01}) {
      RegularSurface<double> s(xl - 1 + (side == 0 ? 1 + d : 0), yl - 1 + (side == 1 ? 1 + d : 0), xh - xl + 2 - (side == 0 ? 1 + d : side == 2 ? 1 + d : 0), yh - yl + 2 - (side == 1 ? 1 + d : side == 3 ? 1 + d : 0), 2, 2, 5.0);
      bool e = side == 4 || d < 0; M->step();
      M->check(o.CheckSurface(s) == e, "CheckSurface of a surface %s the volume by %g on side %d is %d", d < 0 ? "exceeding" : "short of", fabs(d), side, !e);
      RegularSurface<double> deep(s); deep.Assign(500);
      if (ctor == 1 && (M->thorough() || (v.top.kind == 1 && side != 4))) M->check(raises([&] { Volume q(o); q.SetSurfaces(s, deep, false); }) == !e && raises([&] { Volume q(o); ConstantSurface<double> c(1), c2(900); q.SetSurfaces(c, c2, s, c2); }) == !e && raises([&] { Volume q(o); ConstantSurface<double> c(1), c2(900); q.SetSurfaces(c, c2, c, s); }) == !e && raises([&] { Volume q(o); ConstantSurface<double> c(1); q.SetSurfaces(c, s, false); }) == !e && !raises([&] { Volume q(o); q.SetSurfaces(s, deep); }), "SetSurfaces with such a surface does not check its coverage as asked");
    }
  }
}

/// observation of a volume, for comparison after histories
struct Obs { vector<double> v; };
static Obs obs(const Volume& c) {
  Volume& o = const_cast<Volume&>(c); Obs r; r.v = {o.GetXMin(), o.GetYMin(), o.GetLX(), o.GetLY(), o.GetAngle(), o.GetTolerance(), o.GetLZ()};
  for (double x : {0.5, 1.75, 3.0}) for (double y : {0.25, 2.5}) { r.v.push_back(c.GetTopSurface().GetZ(x, y)); r.v.push_back(c.GetBotSurface().GetZ(x, y)); }
  return r;
}
static void volume_histories() {
  M->part = "volume histories";
  static const char* N[] = {"SetDimensions(b)", "SetAngle(0.2)", "SetTolerance(0.5)", "SetSurfaces(1,2)", "SetSurfaces(plane,2)", "SetSurfaces(own top, new bottom)", "SetSurfaces(own bottom minus, own bottom)", "assign other", "assign itself", "other = copy", "top += 1", "bottom *= 2", "SetSurfaces with erosion", "assign copy of a copy"};
  struct Mo { double x, y, lx, ly, an, tol; double ta, tb, tc, ba, bb, bc; bool ero; double et, eb; };
  auto tz = [](const Mo& m, double x, double y) { return plane(m.ta, m.tb, m.tc, x, y); };
  auto bz = [](const Mo& m, double x, double y) { return plane(m.ba, m.bb, m.bc, x, y); };
  int depth = M->thorough() ? 5 : 4;
  RegularSurface<double> pl(-50, -50, 100, 100, 5, 5, 0.0); for (int k = 0; k < 25; k++) { double x, y; pl.GetXY(k, x, y); pl(k) = plane(1, 0.125, 0.25, x, y); }
  for (int d = 1; d <= depth; d++) mc::sequences(14, d, [&](const vector<int>& q) {
    if (!M->next()) return;
    string h; for (int o : q) h += string("; ") + N[o]; M->begin("%s", h.c_str()); M->state();
    Volume a(0, 0, 1, 4, 3, 5, 0.1), b(1, 1, -2, 2, 2, 1, 0); Mo ma = {0, 0, 4, 3, 0.1, 1e-6, 1, 0, 0, 6, 0, 0, false, 0, 0}, mb = {1, 1, 2, 2, 0, 1e-6, -2, 0, 0, -1, 0, 0, false, 0, 0};
    b.SetTolerance(0.25); mb.tol = 0.25; bool lz = true, lzb = true;
    ConstantSurface<double> c1(1), c2(20), e1(-5), e2(77);
    for (int o : q) {
      M->step();
      switch (o) {
        case 0: a.SetDimensions(2, -1, 5, 1.5); ma.x = 2; ma.y = -1; ma.lx = 5; ma.ly = 1.5; lz = true; break;
        case 1: a.SetAngle(0.2); ma.an = 0.2; lz = true; break;
        case 2: a.SetTolerance(0.5); ma.tol = 0.5; break;
        case 3: a.SetSurfaces(c1, c2); ma.ta = 1; ma.tb = ma.tc = 0; ma.ba = 20; ma.bb = ma.bc = 0; lz = true; break;
        case 4: a.SetSurfaces(pl, c2); ma.ta = 1; ma.tb = 0.125; ma.tc = 0.25; ma.ba = 20; ma.bb = ma.bc = 0; lz = true; break;
        case 5: a.SetSurfaces(a.GetTopSurface(), c2); ma.ba = 20; ma.bb = ma.bc = 0; lz = true; break;
        case 6: { ConstantSurface<double> c0(-30); a.SetSurfaces(c0, a.GetBotSurface()); ma.ta = -30; ma.tb = ma.tc = 0; lz = true; break; }
        case 7: a = b; ma = mb; lz = lzb; break;
        case 8: { Volume& r = a; a = r; break; }
        case 9: { Volume t(a); b = t; mb = ma; lzb = lz; break; }
        case 10: a.GetTopSurface().Add(1); ma.ta += 1; lz = false; break;
        case 11: a.GetBotSurface().Multiply(2); ma.ba *= 2; ma.bb *= 2; ma.bc *= 2; lz = false; break;
        case 12: a.SetSurfaces(c1, c2, e1, e2); ma.ta = 1; ma.tb = ma.tc = 0; ma.ba = 20; ma.bb = ma.bc = 0; ma.ero = true; ma.et = -5; ma.eb = 77; lz = true; break;
        case 13: { unique_ptr<Volume> t(new Volume(a)); Volume u(*t); t.reset(); a = u; break; }
      }
      for (int w = 0; w < 2; w++) {
        const Volume& v = w ? b : a; const Mo& m = w ? mb : ma; Obs g = obs(v);
        vector<double> e = {m.x, m.y, m.lx, m.ly, m.an, m.tol, 0};
        double hi = 0, gl = hypot(m.bb - m.tb, m.bc - m.tc) * (m.lx + m.ly) / 100; for (int k = 0; k < 4; k++) { double u = (k & 1) * m.lx, vv = (k >> 1) * m.ly, x = m.x + cos(m.an) * u - sin(m.an) * vv, y = m.y + sin(m.an) * u + cos(m.an) * vv; hi = max(hi, bz(m, x, y) - tz(m, x, y)); }
        if (w ? lzb : lz) { if (!M->check(g.v[6] <= hi + 1e-9 && g.v[6] >= hi - gl - 1e-9, "%s volume: GetLZ is %g, expected %g", w ? "other" : "first", g.v[6], hi)) return; }
        for (double x : {0.5, 1.75, 3.0}) for (double y : {0.25, 2.5}) { e.push_back(tz(m, x, y)); e.push_back(bz(m, x, y)); }
        for (size_t k = 0; k < e.size(); k++) if (k != 6 && !M->check(close_(g.v[k], e[k]), "%s volume: observation %zu is %g, expected %g", w ? "other" : "first", k, g.v[k], e[k])) return;
        if (m.ero && !M->check(v.GetErosionTop().GetZ(0, 0) == m.et && v.GetErosionBot().GetZ(0, 0) == m.eb, "%s volume: erosion surfaces differ", w ? "other" : "first")) return;
      }
    }
  });
}

static float val(int i, int j, int k) { return float(1 + i * 7 - j * 3 + k * k * 2.5); }
static void lookups() {
  M->part = "grid lookup";
  int shapes[][3] = {{1, 1, 1}, {2, 3, 2}, {4, 1, 3}, {3, 2, 5}, {17, 2, 3}, {2, 1, 40}, {1, 19, 9}};
  for (auto& v : volumes(false)) for (auto& sh : shapes) for (int ctor = 0; ctor < 2; ctor++) {
    if (!M->next()) continue;
    int nx = sh[0], ny = sh[1], nz = sh[2];
    M->begin("%s, %dx%dx%d cells, constructor %d", name(v).c_str(), nx, ny, nz, ctor); M->state();
    auto t = v.top.make(), b = v.bot.make(); Volume vol(v.x0, v.y0, v.lx, v.ly, *t, *b, v.ang);
    Grid<float> base(nx, ny, nz); for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) base(i, j, k) = val(i, j, k);
    StormContGrid g = ctor ? StormContGrid(vol, base) : StormContGrid(vol, nx, ny, nz, 0); StormFaciesGrid f(vol, nx, ny, nz);
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { if (ctor == 0) g(i, j, k) = val(i, j, k); f(i, j, k) = i + j + k; }
    if (!M->check(close_(g.GetDX(), v.lx / nx) && close_(g.GetDY(), v.ly / ny) && f.GetDX() == g.GetDX() && f.GetDY() == g.GetDY() && (int)g.GetNK() == nz, "cell sizes %g, %g", g.GetDX(), g.GetDY())) continue;
    bool ok = true;
    for (int k = 0; ok && k < nz; k++) for (int j = 0; ok && j < ny; j++) for (int i = 0; ok && i < nx; i++) {
      double x, y, z, fx, fy, fz, ex, ey; g.FindCenterOfCell(i, j, k, x, y, z); f.FindCenterOfCell(i, j, k, fx, fy, fz); v.glob((i + 0.5) * v.lx / nx, (j + 0.5) * v.ly / ny, ex, ey);
      double zt = topz(v, ex, ey), ez = zt + (k + 0.5) * (botz(v, ex, ey) - zt) / nz; M->step();
      ok = M->check(close_(x, ex) && close_(y, ey) && close_(z, ez, 1e-7) && fx == x && fy == y && fz == z, "centre of cell (%d,%d,%d) is (%g,%g,%g), expected (%g,%g,%g)", i, j, k, x, y, z, ex, ey, ez);
      if (ok) ok = M->check(g.FindIndex(x, y, z) == g.GetIndex(i, j, k) && f.FindIndex(x, y, z) == f.GetIndex(i, j, k), "FindIndex at the centre of cell (%d,%d,%d) gives %zu, facies %zu, expected %zu", i, j, k, g.FindIndex(x, y, z), f.FindIndex(x, y, z), g.GetIndex(i, j, k));
    }
    // positions in cell units: inside each third of each cell, and outside
    for (double cu = -0.9; ok && cu < nx + 1; cu += 0.4) for (double cv = -0.9; ok && cv < ny + 1; cv += 0.4) {
      double x, y; v.glob(cu * v.lx / nx, cv * v.ly / ny, x, y); bool in = cu > 0 && cv > 0 && cu < nx && cv < ny; size_t i, j, k;
      double zt = topz(v, x, y), zb = botz(v, x, y), dz = (zb - zt) / nz; M->step();
      bool r = raises([&] { g.FindXYIndex(x, y, i, j); });
      ok = M->check(r == !in && (r || ((int)i == (int)floor(cu) && (int)j == (int)floor(cv))), "FindXYIndex at cell position (%g,%g) %s", cu, cv, r ? "raised" : mc::fmt("gives (%zu,%zu)", i, j).c_str());
      for (double cw = -0.7; ok && cw < nz + 1; cw += 0.3) {
        double z = zt + cw * dz; bool inz = cw > 0 && cw < nz, near = min(fabs(cw), fabs(cw - nz)) < 1e-6 || fabs(cw - round(cw)) < 1e-6; if (near) continue;
        bool r1 = raises([&] { g.FindIndex(x, y, z, i, j, k); }); size_t i2, j2, k2; bool r2 = raises([&] { f.FindIndex(x, y, z, i2, j2, k2); });
        ok = M->check(r1 == !(in && inz) && (r1 || ((int)i == (int)floor(cu) && (int)j == (int)floor(cv) && (int)k == (int)floor(cw))), "FindIndex at cell position (%g,%g,%g) %s", cu, cv, cw, r1 ? "raised" : mc::fmt("gives (%zu,%zu,%zu)", i, j, k).c_str());
        if (ok) ok = M->check(r2 == !(in && inz) && (r2 || ((int)i2 == (int)floor(cu) && (int)j2 == (int)floor(cv) && (int)k2 == (int)floor(cw))), "facies FindIndex at cell position (%g,%g,%g) %s", cu, cv, cw, r2 ? "raised" : mc::fmt("gives (%zu,%zu,%zu)", i2, j2, k2).c_str());
        double w = min(max(cw - 0.5, 0.0), nz - 1.0); int k0 = min((int)floor(w), max(nz - 2, 0)); double tt = w - k0; int ci = (int)floor(cu), cj = (int)floor(cv); double e = in ? val(ci, cj, k0) * (1 - tt) + (nz > 1 ? val(ci, cj, k0 + 1) * tt : 0) : 0;
        if (!in) { if (ok) ok = M->check(raises([&] { g.GetValueZInterpolated(x, y, z); }) && g.IsMissing(g.GetValueClosestInZ(x, y, z)), "interpolated values exist outside the area, at (%g,%g)", cu, cv); continue; }
        float gv = g.GetValueZInterpolated(x, y, z), gc = g.GetValueClosestInZ(x, y, z);
        if (ok) ok = M->check(close_(gv, e, 1e-4), "GetValueZInterpolated at cell position (%g,%g,%g) is %g, expected %g", cu, cv, cw, gv, e);
        if (ok) ok = M->check(close_(gc, e, 1e-4), "GetValueClosestInZ at cell position (%g,%g,%g) is %g, expected %g", cu, cv, cw, gc, e);
        size_t a1, a2; double at; g.FindZInterpolatedIndex(x, y, z, a1, a2, at); if (ok) ok = M->check(close_(g.GetValueZInterpolatedFromIndexNoMissing(a1, a2, at), e, 1e-4) && g.GetValueZInterpolatedFromIndex(a1, a2, at) == gv, "interpolation from indices at (%g,%g,%g) differs", cu, cv, cw);
      }
      // the bottom itself belongs to the lowest cell
      if (ok && in && v.top.kind == 0 && v.bot.kind == 0) { g.FindIndex(x, y, zb, i, j, k); size_t i2, j2, k2; f.FindIndex(x, y, zb, i2, j2, k2); ok = M->check((int)k == nz - 1 && (int)k2 == nz - 1, "FindIndex on the bottom gives layers %zu and %zu of %d", k, k2, nz); }
    }
    for (int i = 0; ok && i < nx; i++) for (double kv = 0; ok && kv <= nz - 1; kv += 0.25) { int k0 = min((int)floor(kv), max(nz - 2, 0)); double tt = kv - k0, e = val(i, ny - 1, k0) * (1 - tt) + (nz > 1 ? val(i, ny - 1, k0 + 1) * tt : 0); ok = M->check(close_(g.GetValueInterpolated(i, ny - 1, (float)kv), e, 1e-4), "GetValueInterpolated(%d,%d,%g) is %g, expected %g", i, ny - 1, kv, g.GetValueInterpolated(i, ny - 1, (float)kv), e); }
    if (ok) {
      // relative thickness averaged over the cells' centres
      g.SetAngle(v.ang); double s = 0; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { double x, y; v.glob((i + 0.5) * v.lx / nx, (j + 0.5) * v.ly / ny, x, y); s += botz(v, x, y) - topz(v, x, y); }
      M->check(close_(g.GetAvgRelThick(), s / (nx * ny) / g.GetLZ(), 1e-6), "GetAvgRelThick is %g, expected %g", g.GetAvgRelThick(), s / (nx * ny) / g.GetLZ());
      M->check(close_(g.GetZMin(), g.Volume::GetZMin(nx, ny)) && close_(g.GetZMax(), g.Volume::GetZMax(nx, ny)), "GetZMin/GetZMax");
    }
  }
  M->part = "missing cells";
  for (int pat = 0; pat < 8; pat++) for (double cw = 0.1; cw < 3; cw += 0.2) {
    if (!M->next()) continue;
    M->begin("layers missing 0x%x, depth %g", pat, cw); M->state(); M->step(); StormContGrid g(Volume(0, 0, 0, 1, 1, 3, 0), 1, 1, 3); g.SetMissingCode(-1);
    for (int k = 0; k < 3; k++) g(0, 0, k) = (pat >> k & 1) ? -1.f : 4.f + k * k;
    double w = min(max(cw - 0.5, 0.0), 2.0); int k0 = min((int)floor(w), 1); double t = w - k0, a = g(0, 0, k0), b = g(0, 0, k0 + 1), e = w <= 0 ? g(0, 0, 0) : w >= 2 ? g(0, 0, 2) : a == -1 ? b : b == -1 ? a : a * (1 - t) + b * t;
    M->check(close_(g.GetValueZInterpolated(0.5, 0.5, cw), e, 1e-5), "GetValueZInterpolated is %g, expected %g", g.GetValueZInterpolated(0.5, 0.5, cw), e);
    double kv = min(w, 2.0); int f0 = (int)floor((float)kv); double fa = g(0, 0, f0), fb = g(0, 0, min(f0 + 1, 2)), tt = kv - f0, fe = fa == -1 ? -1 : fb == -1 ? fa : fa * (1 - tt) + fb * tt;
    M->check(close_(g.GetValueInterpolated(0, 0, (float)kv), fe, 1e-5), "GetValueInterpolated is %g, expected %g", g.GetValueInterpolated(0, 0, (float)kv), fe);
  }
  if (M->next()) { // missing surface values do not count for the height
    M->begin("height with missing surface nodes"); RegularSurface<double> t(-1, -1, 12, 12, 13, 13, 5.0); for (int k = 0; k < 4; k++) for (int l = 0; l < 4; l++) t.SetMissing(3 + k, 3 + l); ConstantSurface<double> b(9);
    StormContGrid g(Volume(0, 0, 0, 10, 10, 4, 0), 10, 10, 2); g.SetSurfaces(t, b); StormFaciesGrid f(Volume(0, 0, 0, 10, 10, 4, 0), 10, 10, 2); f.SetSurfaces(t, b); M->check(close_(g.GetLZ(), 4) && close_(f.GetLZ(), 4), "GetLZ is %g and %g, expected 4", g.GetLZ(), f.GetLZ());
  }
}

static string slurp(const string& f) { ifstream i(f, ios::binary); stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const string& f, const string& t) { ofstream o(f, ios::binary); o << t; }
static string be(uint32_t u) { string s; for (int k = 3; k >= 0; k--) s += char(u >> (8 * k)); return s; }
static string f32(float v) { uint32_t u; memcpy(&u, &v, 4); return be(u); }
static string f64(double v) { uint64_t u; memcpy(&u, &v, 8); return be(u >> 32) + be((uint32_t)u); }

static bool same_volume(const Volume& a, const Vol& v, const char* what) {
  if (!M->check(close_(a.GetXMin(), v.x0) && close_(a.GetYMin(), v.y0) && close_(a.GetLX(), v.lx) && close_(a.GetLY(), v.ly) && close_(a.GetAngle(), v.ang), "%s: (%.12g,%.12g) %.12gx%.12g angle %.12g, expected (%.12g,%.12g) %.12gx%.12g angle %.12g", what, a.GetXMin(), a.GetYMin(), a.GetLX(), a.GetLY(), a.GetAngle(), v.x0, v.y0, v.lx, v.ly, v.ang)) return false;
  for (double q : {0.1, 0.5, 0.9}) for (double w : {0.05, 0.6}) { double x, y; v.glob(q * v.lx, w * v.ly, x, y); if (!M->check(close_(a.GetTopSurface().GetZ(x, y), topz(v, x, y), 1e-6) && close_(a.GetBotSurface().GetZ(x, y), botz(v, x, y), 1e-6), "%s: at (%g,%g) top %g bottom %g, expected %g %g", what, x, y, a.GetTopSurface().GetZ(x, y), a.GetBotSurface().GetZ(x, y), topz(v, x, y), botz(v, x, y))) return false; }
  return true;
}

static void files() {
  M->part = "grid files";
  vector<Vol> V = volumes(false); { Vol u = V[0]; u.x0 = 456789.125; u.y0 = 6789012.5; u.lx = 12500; u.ly = 7512.25; u.ang = 0.55; u.top.a = 1234.5; u.bot.a = 2345.625; V.push_back(u); u.top.kind = 1; u.top.b = u.top.c = 0.001; u.top.a = 1000 - 0.001 * (u.x0 + u.y0); u.top.x0 = u.x0 - 20000; u.top.y0 = u.y0 - 20000; u.top.L = 40000; V.push_back(u); }
  int shapes[][3] = {{1, 1, 1}, {2, 3, 2}, {4, 2, 1}, {1, 1, 11}, {13, 1, 1}, {20, 15, 7}};
  string fn = M->scratch + "/grid.storm";
  for (auto& v : V) for (auto& sh : shapes) for (int asc = 0; asc < 2; asc++) for (int en = 0; en < 2; en++) for (int rp = 0; rp < 2; rp++) for (int fac = 0; fac < 2; fac++) {
    if ((fac && rp) || (asc && en)) continue;
    if (!M->next()) continue;
    int nx = sh[0], ny = sh[1], nz = sh[2], n = nx * ny * nz; Endianess E = en ? END_LITTLE_ENDIAN : END_BIG_ENDIAN;
    M->begin("%s grid in %s, %dx%dx%d cells, %s, %s endian, %s paths", fac ? "facies" : "continuous", name(v).c_str(), nx, ny, nz, asc ? "ASCII" : "binary", en ? "little" : "big", rp ? "full" : "relative"); M->state();
    auto t = v.top.make(), b = v.bot.make(); Volume vol(v.x0, v.y0, v.lx, v.ly, *t, *b, v.ang);
    try {
      string text; vector<double> data(n);
      if (!fac) {
        StormContGrid g(vol, nx, ny, nz); g.SetFormat(asc ? StormContGrid::STORM_ASCII : StormContGrid::STORM_BINARY); g.SetMissingCode(-77); g.SetZoneNumber(3); g.SetModelFileName("model"); g.SetVariableName("poro");
        for (int k = 0; k < n; k++) g(k) = data[k] = k == 1 ? -77 : 0.125f * k - 2; 
        g.WriteToFile(fn, "", false, E, rp == 0); text = slurp(fn); M->step();
        StormContGrid r(1, 1, 1, 0); if (en == 0) r = StormContGrid(fn); else r.ReadFromFile(fn, true, E);
        M->check((int)r.GetNI() == nx && (int)r.GetNJ() == ny && (int)r.GetNK() == nz && r.GetMissingCode() == -77 && r.GetZoneNumber() == 3 && r.GetModelFileName() == "model" && r.GetVariableName() == "poro" && r.GetFormat() == g.GetFormat(), "shape or header read back differently");
        for (int k = 0; k < n && (int)r.GetN() == n; k++) if (!M->check(close_(r(k), data[k], 1e-3) && (asc || r(k) == (float)data[k]), "cell %d is %g, expected %g", k, r(k), data[k])) break;
        if (!same_volume(r, v, "read back")) continue;
        M->check(fabs(r.GetLZ() - vol.GetLZ()) < 1e-9 * fabs(vol.GetLZ()) + 1e-9, "height %g read back as %g", vol.GetLZ(), r.GetLZ());
      } else {
        StormFaciesGrid g(vol, nx, ny, nz); g.SetFormat(asc ? StormFaciesGrid::STORM_ASCII : StormFaciesGrid::STORM_BINARY); g.SetZoneNumber(5); g.SetModelFileName("model"); g.SetFaciesNames({"sand", "shale", "coal"}); g.SetBodyFacies({2, 0, 1, 0});
        for (int k = 0; k < n; k++) g(k) = data[k] = k == 1 ? -999 : k % 4;
        g.WriteToFile(fn, E); text = slurp(fn); M->step();
        StormFaciesGrid r(1, 1, 1); if (en == 0) r = StormFaciesGrid(fn); else r.ReadFromFile(fn, true, E);
        M->check((int)r.GetNI() == nx && (int)r.GetNJ() == ny && (int)r.GetNK() == nz && r.GetMissingCode() == -999 && r.GetZoneNumber() == 5 && r.GetModelFileName() == "model" && r.GetFormat() == g.GetFormat() && r.GetFaciesName(2) == "coal" && r.GetFaciesCode(0) == 2 && r.GetFaciesCode(3) == 0, "shape or header read back differently");
        for (int k = 0; k < n && (int)r.GetN() == n; k++) { if (!M->check(r(k) == (int)data[k], "cell %d is %d, expected %g", k, r(k), data[k])) break; if (k != 1) M->check(r.GetFaciesFromCell(k) == (k % 4 == 0 ? 2 : k % 4 == 2 ? 1 : 0), "facies of cell %d is %d", k, r.GetFaciesFromCell(k)); }
        M->check(raises([&] { r.GetFaciesCode(4); }) && raises([&] { r.GetFaciesCode(-1); }) && raises([&] { r.GetFaciesName(3); }) && raises([&] { r.GetFaciesName(-1); }), "codes out of range are accepted");
        if (!same_volume(r, v, "read back")) continue;
      }
      // the file: header tokens, then the data in x-fastest order, then 0
      istringstream is(text); vector<string> tok; string w; size_t pos = 0; size_t nh = fac ? 1 + 3 + 4 + 5 + 10 + 3 : 1 + 4 + 10 + 3;
      while (tok.size() < nh && is >> w) { tok.push_back(w); pos = is.tellg(); }
      pos++;
      M->check(tok.size() == nh && tok[0] == (fac ? asc ? "storm_facies_ascii" : "storm_facies_binary" : asc ? "storm_petro_ascii" : "storm_petro_binary") && tok[nh - 3] == to_string(nx) && tok[nh - 2] == to_string(ny) && tok[nh - 1] == to_string(nz), "the header has another layout");
      if (!asc) {
        string body; for (double d : data) { string s = fac ? be((uint32_t)(int)d) : f32((float)d); if (en) reverse(s.begin(), s.end()); body += s; }
        M->check(text.substr(pos) == body + "0", "the binary part is not the cells in x-fastest order followed by 0");
        for (size_t c = 0; c < pos + body.size(); c += n > 300 ? 977 : !M->thorough() && (v.ang != 0.3 || rp || v.x0 == 0) ? 11 : c + 40 < pos ? 7 : 1) { spit(fn, text.substr(0, c)); M->step(); if (!M->check(raises([&] { if (fac) StormFaciesGrid r(fn, E); else StormContGrid r(fn, E); }), "a file cut after %zu of %zu bytes was accepted", c, text.size())) break; }
        spit(fn, text.substr(0, pos + body.size())); M->check(!raises([&] { if (fac) StormFaciesGrid r(fn, E); else StormContGrid r(fn, E); }), "a file without the final number of barriers was refused");
        for (auto nb : {"1", "2", "-1", "17"}) { spit(fn, text.substr(0, pos + body.size()) + nb); M->check(raises([&] { if (fac) StormFaciesGrid r(fn, E); else StormContGrid r(fn, E); }), "a file with %s barriers was accepted", nb); }
      }
      // surface files taken away
      for (int which = 0; which < 2; which++) if ((which ? v.bot : v.top).kind) {
        spit(fn, text); string sf = fn + (which ? "_bot" : "_top"), keep = slurp(sf); remove(sf.c_str()); M->step();
        M->check(raises([&] { if (fac) StormFaciesGrid r(fn, E); else StormContGrid r(fn, E); }), "a file whose %s surface is missing was accepted", which ? "bottom" : "top");
        spit(sf, keep); M->check(!raises([&] { if (fac) StormFaciesGrid r(fn, E); else StormContGrid r(fn, E); }), "the restored file is refused");
      }
    } catch (std::exception& x) { M->fail(string("raised: ") + x.what()); }
    for (auto s : {"", "_top", "_bot"}) remove((fn + s).c_str());
  }
  M->part = "erosion surfaces";
  for (auto& v : V) if (v.top.kind < 2 && v.bot.kind < 2) for (int kinds = 0; kinds < 4; kinds++) for (int fac = 0; fac < 2; fac++) for (int rp = 0; rp < 2; rp++) {
    if ((fac && rp) || !M->next()) continue;
    M->begin("%s, erosion %s/%s, %s grid, %s paths", name(v).c_str(), kinds & 1 ? "surface" : "constant", kinds & 2 ? "surface" : "constant", fac ? "facies" : "continuous", rp ? "full" : "relative"); M->state(); M->step();
    auto t = v.top.make(), b = v.bot.make(); Surf et = v.top, eb = v.bot; et.kind = kinds & 1; eb.kind = kinds >> 1; et.a = 3.25; eb.a = 81.5; et.b = eb.b = et.c = 0; eb.c = 0; et.x0 = eb.x0 = v.x0 - 40000; et.y0 = eb.y0 = v.y0 - 40000; et.L = eb.L = 80000; if (et.kind) et.b = 0.25; if (eb.kind) eb.c = 0.5;
    et.a -= plane(0, et.b, et.c, v.x0, v.y0); eb.a -= plane(0, eb.b, eb.c, v.x0, v.y0);
    auto e1 = et.make(), e2 = eb.make();
    try {
      Volume vol(v.x0, v.y0, v.lx, v.ly, *t, *b, v.ang); vol.SetSurfaces(*t, *b, *e1, *e2); unique_ptr<Volume> r;
      if (fac) { StormFaciesGrid g(vol, 2, 2, 1); g.SetFaciesNames({"f"}); g.SetBodyFacies({0}); for (int k = 0; k < 4; k++) g(k) = 0; g.WriteToFile(fn); r.reset(new StormFaciesGrid(fn)); }
      else { StormContGrid g(vol, 2, 2, 1); for (int k = 0; k < 4; k++) g(k) = k; g.WriteToFile(fn, "", false, END_BIG_ENDIAN, rp == 0); r.reset(new StormContGrid(fn)); }
      if (same_volume(*r, v, "read back")) for (double q : {0.0, 0.3, 1.0}) for (double w : {0.1, 0.8}) { double x, y; v.glob(q * v.lx, w * v.ly, x, y); double a = plane(et.a, et.b, et.c, x, y), c = plane(eb.a, eb.b, eb.c, x, y);
        if (!M->check(close_(r->GetErosionTop().GetZ(x, y), a, 1e-6) && close_(r->GetErosionBot().GetZ(x, y), c, 1e-6), "erosion surfaces at (%g,%g) are %g and %g, expected %g and %g", x, y, r->GetErosionTop().GetZ(x, y), r->GetErosionBot().GetZ(x, y), a, c)) break; }
      string text = slurp(fn);
      for (int which = 0; which < 2; which++) if (kinds >> which & 1) { string sf = fn + (which ? "_erosion_bot" : "_erosion_top"), keep = slurp(sf); remove(sf.c_str()); M->check(raises([&] { if (fac) StormFaciesGrid q(fn); else StormContGrid q(fn); }), "a file whose erosion surface is missing was accepted"); spit(sf, keep); }
    } catch (std::exception& x) { M->fail(string("raised: ") + x.what()); }
    for (auto s : {"", "_top", "_bot", "_erosion_top", "_erosion_bot"}) remove((fn + s).c_str());
  }
  M->part = "facies consistency";
  for (int nb = 0; nb <= 3; nb++) for (int nf = 0; nf <= 3; nf++) for (int body = -2; body <= 4; body++) for (int fc = -1; fc <= 3; fc++) {
    if (!M->next()) continue;
    M->begin("%d bodies, %d facies, cell of body %d, last body of facies %d", nb, nf, body, fc); M->state(); M->step(); StormFaciesGrid g(Volume(0, 0, 0, 1, 1, 1, 0), 1, 2, 1); g.SetMissingCode(-2);
    g(0) = -2; g(1) = body; vector<int> bf(nb, 0); if (nb) bf.back() = fc; vector<string> fnm; for (int k = 0; k < nf; k++) fnm.push_back("f"); g.SetBodyFacies(bf); g.SetFaciesNames(fnm);
    bool ok = (body == -2 || (body >= 0 && body < nb)); for (int c : bf) ok = ok && c >= 0 && c < nf;
    M->check(raises([&] { g.CheckConsistency(); }) == !ok && raises([&] { g.WriteToFile(fn); }) == !ok, "the grid is %s, but CheckConsistency or WriteToFile disagree", ok ? "consistent" : "inconsistent");
  }
  M->part = "other files";
  for (int pl = 0; pl < 2; pl++) for (int asc = 0; asc < 2; asc++) if (M->next()) {
    M->begin("predefined header, plain %d, ASCII %d", pl, asc); M->state(); StormContGrid g(Volume(0, 0, 0, 1, 1, 1, 0), 3, 4, 1); for (int k = 0; k < 12; k++) g(k) = k; g.SetFormat(asc ? StormContGrid::STORM_ASCII : StormContGrid::STORM_BINARY); g.WriteToFile(fn, pl ? "" : "my header\n", pl);
    string t = slurp(fn), e = pl ? "" : "my header\n"; if (asc) for (int k = 0; k < 12; k++) e += to_string(k) + " " + (k == 9 ? "\n" : ""); else for (int k = 0; k < 12; k++) e += f32(k); if (!pl) e += "0";
    M->check(t == e, "the file differs");
  }
  if (M->next()) {
    M->begin("Crava file"); M->state(); StormContGrid g(Volume(10, 20, 0, 6, 8, 1, 0.25), 2, 4, 3); for (int k = 0; k < 24; k++) g(k) = k * 0.5f; g.WriteCravaFile(fn, 1, 2, 3, 4, 5, 6);
    string e = "crava_fftgrid_binary\n" + f64(10) + f64(20) + f64(3) + f64(2) + be(2) + be(4); for (int k = 1; k <= 6; k++) e += f64(k); e += f64(0.25) + be(2) + be(4) + be(3); for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 3; k++) e += f32(g(i, j, k));
    M->check(slurp(fn) == e, "the file differs from its layout");
  }
  for (int nm = 0; nm < 3; nm++) for (double ang : {0.0, 0.4}) for (int nz = 1; nz <= 3; nz++) if (M->next()) {
    M->begin("Sgri grid, file name %d, angle %g, %d layers", nm, ang, nz); M->state(); M->step(); string d = M->scratch + "/sg", h = d + "/g.sgrh"; if (system(("mkdir -p " + d).c_str())) abort(); int nx = 2, ny = 3;
    spit(h, mc::fmt("NORSAR General Grid Format v1.0\n3\nX\nY\nZ\nv\n1\nlabel\n1 1 1\n%d %d %d\n10 5 2\n100 200 50\n%g 0\n-99\n%s\n0\n", nx, ny, nz, ang, nm == 0 ? "" : nm == 1 ? "g.bin" : "g.bin the data"));
    string b; for (int k = 0; k < nx * ny * nz; k++) b += f32(k * 1.5f); string bf = nm ? d + "/g.bin" : d + "/g.Sgri"; spit(bf, b);
    try {
      StormContGrid g(h); M->check((int)g.GetNI() == nx && (int)g.GetNJ() == ny && (int)g.GetNK() == nz && close_(g.GetXMin(), 95) && close_(g.GetYMin(), 197.5) && close_(g.GetLX(), 20) && close_(g.GetLY(), 15) && close_(g.GetAngle(), ang) && close_(g.GetTopSurface().GetZ(0, 0), 49) && close_(g.GetBotSurface().GetZ(0, 0), 49 + 2 * nz) && g.GetMissingCode() == -99, "geometry differs from the header's");
      for (int k = 0; k < nx * ny * nz; k++) if (!M->check(g(k) == k * 1.5f, "cell %d is %g", k, g(k))) break;
    } catch (std::exception& x) { M->fail(string("raised: ") + x.what()); }
    spit(bf, b.substr(1)); M->check(raises([&] { StormContGrid g(h); }), "a truncated binary file was accepted"); remove(bf.c_str()); M->check(raises([&] { StormContGrid g(h); }), "a missing binary file was accepted");
  }
  for (auto t : {"", "storm_petro\n", "storm_petro_binary\n\nx m -999\n\nv\n\n0 1 0 1 0 1 0 0\n1 0\n\n1 1 1\n", "STORM\n"}) if (M->next()) { M->begin("bad file %s", t); spit(fn, string(t) + f32(1) + "0"); M->check(raises([&] { StormContGrid g(fn); }) && raises([&] { StormFaciesGrid g(fn); }), "accepted"); }
  if (M->next()) { M->begin("missing file"); M->check(raises([&] { StormContGrid g(M->scratch + "/none"); }) && raises([&] { StormFaciesGrid g(M->scratch + "/none"); }), "accepted"); }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv); M = &m;
  volume_geometry();
  volume_histories();
  lookups();
  files();
  m.finish();
}
