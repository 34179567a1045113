// C16: points, lines, planes, boxes, triangles, polygons, transformations and 1D interpolation, on every configuration of
// small integer lattices, against exact (integer or minimisation) oracles.
#include "mc.hpp"
#include <algorithm>
#include <nrlib/exception/exception.hpp>
#include <nrlib/geometry/bilinearsurface.hpp>
#include <nrlib/geometry/box.hpp>
#include <nrlib/geometry/interpolation.hpp>
#include <nrlib/geometry/line.hpp>
#include <nrlib/geometry/plane.hpp>
#include <nrlib/geometry/point.hpp>
#include <nrlib/geometry/polygon.hpp>
#include <nrlib/geometry/transformation.hpp>
#include <nrlib/geometry/triangle.hpp>
using namespace std;
using namespace NRLib;
static mc::MC* M;

struct V { double x, y, z; };
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V operator*(double t, V a) { return {t * a.x, t * a.y, t * a.z}; }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(V a) { return sqrt(dot(a, a)); }
static Point P(V a) { return Point(a.x, a.y, a.z); }
static V U(const Point& p) { return {p.x, p.y, p.z}; }
static bool near(V a, V b, double e = 1e-9) { return len(a - b) <= e * (1 + len(b)); }
static string s(V a) { return mc::fmt("(%g,%g,%g)", a.x, a.y, a.z); }
static vector<V> lat(int x0, int x1, int y0, int y1, int z0, int z1) { vector<V> v; for (int z = z0; z <= z1; z++) for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) v.push_back({double(x), double(y), double(z)}); return v; }

static void points() {
  M->part = "point";
  auto L = M->thorough() ? lat(-3, 3, -3, 3, -3, 3) : lat(-2, 2, -2, 2, -2, 2);
  for (V a : L) for (V b : L) {
    if (!M->next()) continue;
    M->begin("a=%s b=%s", s(a).c_str(), s(b).c_str()); M->state();
    Point p = P(a), q = P(b), r;
    M->check(near(U(p + q), a + b) && near(U(p - q), a - b) && near(U(-p), -1 * a) && near(U(p * 1.5), 1.5 * a) && near(U(1.5 * p), 1.5 * a) && near(U(p / 4), 0.25 * a), "sum, difference, negation or scaling is wrong");
    r = p; V ret = U(r += q); M->check(near(U(r), a + b) && near(ret, a + b), "+=");
    r = p; ret = U(r -= q); M->check(near(U(r), a - b) && near(ret, a - b), "-=");
    r = p; ret = U(r *= 3); M->check(near(U(r), 3 * a) && near(ret, 3 * a), "*=");
    r = p; ret = U(r /= 8); M->check(near(U(r), 0.125 * a) && near(ret, 0.125 * a), "/=");
    M->near(p.Dot(q), dot(a, b), 1e-12, "Dot"); M->near(Dot(p, q), dot(a, b), 1e-12, "Dot (free)");
    M->check(near(U(p.Cross(q)), cross(a, b)) && near(U(Cross(p, q)), cross(a, b)), "Cross");
    M->near(p.GetDistance(q), len(a - b), 1e-12, "GetDistance"); M->near(p.GetDistanceXY(q), hypot(a.x - b.x, a.y - b.y), 1e-12, "GetDistanceXY"); M->near(p.Norm(), len(a), 1e-12, "Norm"); M->near(Norm(p), len(a), 1e-12, "Norm (free)");
    bool eq = a.x == b.x && a.y == b.y && a.z == b.z;
    M->check((p == q) == eq && (p != q) == !eq, "operator== / !=");
    V n = len(a) > 0 ? (1 / len(a)) * a : a; r = p; r.Normalize(); M->check(near(U(r), n) && near(U(p.GetNormalized()), n), "normalisation");
    double ang = (len(a) > 0 && len(b) > 0) ? atan2(len(cross(a, b)), dot(a, b)) : 0; double got = p.GetAngle(q);
    M->check(fabs(got - ang) < 1e-7, "GetAngle is %.17g, the angle is %.17g", got, ang);
    r = P(0.1 * a); got = r.GetAngle(P(0.3 * b)); M->check(fabs(got - ang) < 1e-7, "GetAngle of scaled vectors is %.17g, the angle is %.17g", got, ang);
    for (double tol : {1e-6, 0.6}) {
      bool e = true; for (auto c : {make_pair(a.x, b.x), make_pair(a.y, b.y), make_pair(a.z, b.z)}) e = e && fabs(c.first - c.second) <= tol * max(1.0, fabs(c.second));
      M->check(p.IsEqual(q, tol) == e, "IsEqual with tolerance %g", tol);
    }
    M->check(P(a).IsEqual(P(a + V{5e-7, -5e-7, 5e-7})) && !P(a).IsEqual(P(a + V{0, 0, 1e-5})) && !P(a).IsEqual(P(a + V{0, 1e-5, 0})) && !P(a).IsEqual(P(a + V{1e-5, 0, 0})), "IsEqual with the default tolerance");
    r = p; Point t = q; r.Swap(t); M->check(near(U(r), b) && near(U(t), a), "Swap");
    r.SetPoint(a.x, a.y, a.z); M->check(r == p, "SetPoint");
    ostringstream o; o << p; M->check(o.str() == mc::fmt("( %g, %g, %g )", a.x, a.y, a.z), "operator<<");
    istringstream in(mc::fmt("%g %g %g", b.x, b.y, b.z)); in >> r; M->check(r == q, "operator>>");
    for (V c : {V{1, 0, 0}, V{-1, 2, 5}, V{0.5, 0.5, 0}}) {
      double lf = P(c).LeftFromLineXY(p, q), w = (b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y);
      M->check((lf > 0) == (w > 0) && (lf < 0) == (w < 0), "LeftFromLineXY of %s", s(c).c_str());
      vector<Point> l = {p, P(c), q}; M->near(Point::CalculatePointVectorLength(l), len(a - c) + len(c - b), 1e-12, "CalculatePointVectorLength");
      M->check(P(c).IsInList(l) && p.IsInList(l) && q.IsInList(l) && P(V{9, 9, 9}).IsInList(l) == false && p.IsInList({q}) == eq && !p.IsInList({}), "IsInList");
    }
    M->step(30);
  }
}

struct Ln { V p, q; bool e1, e2; V at(double t) const { return p + t * (q - p); } };
static double clampt(const Ln& l, double t) { if (l.e1 && t < 0) t = 0; if (l.e2 && t > 1) t = 1; return t; }
static double proj(const Ln& l, V x) { V d = l.q - l.p; double n = dot(d, d); return n == 0 ? 0 : clampt(l, dot(x - l.p, d) / n); }

static void lines() {
  M->part = "line and point";
  auto A = lat(0, 2, 0, 2, 0, 2), Q = M->thorough() ? lat(-2, 4, -2, 4, -1, 3) : lat(-1, 3, -1, 3, -1, 3);
  for (V p : A) for (V q : A) {
    if (!M->next()) continue;
    for (int f = 0; f < 4; f++) {
      Ln l{p, q, (f & 1) == 0, (f & 2) == 0}; bool deg = len(q - p) == 0;
      if (deg && f) continue;
      M->begin("line %s-%s ends %d%d", s(p).c_str(), s(q).c_str(), l.e1, l.e2); M->state();
      Line L(P(p), P(q), l.e1, l.e2), L2; L2.SetPt(P(p), P(q), l.e1, l.e2);
      Point t; M->check(L.GetPt1() == P(p) && L.GetPt2() == P(q) && L.IsEndPt1() == l.e1 && L.IsEndPt2() == l.e2 && L2.GetPt1() == P(p) && L2.GetPt2() == P(q) && L2.IsEndPt1() == l.e1 && L2.IsEndPt2() == l.e2, "accessors");
      M->check(L.GetPt1(t) == l.e1 && t == P(p) && L.GetPt2(t) == l.e2 && t == P(q), "GetPt1/GetPt2");
      if (f == 0) M->near(L.GetLength(), len(q - p), 1e-12, "GetLength"); else M->check(std::isinf(L.GetLength()), "an unbounded line has finite length");
      M->check(near(U(L.GetDir()), deg ? V{0, 0, 0} : (1 / len(q - p)) * (q - p)), "GetDir");
      Line K = f == 3 ? Line::InfiniteLine(P(p), P(q - p)) : f == 2 ? Line::Ray(P(p), P(q - p)) : Line::Segment(P(p), P(q));
      if (f != 1) M->check(K.GetPt1() == P(p) && K.GetPt2() == P(q) && K.IsEndPt1() == l.e1 && K.IsEndPt2() == l.e2, "named constructors");
      if (f && p.x == q.x && p.y == q.y) {} else { Line X = L.LineXY(); M->check(U(X.GetPt1()).z == 0 && U(X.GetPt2()).z == 0 && near(U(X.GetPt1()), V{p.x, p.y, 0}) && near(U(X.GetPt2()), V{q.x, q.y, 0}) && X.IsEndPt1() == l.e1 && X.IsEndPt2() == l.e2, "LineXY"); }
      for (V x : Q) {
        double tt = proj(l, x), d = len(x - l.at(tt));
        M->check(near(U(L.FindProjection(P(x))), l.at(tt)), "projection of %s is %s, nearest point %s", s(x).c_str(), s(U(L.FindProjection(P(x)))).c_str(), s(l.at(tt)).c_str());
        M->near(L.FindDistance(P(x)), d, 1e-9, "FindDistance");
        if (!deg) M->near(L.FindParameter(P(x)), dot(x - p, q - p) / dot(q - p, q - p), 1e-9, "FindParameter");
        M->check(L.IsPointOnLine(P(x)) == (d < 1e-7), "IsPointOnLine of %s at distance %g", s(x).c_str(), d);
        M->check(L.IsPointOnLine(P(x), 1.25) == (d < 1.25), "IsPointOnLine within 1.25 of %s at distance %g", s(x).c_str(), d);
        bool right; double c = cross(x - p, q - p).z, dd = L.FindDistanceAndSide(P(x), right);
        M->near(dd, d, 1e-9, "FindDistanceAndSide"); if (c != 0) M->check(right == (c > 0), "%s is on the %s side but reported otherwise", s(x).c_str(), c > 0 ? "right" : "left");
        // the same configuration in other units: powers of two, so the arithmetic scales exactly
        for (double sc : {ldexp(1, -14), ldexp(1, 17)}) {
          Line S(P(sc * p), P(sc * q), l.e1, l.e2);
          M->check(near((1 / sc) * U(S.FindProjection(P(sc * x))), l.at(tt)) && fabs(S.FindDistance(P(sc * x)) / sc - d) < 1e-9, "projection of %s in units of %g", s(x).c_str(), sc);
          if (!deg) M->check(fabs(S.FindParameter(P(sc * x)) - dot(x - p, q - p) / dot(q - p, q - p)) < 1e-9, "FindParameter in units of %g", sc);
          bool rs; S.FindDistanceAndSide(P(sc * x), rs); if (c != 0) M->check(rs == (c > 0), "side of %s in units of %g", s(x).c_str(), sc);
        }
        M->step(5);
      }
    }
  }
  for (int k = -12; k <= 12; k++) { if (!M->next()) continue; M->begin("infinite line by angle %d*15", k); Line L = Line::InfiniteLine(P(V{1, 2, 3}), k * M_PI / 12); M->check(near(U(L.GetDir()), V{cos(k * M_PI / 12), sin(k * M_PI / 12), 0}) && !L.IsEndPt1() && !L.IsEndPt2() && L.GetPt1() == P(V{1, 2, 3}), "InfiniteLine(start, angle)"); }
}

static double best(const Ln& a, const Ln& b) {   // minimum over the parameter rectangle: interior critical point or an edge of it
  V u = a.q - a.p, v = b.q - b.p, w = a.p - b.p; double r = 1e300;
  auto tryS = [&](double t) { V y = b.at(t); r = min(r, len(a.at(proj(a, y)) - y)); };
  auto tryT = [&](double t) { V y = a.at(t); r = min(r, len(b.at(proj(b, y)) - y)); };
  if (b.e1) tryS(0); if (b.e2) tryS(1); if (a.e1) tryT(0); if (a.e2) tryT(1);
  double A = dot(u, u), B = dot(u, v), C = dot(v, v), D = A * C - B * B;
  if (D > 0.5) { double e = dot(v, w), d = dot(u, w), sc = (B * e - C * d) / D, tc = (A * e - B * d) / D; if (clampt(a, sc) == sc && clampt(b, tc) == tc) r = min(r, len(a.at(sc) - b.at(tc))); }
  else if (A == 0) tryT(0); else if (C == 0) tryS(0);
  else { tryS(0); tryT(0); }                     // parallel
  return r;
}
static void pairs() {
  M->part = "two lines";
  auto A = M->thorough() ? lat(0, 2, 0, 2, 0, 2) : lat(0, 2, 0, 2, 0, 1);
  V o = A[0];
  for (V p : A) for (V q : A) {
    if (!M->next()) continue;
    M->begin("first line %s-%s", s(p).c_str(), s(q).c_str());
    string head = mc::MC::cur();
    for (V x : A) for (V y : A) for (int f = 0; f < 16; f++) {
      Ln a{p, q, (f & 1) == 0, (f & 2) == 0}, b{x, y, (f & 4) == 0, (f & 8) == 0};
      if ((len(q - p) == 0 && (f & 3)) || (len(y - x) == 0 && (f & 12))) continue;
      M->state(); M->step(1);
      snprintf(mc::MC::cur() + head.size(), 2000, ", second %s-%s, ends %d%d %d%d", s(x).c_str(), s(y).c_str(), a.e1, a.e2, b.e1, b.e2);
      Line L(P(p), P(q), a.e1, a.e2), K(P(x), P(y), b.e1, b.e2); Point m, n;
      double d = L.FindDistance(K, m, n), w = best(a, b);
      M->check(fabs(d - w) < 1e-9 && fabs(L.FindDistance(K) - w) < 1e-9, "distance %.12g, the lines are %.12g apart", d, w);
      M->check(fabs(len(U(m) - U(n)) - w) < 1e-9 && len(U(m) - a.at(proj(a, U(m)))) < 1e-9 && len(U(n) - b.at(proj(b, U(n)))) < 1e-9, "nearest points %s and %s are not on the lines or not nearest", s(U(m)).c_str(), s(U(n)).c_str());
      if (f % 5 == 0 && (M->thorough() || f == 0)) for (double sc : {ldexp(1, -14), ldexp(1, 17)}) {
        Line S(P(sc * p), P(sc * q), a.e1, a.e2), R(P(sc * x), P(sc * y), b.e1, b.e2); Point m2, n2;
        M->check(fabs(S.FindDistance(R, m2, n2) / sc - w) < 1e-9 && fabs(len(U(m2) - U(n2)) / sc - w) < 1e-9, "distance in units of %g", sc);
        for (int inf = 0; inf < 2; inf++) {
          double den = (q.x - p.x) * (y.y - x.y) - (q.y - p.y) * (y.x - x.x), t = ((x.x - p.x) * (y.y - x.y) - (x.y - p.y) * (y.x - x.x)) / den, r = ((x.x - p.x) * (q.y - p.y) - (x.y - p.y) * (q.x - p.x)) / den;
          Point z; bool hit = S.IntersectXY(R, z, inf == 1);
          if (den == 0) { M->check(!hit, "IntersectXY finds a point on parallel lines in units of %g", sc); continue; }
          if (fabs(r) > 1e-9 && fabs(r - 1) > 1e-9 && (inf || (fabs(t) > 1e-9 && fabs(t - 1) > 1e-9))) M->check(hit == (r > 0 && r < 1 && (inf || (t > 0 && t < 1))), "IntersectXY (infinite=%d) is %d in units of %g, parameters %g and %g", inf, hit, sc, t, r);
          if (hit) M->check(near((1 / sc) * U(z), V{p.x + t * (q.x - p.x), p.y + t * (q.y - p.y), 0}), "IntersectXY point in units of %g", sc);
        }
      }
      V c = cross(q - p, y - x); bool par = len(c) == 0;
      M->check(L.IsParallel(K, 1e-9) == par, "IsParallel"); if (par) { V dr = q - p, d2 = y - x; auto ax = [](V v) { return (v.x != 0) + (v.y != 0) + (v.z != 0) <= 1; }; if (ax(dr) && ax(d2)) M->check(L.IsParallel(K), "IsParallel with its default tolerance is false for parallel lines"); }
      else M->check(!L.IsParallel(K), "IsParallel is true for lines that are not");
      M->check(L.IsOverLapping(K) == (par && w < 1e-7), "IsOverLapping, distance %g parallel %d", w, par);
      for (int inf = 0; inf < 2; inf++) {
        Point z(7, 7, 7); bool hit = L.IntersectXY(K, z, inf == 1);
        double den = (q.x - p.x) * (y.y - x.y) - (q.y - p.y) * (y.x - x.x);
        if (den == 0) { M->check(!hit && U(z).x == 0 && U(z).y == 0 && U(z).z == 0, "IntersectXY finds a point on parallel lines"); continue; }
        double t = ((x.x - p.x) * (y.y - x.y) - (x.y - p.y) * (y.x - x.x)) / den, r = ((x.x - p.x) * (q.y - p.y) - (x.y - p.y) * (q.x - p.x)) / den;
        bool in = r >= 0 && r <= 1 && (inf || (t >= 0 && t <= 1)), edge = (fabs(r) < 1e-9 || fabs(r - 1) < 1e-9 || (!inf && (fabs(t) < 1e-9 || fabs(t - 1) < 1e-9)));
        bool axis = (q.x == p.x || q.y == p.y) && (y.x == x.x || y.y == x.y);
        if (!edge || axis) M->check(hit == in, "IntersectXY (infinite=%d) is %d, parameters %g and %g", inf, hit, t, r);
        if (hit) M->check(near(U(z), V{p.x + t * (q.x - p.x), p.y + t * (q.y - p.y), 0}), "IntersectXY point"); else M->check(U(z).x == 0 && U(z).y == 0 && U(z).z == 0, "IntersectXY without intersection leaves %s", s(U(z)).c_str());
      }
    }
  }
}

static bool axisal(V v) { return (v.x != 0) + (v.y != 0) + (v.z != 0) == 1; }
static void planes() {
  M->part = "plane";
  auto N = lat(-1, 2, -1, 2, -1, 2), R = lat(0, 1, 0, 1, 0, 1), A = lat(0, 2, 0, 2, 0, 1);
  for (V n : N) for (V r : R) {
    if (len(n) == 0 || !M->next()) continue;
    Plane pl(P(r), P(n)); V u = (1 / len(n)) * n;
    M->begin("plane at %s normal %s", s(r).c_str(), s(n).c_str()); string head = mc::MC::cur(); M->state();
    M->check(near(U(pl.GetNormalVector()), u) && pl.GetRefPoint() == P(r), "accessors");
    for (V x : A) {
      double d = dot(x - r, u); M->check(near(U(pl.FindProjection(P(x))), x - d * u), "projection of %s", s(x).c_str()); M->near(pl.FindDistance(P(x)), fabs(d), 1e-9, "FindDistance");
      M->check(pl.IsPointOnPlane(P(x)) == (fabs(d) < 1e-9) && pl.IsPointOnPlane(P(x), 0.71) == (fabs(d) <= 0.71), "IsPointOnPlane of %s at %g", s(x).c_str(), d);
      if (dot(x - r, n) != 0) M->check(pl.IsOnPositiveSide(P(x)) == (d > 0), "IsOnPositiveSide of %s", s(x).c_str());
    }
    for (V p : A) for (V q : A) for (int f = 0; f < 4; f++) {
      if (len(q - p) == 0 && f) continue;
      snprintf(mc::MC::cur() + head.size(), 2000, ", line %s-%s ends %d%d", s(p).c_str(), s(q).c_str(), !(f & 1), !(f & 2)); M->step(1);
      Line L(P(p), P(q), !(f & 1), !(f & 2)); double den = dot(q - p, n), num = dot(r - p, n); Point z;
      M->check(pl.IsParallel(L, 1e-9) == (den == 0), "IsParallel"); if (axisal(n)) M->check(pl.IsParallel(L) == (den == 0), "IsParallel with its default tolerance");
      bool hit = pl.FindIntersection(L, z, 1e-9);
      if (den == 0) { M->check(!hit, "a parallel line intersects"); if (axisal(n)) M->check(!pl.FindIntersection(L, z), "a parallel line intersects"); continue; }
      double t = num / den; bool in = (f & 1 || t >= 0) && (f & 2 || t <= 1);
      if (axisal(n) || (t != 0 && t != 1)) M->check(hit == in && pl.FindIntersection(L, z) == in, "FindIntersection is %d for parameter %g", hit, t);
      if (in && hit) M->check(near(U(z), p + t * (q - p)), "intersection %s", s(U(z)).c_str());
      M->check(near(U(pl.FindIntersection(L)), p + t * (q - p)), "intersection with the extended line");
    }
    mc::MC::cur()[head.size()] = 0;
    for (V n2 : N) for (V r2 : {V{0, 0, 0}, V{1, -2, 3}}) {
      if (len(n2) == 0) continue; V c = cross(n, n2); Plane p2(P(r2), P(n2)); M->step(1);
      if (len(c) == 0) { if (axisal(n)) M->check(pl.FindIntersection(p2).GetLength() == 0, "parallel planes intersect"); continue; }
      Line k = pl.FindIntersection(p2);
      M->check(!k.IsEndPt1() && !k.IsEndPt2() && len(cross(U(k.GetDir()), c)) < 1e-9 * len(c) && fabs(dot(U(k.GetPt1()) - r, u)) < 1e-9 && fabs(dot(U(k.GetPt1()) - r2, n2)) < 1e-9, "line of intersection with the plane at %s normal %s", s(r2).c_str(), s(n2).c_str());
    }
  }
  for (V a : A) for (V b : A) for (V c : A) {
    V n = cross(a - b, a - c); if (len(n) == 0 || !M->next()) continue;
    M->begin("plane through %s %s %s", s(a).c_str(), s(b).c_str(), s(c).c_str()); Plane pl(P(a), P(b), P(c)); M->step(1);
    M->check(near(U(pl.GetNormalVector()), (1 / len(n)) * n) && pl.FindDistance(P(a)) < 1e-9 && pl.FindDistance(P(b)) < 1e-9 && pl.FindDistance(P(c)) < 1e-9, "the plane misses its points or its normal");
    BilinearSurface bs(P(a), P(b), P(c), P(V{3, 1, -1})), b2, b3; b2.SetCornerPoints(P(a), P(b), P(c), P(V{3, 1, -1})); V dd{3, 1, -1}; b3.SetPtVector(P(a), P(b - a), P(dd - a), P(c - dd - b + a));
    for (double u : {-0.5, 0.0, 0.25, 1.0}) for (double v : {0.0, 0.5, 1.0, 2.0}) { V w = ((1 - u) * (1 - v)) * a + (u * (1 - v)) * b + (u * v) * c + ((1 - u) * v) * dd; M->check(near(U(bs.GetPoint(u, v)), w) && near(U(b2.GetPoint(u, v)), w) && near(U(b3.GetPoint(u, v)), w), "bilinear surface at (%g,%g)", u, v); }
  }
}

static void boxes() {
  M->part = "box";
  auto Q = lat(-1, 3, -1, 3, -1, 3); vector<V> LN; for (int x = 1; x <= 2; x++) for (int y = 1; y <= 2; y++) for (int z = 1; z <= 2; z++) LN.push_back({double(x), double(y), double(z)});
  struct Rot { V r; double a; };
  for (V ln : LN) for (Rot ro : {Rot{{0, 0, 0}, 0}, Rot{{0, 0, 0}, 0}, Rot{{1, -2, 0.5}, 0.6}, Rot{{-1, 3, 2}, -2.2}, Rot{{0, 0, 0}, M_PI / 2}}) {
    static int ctor = 0; ctor++;
    bool plain = ro.a == 0;
    auto g = [&](V l) { return V{l.x * cos(ro.a) - l.y * sin(ro.a) + ro.r.x, l.x * sin(ro.a) + l.y * cos(ro.a) + ro.r.y, l.z + ro.r.z}; };
    Box b = (plain && ctor % 2) ? Box(0, 0, 0, ln.x, ln.y, ln.z) : Box(P(ro.r), ln.x, ln.y, ln.z, ro.a);
    for (V p : Q) {
      if (!M->next()) continue;
      M->begin("box %s at %s angle %g, point %s", s(ln).c_str(), s(ro.r).c_str(), ro.a, s(p).c_str()); string head = mc::MC::cur(); M->state();
      M->check(b.GetXRef() == ro.r.x && b.GetYRef() == ro.r.y && b.GetZRef() == ro.r.z && b.GetLX() == ln.x && b.GetLY() == ln.y && b.GetLZ() == ln.z && b.GetAngle() == ro.a, "accessors");
      for (int c = 0; c < 8; c++) { V w = g(V{c & 1 ? ln.x : 0, c & 2 ? ln.y : 0, c & 4 ? ln.z : 0}); M->check(near(U(b.GetCorner(c & 1, (c >> 1) & 1, (c >> 2) & 1)), w) && near(U(b.GetCorner((c & 1) != 0, (c & 2) != 0, (c & 4) != 0)), w), "corner %d", c); }
      Box e, e2 = b; e.Swap(e2); M->check(e.GetLX() == ln.x && e.GetLY() == ln.y && e.GetLZ() == ln.z && e.GetAngle() == ro.a && e.GetXRef() == ro.r.x && e.GetYRef() == ro.r.y && e.GetZRef() == ro.r.z && e2.GetLX() == 0 && e2.GetLZ() == 0 && e2.GetAngle() == 0 && e2.GetYRef() == 0, "Swap");
      for (V off : {V{0, 0, 0}, V{0.25, 0.4, 0.3}}) {
        V x = p + off; auto ex = [](double v, double l) { return v < 0 ? -v : v > l ? v - l : 0; };
        double out = len(V{ex(x.x, ln.x), ex(x.y, ln.y), ex(x.z, ln.z)}); bool in = out == 0;
        double d = in ? min(min(min(x.x, ln.x - x.x), min(x.y, ln.y - x.y)), min(x.z, ln.z - x.z)) : out;
        if (plain || off.x > 0) M->check(b.IsInside(P(g(x))) == in, "IsInside of local %s", s(x).c_str());
        M->check(fabs(b.FindDistance(P(g(x))) - d) < 1e-9, "distance of local %s is %g, should be %g", s(x).c_str(), b.FindDistance(P(g(x))), d);
      }
      for (V q : Q) for (int f = 0; f < 4; f++) {
        if (p.x == q.x && p.y == q.y && p.z == q.z) continue;
        Ln l{p, q, !(f & 1), !(f & 2)}; M->step(1);
        // exact crossing points with the sides not parallel to the line
        struct C { V x; bool sure; }; vector<C> cs;
        V d = q - p; double pp[3] = {p.x, p.y, p.z}, dv[3] = {d.x, d.y, d.z}, lv[3] = {ln.x, ln.y, ln.z};
        for (int a = 0; a < 3; a++) for (int sd = 0; sd < 2; sd++) {
          if (dv[a] == 0) continue;
          double num = (sd ? lv[a] : 0) - pp[a], t = num / dv[a]; if (clampt(l, t) != t) continue;
          bool in = true, edge = false; double k = fabs(dv[a]); bool dy = k == 1 || k == 2 || k == 4;
          for (int c = 0; c < 3; c++) if (c != a) { double v = pp[c] * dv[a] + num * dv[c], hi = lv[c] * dv[a]; double sg = dv[a] > 0 ? 1 : -1; v *= sg; hi *= sg; if (v < 0 || v > hi) in = false; if (v == 0 || v == hi) edge = true; }
          if (!in) continue;
          bool endp = (l.e1 && num == 0) || (l.e2 && num == dv[a]);
          bool sure = plain ? (dy || !edge) : (!edge && !endp);
          V x = l.at(t); bool dup = false; for (auto& c : cs) if (len(c.x - x) < 1e-9) { dup = true; c.sure = c.sure || sure; } if (!dup) cs.push_back({x, sure});
        }
        if (!plain) { bool amb = false; for (auto& c : cs) if (!c.sure) amb = true; for (int a = 0; a < 3; a++) if (dv[a] == 0 && (pp[a] == 0 || pp[a] == lv[a])) amb = true; if (ro.a > 1.5 && ro.a < 1.6 && (d.x == 0 || d.y == 0)) amb = true; if (amb) continue; }
        snprintf(mc::MC::cur() + head.size(), 2000, ", line to %s ends %d%d", s(q).c_str(), l.e1, l.e2);
        auto got = b.FindIntersections(Line(P(g(p)), P(g(q)), l.e1, l.e2));
        M->check(got.size() <= 2, "%zu intersections", got.size());
        for (auto& x : got) { bool ok = false; for (auto& c : cs) ok = ok || near(U(x), g(c.x), 1e-8); M->check(ok, "%s is no intersection with the sides", s(U(x)).c_str()); }
        for (auto& c : cs) { int k = 0; for (auto& x : got) if (near(U(x), g(c.x), 1e-8)) k++; M->check(k <= 1 && (k == 1 || !c.sure), "intersection %s is returned %d times", s(g(c.x)).c_str(), k); }
      }
    }
  }
}

static void triangles() {
  M->part = "triangle";
  auto A = lat(0, 2, 0, 2, 0, 1);
  for (size_t ia = 0; ia < A.size(); ia++) for (size_t ib = 0; ib < A.size(); ib++) for (size_t ic = 0; ic < A.size(); ic++) {
    if (!M->thorough() && (ia % 2 || (ib * 5 + ic) % 3)) continue;
    if (!M->next()) continue;
    V a = A[ia], b = A[ib], c = A[ic]; V n = cross(b - a, c - a);
    M->begin("triangle %s %s %s", s(a).c_str(), s(b).c_str(), s(c).c_str()); string head = mc::MC::cur(); M->state();
    Triangle T(P(a), P(b), P(c)), T2; T2.SetCornerPoints(P(a), P(b), P(c));
    for (V p : A) for (V q : A) for (int f = 0; f < 4; f++) {
      if (len(q - p) == 0) continue;
      M->step(1); snprintf(mc::MC::cur() + head.size(), 2000, ", line %s-%s ends %d%d", s(p).c_str(), s(q).c_str(), !(f & 1), !(f & 2));
      Ln l{p, q, !(f & 1), !(f & 2)}; Line L(P(p), P(q), l.e1, l.e2); Point z, z2;
      bool h1 = T.FindIntersection(L, z, true), h0 = T2.FindIntersection(L, z2, false);
      double den = dot(n, q - p), num = dot(n, a - p); bool exact = true, in1 = false, in0 = false; V x{0, 0, 0};
      if (len(n) > 0 && den != 0) {
        double t = num / den; x = l.at(t);
        if (clampt(l, t) == t) {
          // barycentric coordinates times den * |n|^2, all integers
          V xs = den * p + num * (q - p) - den * a; double D = dot(n, n) * den, S = dot(cross(xs, c - a), n), R = dot(cross(b - a, xs), n);
          if (D < 0) { D = -D; S = -S; R = -R; }
          in1 = S >= 0 && R >= 0 && S + R <= D; in0 = S > 0 && R > 0 && S + R < D;
          auto p2 = [](double v) { v = fabs(v); while (v > 1.5) v /= 2; return v == 1; };
          exact = in1 == in0 || (p2(den) && p2(dot(n, n)));
        }
      }
      if (exact) M->check(h1 == in1 && h0 == in0, "FindIntersection is %d with and %d without edges, should be %d and %d", h1, h0, in1, in0);
      else M->check(!h1 || in1, "FindIntersection");
      if (h1 && in1) M->check(near(U(z), x), "intersection %s, should be %s", s(U(z)).c_str(), s(x).c_str());
      if (len(n) > 0 && len(b - a) > 0) {
        double w = in1 ? 0 : 1e300; Ln e[3] = {{a, b, true, true}, {b, c, true, true}, {a, c, true, true}};
        if (!in1) { for (auto& k : e) w = min(w, best(k, l)); for (int k = 0; k < 2; k++) if (k ? l.e2 : l.e1) { V y = k ? q : p; V xs = y - a; double D = dot(n, n), S = dot(cross(xs, c - a), n), R = dot(cross(b - a, xs), n); if (S >= 0 && R >= 0 && S + R <= D) w = min(w, fabs(dot(xs, n)) / len(n)); } }
        double d = T.FindNearestPoint(L, z); M->check(fabs(d - w) < 1e-7, "nearest distance %.12g, should be %.12g", d, w);
        V y = U(z); double dl = len(y - l.at(proj(l, y))); M->check(fabs(dl - w) < 1e-7, "nearest point %s is %g from the line", s(y).c_str(), dl);
        V xs = y - a; double D = dot(n, n), S = dot(cross(xs, c - a), n), R = dot(cross(b - a, xs), n); M->check(S > -1e-6 && R > -1e-6 && S + R < D + 1e-6 && fabs(dot(xs, n)) < 1e-6, "nearest point %s is not in the triangle", s(y).c_str());
      }
    }
  }
}

struct I2 { int x, y; };
static int crs(I2 a, I2 b, I2 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sgn(int v) { return (v > 0) - (v < 0); }
static bool onseg(I2 a, I2 b, I2 p) { return crs(a, b, p) == 0 && min(a.x, b.x) <= p.x && p.x <= max(a.x, b.x) && min(a.y, b.y) <= p.y && p.y <= max(a.y, b.y); }
static bool meet(I2 a, I2 b, I2 c, I2 d) { if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true; return sgn(crs(a, b, c)) * sgn(crs(a, b, d)) < 0 && sgn(crs(c, d, a)) * sgn(crs(c, d, b)) < 0; }
static bool simple(const vector<I2>& v) {
  int n = v.size();
  for (int i = 0; i < n; i++) { I2 a = v[i], b = v[(i + 1) % n], c = v[(i + 2) % n]; if (a.x == b.x && a.y == b.y) return false; if (onseg(a, b, c) || onseg(b, c, a)) return false; }
  for (int i = 0; i < n; i++) for (int j = i + 2; j < n; j++) { if (i == 0 && j == n - 1) continue; if (meet(v[i], v[(i + 1) % n], v[j], v[(j + 1) % n])) return false; }
  return true;
}
static void polygons() {
  M->part = "polygon";
  auto poly = [&](const vector<I2>& v, int k) {
      int n = int(v.size());
      string txt; for (auto& p : v) txt += mc::fmt("(%d,%d)", p.x, p.y);
      M->begin("%s", txt.c_str()); M->state();
      double ox = 10, oy = -7;
      Polygon pg(n / 2), pc; for (int i = 0; i < n; i++) { Point p(v[i].x + ox, v[i].y + oy, 2.5); if (i < n / 2) pg[i] = p; else pg.AddPoint(p); }
      Polygon small, large; for (int i = 0; i < n; i++) { small.AddPoint(Point(ldexp(v[i].x, -14), ldexp(v[i].y, -14), 0)); large.AddPoint(Point(ldexp(v[i].x, 17), ldexp(v[i].y, 17), 0)); }
      const Polygon& cp = pg; vector<Point> pts, clo; pg.GetPoints(pts); cp.GetPoints(clo, true);
      M->check(pg.GetSize() == size_t(n) && pts.size() == size_t(n) && clo.size() == size_t(n + 1) && clo[n] == pts[0], "GetSize/GetPoints");
      for (int i = 0; i < n; i++) M->check(cp(i) == pts[i] && pg(i) == pts[i] && cp[i] == pts[i] && pts[i] == Point(v[i].x + ox, v[i].y + oy, 2.5) && clo[i] == pts[i], "point %d", i);
      double x0, x1, y0, y1; pg.XYExtent(x0, x1, y0, y1); int a0 = 99, a1 = -99, b0 = 99, b1 = -99; for (auto& p : v) { a0 = min(a0, p.x); a1 = max(a1, p.x); b0 = min(b0, p.y); b1 = max(b1, p.y); }
      M->check(x0 == a0 + ox && x1 == a1 + ox && y0 == b0 + oy && y1 == b1 + oy, "XYExtent");
      vector<double> el(n); double circ = 0; for (int i = 0; i < n; i++) { el[i] = hypot(v[(i + 1) % n].x - v[i].x, v[(i + 1) % n].y - v[i].y); circ += el[i]; }
      M->near(pg.GetCircumferenceXY(), circ, 1e-12, "GetCircumferenceXY");
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double d = 0; for (int m = i; m % n != j; m++) d += el[m % n]; d = min(d, circ - d); M->near(pg.DistanceBetweenPointsXY(i, j), d, 1e-9, "DistanceBetweenPointsXY"); }
      for (int i = 0; i < n; i++) { int f = 0; while (v[f].x != v[i].x || v[f].y != v[i].y) f++; M->check(pg.FindPointPosition(pts[i]) == size_t(f), "FindPointPosition"); }
      M->check(pg.FindPointPosition(Point(1, 1, 1)) == size_t(n), "FindPointPosition of a point that is not there");
      // inside: parity of the crossings of a ray in a direction the code does not use
      for (int kind = 0; kind < 3; kind++) for (int qx = -1; qx <= 2 * k; qx++) for (int qy = -1; qy <= 2 * k; qy++) {
        I2 q{4 * qx + (kind == 0), 4 * qy + (kind < 2)}; // query (qx/2 + 1/8, qy/2 + 1/8) in units of 1/8; then straight below vertices, then on the level of vertices too
        bool on = false; int par = 0; I2 far{q.x + 1000003, q.y + 77771};
        for (int i = 0; i < n; i++) { I2 a{8 * v[i].x, 8 * v[i].y}, b{8 * v[(i + 1) % n].x, 8 * v[(i + 1) % n].y}; if (onseg(a, b, q)) on = true; long long c1 = (long long)(far.x - q.x) * (a.y - q.y) - (long long)(far.y - q.y) * (a.x - q.x), c2 = (long long)(far.x - q.x) * (b.y - q.y) - (long long)(far.y - q.y) * (b.x - q.x); long long d1 = (long long)(b.x - a.x) * (q.y - a.y) - (long long)(b.y - a.y) * (q.x - a.x), d2 = (long long)(b.x - a.x) * (far.y - a.y) - (long long)(b.y - a.y) * (far.x - a.x); if ((c1 > 0) != (c2 > 0) && (d1 > 0) != (d2 > 0)) par ^= 1; }
        if (!on) { double X = q.x / 8.0 + ox, Y = q.y / 8.0 + oy; M->check(pg.IsInsidePolygonXY(X, Y) == (par == 1) && pg.IsInsidePolygonXY(Point(X, Y, 0)) == (par == 1), "(%g,%g) should be %s", X - ox, Y - oy, par ? "inside" : "outside");
          M->check(small.IsInsidePolygonXY(ldexp(X - ox, -14), ldexp(Y - oy, -14)) == (par == 1) && large.IsInsidePolygonXY(ldexp(X - ox, 17), ldexp(Y - oy, 17)) == (par == 1), "(%g,%g) should be %s in other units", X - ox, Y - oy, par ? "inside" : "outside"); }
        M->step(1);
      }
      // lattice heights too (a vertex on the level of the query)
      for (int qy = 0; qy < k; qy++) for (int qx = -1; qx <= k; qx++) {
        I2 q{8 * qx + 3, 8 * qy}; bool on = false; for (int i = 0; i < n; i++) if (onseg({8 * v[i].x, 8 * v[i].y}, {8 * v[(i + 1) % n].x, 8 * v[(i + 1) % n].y}, q)) on = true;
        if (on || !simple(v)) continue;
        int up = 0; for (int i = 0; i < n; i++) { double ax = 8 * v[i].x, ay = 8 * v[i].y, bx = 8 * v[(i + 1) % n].x, by = 8 * v[(i + 1) % n].y; if ((ax > q.x) != (bx > q.x) && ay + (q.x - ax) * (by - ay) / (bx - ax) > q.y) up ^= 1; }
        M->check(pg.IsInsidePolygonXY(q.x / 8.0 + ox, q.y / 8.0 + oy) == (up == 1), "(%g,%g) should be %s", q.x / 8.0, q.y / 8.0, up ? "inside" : "outside");
      }
      if (!simple(v)) return;
      int area = 0; for (int i = 0; i < n; i++) area += v[i].x * v[(i + 1) % n].y - v[i].y * v[(i + 1) % n].x;
      M->check(pg.IsCounterclockwise() == (area > 0), "IsCounterclockwise is %d, the area is %g", pg.IsCounterclockwise(), area / 2.0);
      bool conv = true, strict = true; for (int i = 0; i < n; i++) { int c = crs(v[i], v[(i + 1) % n], v[(i + 2) % n]) * sgn(area); if (c < 0) conv = false; if (c <= 0) strict = false; }
      M->check(pg.IsConvex() == conv, "IsConvex is %d", pg.IsConvex());
      { Polygon h = pg; h.MakeConvex(); vector<Point> hp; h.GetPoints(hp);
        if (conv) M->check(hp.size() == size_t(n), "MakeConvex changed a convex polygon");
        size_t at = 0; bool sub = true; for (auto& p : hp) { while (at < pts.size() && !(pts[at] == p)) at++; if (at == pts.size()) sub = false; else at++; }
        M->check(sub, "MakeConvex does not keep points in order");
        int m = hp.size(); bool ok = m >= 3; for (int i = 0; ok && i < m; i++) { Point a = hp[i], b = hp[(i + 1) % m], c = hp[(i + 2) % m]; if (((b.x - a.x) * (c.y - b.y) - (b.y - a.y) * (c.x - b.x)) * sgn(area) < 0) ok = false; }
        M->check(ok, "MakeConvex leaves a polygon that is not convex");
        if (ok) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { Point a = hp[j], b = hp[(j + 1) % m]; M->check(((b.x - a.x) * (pts[i].y - a.y) - (b.y - a.y) * (pts[i].x - a.x)) * sgn(area) >= 0, "MakeConvex leaves point %d outside", i); } }
      if (strict && area > 0) {
        double best = 1e300; for (int i = 0; i < n; i++) { double ux = (v[(i + 1) % n].x - v[i].x) / el[i], uy = (v[(i + 1) % n].y - v[i].y) / el[i], lo = 1e9, hi = -1e9, w = 0; for (auto& p : v) { double t = p.x * ux + p.y * uy, h = (p.x - v[i].x) * -uy + (p.y - v[i].y) * ux; lo = min(lo, t); hi = max(hi, t); w = max(w, h); } best = min(best, (hi - lo) * w); }
        double x, y, l1, l2, an = 0; pg.MinEnclosingRectangle(x, y, l1, l2, an); M->step(1);
        M->check(fabs(l1 * l2 - best) < 1e-6, "MinEnclosingRectangle has area %g, smallest is %g", l1 * l2, best);
        for (auto& p : pts) { double t = (p.x - x) * cos(an) + (p.y - y) * sin(an), h = -(p.x - x) * sin(an) + (p.y - y) * cos(an); M->check(t > -1e-6 && t < l1 + 1e-6 && h > -1e-6 && h < l2 + 1e-6, "(%g,%g) is outside the rectangle at (%g,%g) %g x %g angle %g", p.x, p.y, x, y, l1, l2, an); }
        for (int qx = -2; qx <= k + 1; qx++) for (int qy = -2; qy <= k + 1; qy++) {
          I2 q{8 * qx + 3, 8 * qy + 2}; bool out = false, gen = true; for (int i = 0; i < n; i++) { int c = crs({8 * v[i].x, 8 * v[i].y}, {8 * v[(i + 1) % n].x, 8 * v[(i + 1) % n].y}, q); if (c < 0) out = true; if (c == 0) gen = false; }
          if (!out || !gen) continue; size_t r = 0, l = 0; Point Q(q.x / 8.0 + ox, q.y / 8.0 + oy, 0); pg.TangentPointPoly(Q, r, l);
          bool okr = true, okl = true; for (int i = 0; i < n; i++) { int cr = crs(q, {8 * v[r].x, 8 * v[r].y}, {8 * v[i].x, 8 * v[i].y}), cl = crs(q, {8 * v[l].x, 8 * v[l].y}, {8 * v[i].x, 8 * v[i].y}); if (cr < 0) okr = false; if (cl > 0) okl = false; }
          M->check(okr && okl, "tangents from (%g,%g) are points %zu and %zu", q.x / 8.0, q.y / 8.0, r, l);
        }
      }
  };
  auto run = [&](int n, int k) { mc::sequences(k * k, n, [&](const vector<int>& sq) { if (!M->next()) return; vector<I2> v; for (int i : sq) v.push_back({i % k, i / k}); poly(v, k); }); };
  // many corners: convex, combs and stairs, each from several starting corners and both ways round
  { vector<vector<I2>> big;
    vector<I2> d = {{3, 0}, {3, 1}, {2, 1}, {1, 1}, {1, 2}, {1, 3}, {0, 3}}, c, comb, stair, spike; I2 p{0, 0}; int Y[] = {1, 1, -1, -1}, X[] = {1, -1, -1, 1};
    p = {6, 0}; for (int q = 0; q < 4; q++) for (auto& e : d) { c.push_back(p); I2 g = q % 2 ? I2{e.y, e.x} : e; (void)X; (void)Y; int x = e.x, y = e.y; for (int t = 0; t < q; t++) { int z = x; x = -y; y = z; } (void)g; p = {p.x + x, p.y + y}; }
    int mx = 99, my = 99; for (auto& q : c) { mx = min(mx, q.x); my = min(my, q.y); } for (auto& q : c) { q.x -= mx; q.y -= my; }
    big.push_back(c);
    for (int i = 0; i < 12; i++) { comb.push_back({2 * i, 5}); comb.push_back({2 * i + 1, 5}); comb.push_back({2 * i + 1, 1 + i % 3}); comb.push_back({2 * i + 2, 1 + i % 3}); } comb.push_back({24, 0}); comb.push_back({0, 0}); big.push_back(comb);
    for (int i = 0; i < 10; i++) { stair.push_back({i, i}); stair.push_back({i + 1, i}); } stair.push_back({11, 10}); stair.push_back({10, 11}); for (int i = 10; i > 0; i--) { stair.push_back({i - 1, i + 1}); if (i > 1) stair.push_back({i - 1, i}); } big.push_back(stair);
    for (int i = 0; i < 9; i++) { spike.push_back({2 * i, 0}); spike.push_back({2 * i + 1, 3 + i % 4}); } spike.push_back({18, 0}); spike.push_back({9, 12}); big.push_back(spike);
    for (size_t b = 0; b < big.size(); b++) for (size_t st = 0; st < big[b].size(); st += 5) for (int rev = 0; rev < 2; rev++) { if (!M->next()) continue; vector<I2> v = big[b]; rotate(v.begin(), v.begin() + st, v.end()); if (rev) reverse(v.begin(), v.end()); poly(v, 26); } }
  run(3, 3); run(4, 3); run(5, 3); run(3, 4); run(4, 4); if (M->thorough()) { run(6, 3); run(5, 4); }
}

static void transforms() {
  M->part = "transformation";
  auto op = [](Transformation& t, int o) { switch (o) {
    case 0: t.TranslateX(1.5); break; case 1: t.TranslateY(-2); break; case 2: t.TranslateZ(0.25); break; case 3: t.StretchX(2); break; case 4: t.StretchY(0.5); break; case 5: t.StretchZ(-3); break;
    case 6: t.RotateX(0.3); break; case 7: t.RotateY(-1.1); break; case 8: t.RotateZ(2.5); break; case 9: t.ShearXY(0.5, -1); break; case 10: t.ShearXZ(2, 0.25); break; case 11: t.ShearYZ(-0.5, 3); break;
    case 12: t.MirrorXY(); break; case 13: t.MirrorXZ(); break; default: t.MirrorYZ(); } };
  auto ap = [](V& p, int o) { auto rot = [](double& a, double& b, double t) { double x = a * cos(t) - b * sin(t), y = a * sin(t) + b * cos(t); a = x; b = y; }; switch (o) {
    case 0: p.x += 1.5; break; case 1: p.y -= 2; break; case 2: p.z += 0.25; break; case 3: p.x *= 2; break; case 4: p.y *= 0.5; break; case 5: p.z *= -3; break;
    case 6: rot(p.y, p.z, 0.3); break; case 7: rot(p.z, p.x, -1.1); break; case 8: rot(p.x, p.y, 2.5); break; case 9: p.x += 0.5 * p.z; p.y -= p.z; break; case 10: p.x += 2 * p.y; p.z += 0.25 * p.y; break; case 11: p.y -= 0.5 * p.x; p.z += 3 * p.x; break;
    case 12: p.z = -p.z; break; case 13: p.y = -p.y; break; default: p.x = -p.x; } };
  for (int n = 0; n <= (M->thorough() ? 5 : 4); n++) mc::sequences(15, n, [&](const vector<int>& q) {
    if (!M->next()) return; string t; for (int o : q) t += mc::fmt(" %d", o); M->begin("operations%s", t.c_str()); M->state();
    Transformation T; for (int o : q) { op(T, o); M->step(1); }
    const Transformation C = T;
    for (V p : {V{0, 0, 0}, V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{2, -3, 5}}) { V w = p; for (int o : q) ap(w, o); Point x = P(p); C.Transform(x); M->check(near(U(x), w), "%s goes to %s instead of %s", s(p).c_str(), s(U(x)).c_str(), s(w).c_str()); }
  });
}

static double linref(const vector<double>& x, const vector<double>& y, double t) { size_t i = 0; while (i + 2 < x.size() && t > x[i + 1]) i++; return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i]); }
static double splref(const vector<double>& x, const vector<double>& y, double t) {
  int n = x.size(); vector<vector<double>> A(n, vector<double>(n + 1, 0)); A[0][0] = 1; A[n - 1][n - 1] = 1;
  for (int i = 1; i < n - 1; i++) { A[i][i - 1] = x[i] - x[i - 1]; A[i][i] = 2 * (x[i + 1] - x[i - 1]); A[i][i + 1] = x[i + 1] - x[i]; A[i][n] = 6 * ((y[i + 1] - y[i]) / (x[i + 1] - x[i]) - (y[i] - y[i - 1]) / (x[i] - x[i - 1])); }
  for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (fabs(A[r][c]) > fabs(A[p][c])) p = r; swap(A[c], A[p]); for (int r = 0; r < n; r++) if (r != c) { double f = A[r][c] / A[c][c]; for (int k = c; k <= n; k++) A[r][k] -= f * A[c][k]; } }
  vector<double> m(n); for (int i = 0; i < n; i++) m[i] = A[i][n] / A[i][i];
  int i = 0; while (i + 2 < n && t > x[i + 1]) i++;
  double h = x[i + 1] - x[i], a = (x[i + 1] - t) / h, b = (t - x[i]) / h; return a * y[i] + b * y[i + 1] + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) * h * h / 6;
}
static void interp() {
  M->part = "interpolation";
  for (double unit : {1.0, 1e-5, 1e5}) {
  double G[] = {0.25 * unit, 1 * unit, 3 * unit};
  for (int n = 2; n <= (M->thorough() ? 7 : 6); n++) mc::sequences(3, n - 1, [&](const vector<int>& g) {
    vector<double> x(1, -1.5 * unit); for (int i : g) x.push_back(x.back() + G[i]);
    vector<double> xo; for (int i = 0; i < n; i++) { xo.push_back(x[i]); if (i + 1 < n) for (double f : {0.01, 0.5, 0.9}) xo.push_back(x[i] + f * (x[i + 1] - x[i])); } xo.push_back(x[0] - 0.75 * unit); xo.push_back(x[n - 1] + 1.25 * unit); swap(xo[0], xo.back());
    for (int b = 0; b <= n; b++) {
      if (!M->next()) continue; vector<double> y(n, 0); if (b < n) y[b] = 2; else for (int i = 0; i < n; i++) y[i] = 3 + i * 1.7 - i * i * 0.6;
      string t; for (double v : x) t += mc::fmt(" %g", v); M->begin("x%s, data %d", t.c_str(), b); M->state();
      auto l = Interpolation::Interpolate1D(x, y, xo, "linear"), sp = Interpolation::Interpolate1D(x, y, xo, "spline"), se = Interpolation::Interpolate1D(x, y, xo, "spline", -77);
      M->check(l.size() == xo.size() && sp.size() == xo.size() && se.size() == xo.size(), "size");
      for (size_t i = 0; i < xo.size(); i++) { M->step(1); bool out = xo[i] < x[0] || xo[i] > x[n - 1]; M->near(l[i], linref(x, y, xo[i]), 1e-9, mc::fmt("linear at %g", xo[i]).c_str()); M->near(Interpolation::InterpolateBetweenPoints(x, y, xo[i]), linref(x, y, xo[i]), 1e-9, "InterpolateBetweenPoints");
        M->near(sp[i], splref(x, y, xo[i]), 1e-8, mc::fmt("spline at %g", xo[i]).c_str()); M->near(se[i], out ? -77 : splref(x, y, xo[i]), 1e-8, mc::fmt("spline with extrapolation value at %g", xo[i]).c_str()); }
      int th = 0; try { Interpolation::Interpolate1D(x, y, xo, "cubic"); } catch (Exception&) { th++; } try { Interpolation::Interpolate1D(x, y, xo, "linear", 1.0); } catch (Exception&) { th++; } try { Interpolation::Interpolate1D(x, y, xo, "", 1.0); } catch (Exception&) { th++; } M->check(th == 3, "an unknown method does not raise");
    }
  });
  }
}

int main(int c, char** v) {
  mc::MC m(c, v); M = &m;
  points(); lines(); pairs(); planes(); boxes(); triangles(); polygons(); transforms(); interp();
  m.finish();
}
