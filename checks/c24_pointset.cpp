// C24: point sets: parameters follow their points, files, and the convex hull.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <nrlib/exception/exception.hpp>
#include <nrlib/geometry/polygon.hpp>
#include <nrlib/pointset/pointset.hpp>
#include <nrlib/surface/regularsurface.hpp>
using namespace std;
using namespace NRLib;
static mc::MC* M;
template <class F> static bool raises(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

// ---- model: a list of records ------------------------------------------------------------------------
struct Rec { double x, y, z; map<string, int> d; map<string, double> c; map<string, string> s; };
struct Model { vector<Rec> r; set<string> d, c, s; };
static bool same(const PointSet& p, const Model& m, const char* what, double tol) {
  if (!M->check(p.GetSize() == m.r.size() && p.GetPoints().size() == m.r.size(), "%s: %zu points, model %zu", what, p.GetSize(), m.r.size())) return false;
  for (size_t i = 0; i < m.r.size(); i++) {
    const Point& q = p[i]; const Point& g = p.GetPoints()[i];
    if (!M->check(fabs(q.x - m.r[i].x) <= tol && fabs(q.y - m.r[i].y) <= tol && fabs(q.z - m.r[i].z) <= tol && g.x == q.x && g.y == q.y && g.z == q.z,
                  "%s: point %zu is (%.9g,%.9g,%.9g), model (%.9g,%.9g,%.9g)", what, i, q.x, q.y, q.z, m.r[i].x, m.r[i].y, m.r[i].z)) return false;
  }
  bool ok = M->check(p.GetDiscreteParameters().size() == m.d.size() && p.GetContParameters().size() == m.c.size() && p.GetStringParameters().size() == m.s.size(),
                     "%s: wrong number of parameters (%zu,%zu,%zu), model (%zu,%zu,%zu)", what, p.GetDiscreteParameters().size(), p.GetContParameters().size(), p.GetStringParameters().size(), m.d.size(), m.c.size(), m.s.size());
  if (!ok) return false;
  for (const char* n : {"A", "B", "A b", "IL", "XL", "Active"}) {
    string N = n;
    if (!M->check(p.HasDiscreteParameter(N) == (m.d.count(N) > 0) && p.HasContParameter(N) == (m.c.count(N) > 0) && p.HasStringParameter(N) == (m.s.count(N) > 0), "%s: the wrong parameters are present (%s)", what, n)) return false;
    if (!m.d.count(N)) ok &= M->check(raises([&] { p.GetDiscreteParameter(N); }), "%s: an absent discrete parameter is not refused", what);
    if (!m.c.count(N)) ok &= M->check(raises([&] { p.GetContParameter(N); }), "%s: an absent continuous parameter is not refused", what);
    if (!m.s.count(N)) ok &= M->check(raises([&] { p.GetStringParameter(N); }), "%s: an absent string parameter is not refused", what);
  }
  if (!ok) return false;
  for (auto& n : m.d) { auto& v = p.GetDiscreteParameter(n); auto& w = p.GetDiscreteParameters().at(n); if (!M->check(v.size() == m.r.size() && w == v, "%s: discrete parameter with %zu values for %zu points", what, v.size(), m.r.size())) return false;
    for (size_t i = 0; i < v.size(); i++) if (!M->check(v[i] == m.r[i].d.at(n), "%s: discrete parameter %s of point %zu is %d, model %d", what, n.c_str(), i, v[i], m.r[i].d.at(n))) return false; }
  for (auto& n : m.c) { auto& v = p.GetContParameter(n); auto& w = p.GetContParameters().at(n); if (!M->check(v.size() == m.r.size() && w == v, "%s: continuous parameter with %zu values for %zu points", what, v.size(), m.r.size())) return false;
    for (size_t i = 0; i < v.size(); i++) if (!M->check(fabs(v[i] - m.r[i].c.at(n)) <= tol, "%s: continuous parameter %s of point %zu is %.9g, model %.9g", what, n.c_str(), i, v[i], m.r[i].c.at(n))) return false; }
  for (auto& n : m.s) { auto& v = p.GetStringParameter(n); auto& w = p.GetStringParameters().at(n); if (!M->check(v.size() == m.r.size() && w == v, "%s: string parameter with %zu values for %zu points", what, v.size(), m.r.size())) return false;
    for (size_t i = 0; i < v.size(); i++) if (!M->check(v[i] == m.r[i].s.at(n), "%s: string parameter %s of point %zu is '%s', model '%s'", what, n.c_str(), i, v[i].c_str(), m.r[i].s.at(n).c_str())) return false; }
  return true;
}
static Rec rec(const Model& m, double x, double y, double z) {
  Rec r; r.x = x; r.y = y; r.z = z;
  for (auto& n : m.d) r.d[n] = 0;
  for (auto& n : m.c) r.c[n] = 0;
  for (auto& n : m.s) r.s[n] = "";
  return r;
}
static const double XS[] = {1.5, -2.25, 461234.125, 0, 999, 1e-3, 5937001.375, -0.001};
static const char* SS[] = {"u", "two words", "", "999", "UNDEF", "a b c", "x1", "-1.5"};
static const int DS[] = {3, -999, 0, -7, 1, 2147483647, 42, 12};
static const double CS[] = {0.125, -999.0, 0, -1234.5, -1.5, 1234567.875, 999, 2};

static string path(const char* n) { return M->scratch + "/" + n; }
static void put(const string& f, const string& s) { ofstream o(f, ios::binary); o << s; }
static string get(const string& f) { ifstream i(f, ios::binary); return string(istreambuf_iterator<char>(i), {}); }

static bool reads(const string& f, bool filter, const Model& m, const char* what, double tol) {
  unique_ptr<PointSet> p;
  try { p.reset(new PointSet(f, filter)); } catch (std::exception& e) { M->fail(string(what) + ": refused"); return false; }
  return same(*p, m, what, tol);
}
static bool roundtrip(const PointSet& p, const Model& m, const char* what) {
  string f = path("p"); bool ok = true;
  bool tags = !m.d.empty() || !m.c.empty() || !m.s.empty();
  if (tags && m.r.size()) {
    p.WriteToFile(f, PointSet::RmsInternalPoints); M->step();
    ok &= M->check(PointSet::FindFileType(f) == PointSet::RmsInternalPoints, "%s: internal points file not recognised", what);
    ok &= reads(f, false, m, "internal points file read back", 5.1e-4);
    // without the newline at the end, too
    string t = get(f); if (t.size() && t.back() == '\n') { put(f, t.substr(0, t.size() - 1)); ok &= reads(f, false, m, "internal points file without last newline", 5.1e-4); }
    ok &= reads(f, true, m, "internal points file without an Active parameter, filtered", 5.1e-4);
  }
  Model q = m; q.d.clear(); q.c.clear(); q.s.clear();
  bool ender = false; for (auto& r : m.r) ender |= r.x == 999 && r.y == 999 && r.z == 999;
  if (m.r.size() && !ender) {
    p.WriteToFile(f, PointSet::RoxarText); M->step();
    ok &= M->check(PointSet::FindFileType(f) == PointSet::RoxarText, "%s: Roxar text file not recognised", what);
    ok &= reads(f, false, q, "Roxar text file read back", 5.1e-7);
    string t = get(f); if (t.size() && t.back() == '\n') { put(f, t.substr(0, t.size() - 1)); ok &= reads(f, false, q, "Roxar text file without last newline", 5.1e-7); }
    p.WriteToFile(f, PointSet::GeneralXYZ); M->step();
    ok &= M->check(PointSet::FindFileType(f) == PointSet::GeneralXYZ, "%s: general xyz file not recognised", what);
    ok &= reads(f, false, q, "general xyz file read back", 5.1e-7);
    t = get(f); if (t.size() && t.back() == '\n') { put(f, t.substr(0, t.size() - 1)); ok &= reads(f, false, q, "general xyz file without last newline", 5.1e-7); }
  }
  remove(f.c_str());
  return ok;
}

// ---- A: histories ------------------------------------------------------------------------------------
enum { ADD, SHRINK, GROW, ERASE0, ERASEM, ERASEL, ADDD, ADDC, ADDS, SETD, SETREF, COPY, REPLD, NOPS };
static const char* OPN[] = {"AddPoint", "Resize-1", "Resize+2", "Erase first", "Erase middle", "Erase last", "AddDiscrete", "AddCont", "AddString", "SetDiscrete", "operator[]", "copy", "replace discrete"};
static void histories() {
  int depth = M->thorough() ? 5 : 4;
  for (int len = 1; len <= depth; len++) mc::sequences(NOPS, len, [&](const vector<int>& ops) {
    if (!M->next()) return;
    string h = "history:"; for (int o : ops) { h += " "; h += OPN[o]; }
    M->begin("%s", h.c_str());
    for (int start = 0; start < 3; start++) {
      Model m; unique_ptr<PointSet> p;
      if (start == 0) p.reset(new PointSet());
      else if (start == 1) { p.reset(new PointSet(2, Point(1, 2, 3))); for (int i = 0; i < 2; i++) m.r.push_back(rec(m, 1, 2, 3)); }
      else { vector<Point> v; for (int i = 0; i < 3; i++) { v.push_back(Point(i + .5, 2 * i, -i)); m.r.push_back(rec(m, i + .5, 2 * i, -i)); } p.reset(new PointSet(v)); }
      int cnt = start;
      bool ok = same(*p, m, "at the start", 0);
      for (int o : ops) {
        if (!ok) break;
        size_t n = m.r.size(); cnt++; M->step();
        switch (o) {
          case ADD: { Point q(cnt, XS[cnt % 8], cnt + .5); p->AddPoint(q); m.r.push_back(rec(m, q.x, q.y, q.z)); break; }
          case SHRINK: if (n) { p->Resize(n - 1); m.r.pop_back(); } break;
          case GROW: p->Resize(n + 2); m.r.push_back(rec(m, 0, 0, 0)); m.r.push_back(rec(m, 0, 0, 0)); break;
          case ERASE0: if (n) { p->Erase(0); m.r.erase(m.r.begin()); } break;
          case ERASEM: if (n) { p->Erase(n / 2); m.r.erase(m.r.begin() + n / 2); } break;
          case ERASEL: if (n) { p->Erase(n - 1); m.r.pop_back(); } break;
          case ADDD: { string N = m.d.count("A") ? "B" : "A"; vector<int> v; for (size_t i = 0; i < n; i++) { v.push_back(DS[(i + cnt) % 8]); m.r[i].d[N] = v[i]; } p->AddDiscreteParameter(N, v); m.d.insert(N); break; }
          case ADDC: { string N = m.c.count("A") ? "A b" : "A"; vector<double> v; for (size_t i = 0; i < n; i++) { v.push_back(CS[(i + cnt) % 8]); m.r[i].c[N] = v[i]; } p->AddContParameter(N, v); m.c.insert(N); break; }
          case ADDS: { string N = m.s.count("B") ? "A" : "B"; vector<string> v; for (size_t i = 0; i < n; i++) { v.push_back(SS[(i + cnt) % 8]); m.r[i].s[N] = v[i]; } p->AddStringParameter(N, v); m.s.insert(N); break; }
          case SETD: if (n && m.d.count("A")) { p->SetDiscreteParameter("A", n - 1, 100 + cnt); m.r[n - 1].d["A"] = 100 + cnt; } else if (!m.d.count("A")) ok &= M->check(raises([&] { p->SetDiscreteParameter("A", 0, 1); }), "setting an absent parameter is not refused"); break;
          case SETREF: if (n) { (*p)[n / 2] = Point(7, 8, cnt); m.r[n / 2].x = 7; m.r[n / 2].y = 8; m.r[n / 2].z = cnt; } break;
          case COPY: { unique_ptr<PointSet> q(new PointSet(*p)); if (n) p->Erase(0); p = move(q); break; }
          case REPLD: if (m.d.count("A")) { vector<int> v; for (size_t i = 0; i < n; i++) { v.push_back(int(i) - cnt); m.r[i].d["A"] = v[i]; } p->AddDiscreteParameter("A", v); } break;
        }
        ok &= same(*p, m, OPN[o], 0);
      }
      M->state();
      if (ok && int(ops.size()) == depth && (M->thorough() || ops[0] + 3 * start >= ADDD)) roundtrip(*p, m, "history");
    }
  });
}

// ---- B: files ----------------------------------------------------------------------------------------
static void files() {
  // every assignment of values to a few points with parameters of every kind
  vector<int> ns = {1, 2, 3, 17, 130, 1500}; if (M->thorough()) ns.push_back(4);
  for (int n : ns) for (int tags = 0; tags < 8; tags++) for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) {
    if (n > 10 && (a != b || (n > 200 && a > 1))) continue;
    if (!M->next()) continue;
    M->begin("file: %d points, tags %d, values %d,%d", n, tags, a, b);
    Model m; PointSet p;
    for (int i = 0; i < n; i++) { m.r.push_back(rec(m, XS[(a + i) % 8], XS[(b + 2 * i) % 8], XS[(a + b + i) % 8])); p.AddPoint(Point(m.r[i].x, m.r[i].y, m.r[i].z)); }
    for (int k = 0; k < 2; k++) {
      if (tags & 1) { string N = k ? "B" : "A"; vector<int> v; for (int i = 0; i < n; i++) { v.push_back(DS[(a + i + 3 * k) % 8]); m.r[i].d[N] = v[i]; } p.AddDiscreteParameter(N, v); m.d.insert(N); }
      if (tags & 2) { string N = k ? "A b" : "B"; vector<double> v; for (int i = 0; i < n; i++) { v.push_back(CS[(b + i + 5 * k) % 8]); m.r[i].c[N] = v[i]; } p.AddContParameter(N, v); m.c.insert(N); }
      if (tags & 4) { string N = k ? "A b" : "A"; vector<string> v; for (int i = 0; i < n; i++) { v.push_back(SS[(a + b + i + 3 * k) % 8]); m.r[i].s[N] = v[i]; } p.AddStringParameter(N, v); m.s.insert(N); }
    }
    roundtrip(p, m, "file");
  }
  // inactive points are left out only on request
  for (int n = 1; n <= 5; n++) for (int mask = 0; mask < (1 << n); mask++) for (int where = 0; where < 3; where++) for (int filter = 0; filter < 2; filter++) {
    if (!M->next()) continue;
    M->begin("file: %d points, active mask %d, Active is parameter %d, filter %d", n, mask, where, filter);
    string t, f = path("act"); Model m; m.d = {"Active", "A", "B"};
    vector<string> names = {"A", "B"}; names.insert(names.begin() + where, "Active");
    for (auto& s : names) t += "Discrete  " + s + "\n";
    for (int i = 0; i < n; i++) {
      Rec r = rec(m, 10.5 + i, 20 - i, 1000 + i); r.d["Active"] = mask >> i & 1; r.d["A"] = 1 + 2 * i; r.d["B"] = -i;
      t += mc::fmt("%g %g %g", r.x, r.y, r.z); for (auto& s : names) t += mc::fmt(" %d", r.d[s]); t += "\n";
      if (!filter || r.d["Active"]) m.r.push_back(r);
    }
    put(f, t); M->step();
    reads(f, filter, m, "file with inactive points", 1e-9); remove(f.c_str());
  }
  // values that are left out at the end of a line, or undefined
  for (int k = 0; k < 3; k++) for (int last = 0; last < 2; last++) for (int given = 0; given <= 2; given++) {
    if (!M->next()) continue;
    M->begin("file: kind %d, %d values given, on the last line %d", k, given, last);
    const char* T[] = {"Discrete", "Float", "String"}; const char* V[] = {"4", "2.5", "s"};
    string t = mc::fmt("%s A\n%s   A b \n", T[k], T[k]); Model m; (k == 0 ? m.d : k == 1 ? m.c : m.s) = {"A", "A b"};
    for (int i = 0; i < 3; i++) {
      Rec r = rec(m, i, 2, 3); t += mc::fmt("%d 2 3", i); bool sh = i == (last ? 2 : 1);
      for (int j = 0; j < 2; j++) { bool g = !sh || j < given; const char* N = j ? "A b" : "A"; if (g) t += string(" ") + V[k]; if (k == 0) r.d[N] = g ? 4 : -999; if (k == 1) r.c[N] = g ? 2.5 : -999; if (k == 2) r.s[N] = g ? "s" : "UNDEF"; }
      t += "\n"; m.r.push_back(r);
    }
    string f = path("un"); put(f, t); reads(f, false, m, "file with values left out", 0); M->step();
    if (k < 2) { put(f, mc::fmt("%s A\n1 2 3 x\n1 2 3 4\n", T[k])); M->check(raises([&] { PointSet q(f); }), "a parameter value that is no number is not refused"); }
    put(f, "Discrete A\nOther B\n1 2 3 4 5\n1 2 3 4 5\n"); M->check(raises([&] { PointSet q(f); }), "a parameter of an unknown kind is not refused");
    remove(f.c_str());
  }
  // Roxar text in parts
  for (int a = 1; a <= 3; a++) for (int b = 0; b <= 3; b++) for (int c = 0; c <= 2; c++) for (int nl = 0; nl < 2; nl++) {
    if (!M->next()) continue;
    M->begin("Roxar text: parts of %d, %d, %d points, newline at the end %d", a, b, c, nl);
    string t; Model m; int k = 0;
    for (int s : {a, b, c}) { if (!s) continue; for (int i = 0; i < s; i++, k++) { m.r.push_back(rec(m, 999, k + .25, k == 3 ? 999 : -k)); t += mc::fmt("999.0 %g  %g\n", m.r.back().y, m.r.back().z); } t += "999.0 999.000 999\n"; }
    if (a == 2 && b == 3) { if (t.size() < 2) abort(); for (int q = 0; q < 200; q++) { for (int i = 0; i < 1 + q % 5; i++, k++) { m.r.push_back(rec(m, 12, k + .25, -k)); t += mc::fmt("12 %g  %d\n", k + .25, -k); } t += "999.0 999.000 999\n"; } }
    if (!nl) t.pop_back();
    string f = path("rox"); put(f, t); M->step();
    M->check(PointSet::FindFileType(f) == PointSet::RoxarText, "not recognised as Roxar text");
    reads(f, false, m, "Roxar text file", 0); remove(f.c_str());
  }
  // Jason
  for (int n : {0, 1, 2, 3, 4, 700}) for (int com = 0; com < 3; com++) for (int survey = 0; survey < 2; survey++) for (int bad = 0; bad < 4; bad++) {
    if (!M->next()) continue;
    M->begin("Jason: %d points, %d comment lines, survey %d, fault %d", n, com, survey, bad);
    string t; for (int i = 0; i < com; i++) t += "* comment\n";
    t += mc::fmt("JGWFILE Horizon %d\nIL XL X Y Z\n", n); Model m; m.d = {"IL", "XL"};
    for (int i = 0; i < n; i++) {
      Rec r = rec(m, 461234.625 + i, 5937001.25 - i, -1.5 * i - 2000.125); r.d["IL"] = 100 + i; r.d["XL"] = 200 - 3 * i; m.r.push_back(r);
      bool l = i == n - 1;
      if (bad == 1 && l) continue;
      t += mc::fmt("%d %d %.3f %.3f", r.d["IL"], r.d["XL"], r.x, r.y); if (!(bad == 2 && l)) t += mc::fmt(" %.3f", r.z);
      if (survey && !(bad == 2 && l)) t += " NAME"; if (bad == 3 && l) t += survey ? " more" : " a b"; t += "\n";
    }
    string f = path("jas"); put(f, t); M->step();
    M->check(PointSet::FindFileType(f) == PointSet::JasonXYZ, "not recognised as Jason");
    if (bad && n) M->check(raises([&] { PointSet q(f); }), "a file with too few or too many values is not refused");
    else reads(f, false, m, "Jason file", 0);
    remove(f.c_str());
  }
  for (const char* t : {"", "hello\n", "1 2\n", "a b c\n", "1 2 x\n1 2 3\n"}) {
    if (!M->next()) continue;
    M->begin("file of another kind '%.5s'", t);
    string f = path("other"); put(f, t); M->step();
    M->check(PointSet::FindFileType(f) == PointSet::UnknownFormat, "recognised as a point set");
    M->check(raises([&] { PointSet q(f); }), "not refused"); remove(f.c_str());
    M->check(raises([&] { PointSet q(path("absent")); }), "an absent file is not refused");
  }
  // surface
  for (int ni = 2; ni <= 3; ni++) for (int nj = 2; nj <= 3; nj++) for (int mask = 0; mask < (1 << (ni * nj)); mask++) {
    if (!M->next()) continue;
    M->begin("surface %dx%d, missing %x", ni, nj, mask);
    RegularSurface<double> s(10, 20, 5.0 * (ni - 1), 7.0 * (nj - 1), ni, nj, 0.0); Model m;
    for (int j = 0; j < nj; j++) for (int i = 0; i < ni; i++) { bool mi = mask >> (i + ni * j) & 1; s(i, j) = mi ? s.GetMissingValue() : 100 + i + 10 * j; if (!mi) m.r.push_back(rec(m, 10 + 5.0 * i, 20 + 7.0 * j, 100 + i + 10 * j)); }
    M->step(); same(PointSet(s), m, "points of a surface", 1e-9);
  }
}

// ---- C: convex hull ----------------------------------------------------------------------------------
typedef pair<double, double> P2;
static double cr(P2 o, P2 a, P2 b) { return (a.first - o.first) * (b.second - o.second) - (a.second - o.second) * (b.first - o.first); }
static set<P2> extreme(const vector<P2>& in) {
  vector<P2> v(in); sort(v.begin(), v.end()); v.erase(unique(v.begin(), v.end()), v.end());
  set<P2> e;
  for (auto& p : v) {   // p is extreme when it is not between or inside the others: brute force over pairs and triangles
    bool in = false;
    for (auto& a : v) for (auto& b : v) if (a != p && b != p && a < b) {
      if (cr(a, b, p) == 0 && (p.first - a.first) * (p.first - b.first) + (p.second - a.second) * (p.second - b.second) < 0) in = true;
      for (auto& c : v) if (c != p && b < c) { double x = cr(a, b, p), y = cr(b, c, p), z = cr(c, a, p); if ((x > 0 && y > 0 && z > 0) || (x < 0 && y < 0 && z < 0)) in = true; }
    }
    if (!in) e.insert(p);
  }
  return e;
}
static void hull_case(const vector<P2>& v) {
  vector<Point> pts; int i = 0; for (auto& p : v) pts.push_back(Point(p.first, p.second, ++i));
  PointSet ps(pts); Polygon h = ps.GetConvexHull(); M->step();
  set<P2> want = extreme(v), got; string s; for (auto& p : v) s += mc::fmt(" %g,%g", p.first, p.second);
  vector<P2> o; for (size_t k = 0; k < h.GetSize(); k++) { o.push_back(P2(h(k).x, h(k).y)); got.insert(o.back()); }
  string q; for (auto& p : o) q += mc::fmt(" %g,%g", p.first, p.second);
  if (o.size() > 1 && o.front() == o.back()) o.pop_back();
  if (!M->check(got == want && o.size() == want.size(), "hull of%s: vertices%s", s.c_str(), q.c_str())) return;
  // simple and convex, always turning the same way
  if (o.size() >= 3) { int pos = 0, neg = 0; size_t n = o.size(); for (size_t k = 0; k < n; k++) { double c = cr(o[k], o[(k + 1) % n], o[(k + 2) % n]); pos += c > 0; neg += c < 0; }
    double wind = 0; for (size_t k = 0; k < n; k++) { P2 a(o[(k + 1) % n].first - o[k].first, o[(k + 1) % n].second - o[k].second), b(o[(k + 2) % n].first - o[(k + 1) % n].first, o[(k + 2) % n].second - o[(k + 1) % n].second); wind += atan2(a.first * b.second - a.second * b.first, a.first * b.first + a.second * b.second); }
    M->check((pos == int(n) || neg == int(n)) && fabs(fabs(wind) - 2 * M_PI) < 1e-6, "hull of%s: the vertices%s are not in order around it", s.c_str(), q.c_str()); }
  for (size_t k = 0; k < pts.size(); k++) M->check(ps[k].x == pts[k].x && ps[k].y == pts[k].y && ps[k].z == pts[k].z, "the points change");
}
static void hulls() {
  // all sequences (order and duplicates matter to the algorithm) over a small lattice, and all subsets of a larger one
  int W = 3, len = M->thorough() ? 6 : 5;
  for (int n = 0; n <= len; n++) {
    int pre = min(n, 2);
    mc::sequences(W * W, pre, [&](const vector<int>& a) {
      if (!M->next()) return;
      M->begin("hull: sequences of %d points starting %d,%d", n, pre > 0 ? a[0] : -1, pre > 1 ? a[1] : -1);
      mc::sequences(W * W, n - pre, [&](const vector<int>& b) {
        vector<P2> v; for (int x : a) v.push_back(P2(x % W, x / W)); for (int x : b) v.push_back(P2(x % W, x / W));
        hull_case(v);
        if (n <= 4) { vector<P2> w(v); for (auto& p : w) { p.first = 0.125 * p.first - 1; p.second = 0.0625 * p.second + 16; } hull_case(w); for (auto& p : w) { p.first = 4096 * p.first + 65536; p.second *= 8192; } hull_case(w); }
      });
      M->state();
    });
  }
  for (int n : {20, 50, 100}) for (int kind = 0; kind < 4; kind++) for (int ord = 0; ord < 4; ord++) {
    if (!M->next()) continue;
    M->begin("hull: %d points, kind %d, order %d", n, kind, ord); M->state();
    vector<P2> v; if (kind == 0 && n > 50) continue;
    for (int i = 0; i < n; i++) { int k = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? i * 7 % n : i * 13 % n; if (kind == 0) v.push_back(P2(k, double(k) * k)); else if (kind == 1) v.push_back(P2(k % 7, k * 5 % 11)); else if (kind == 2) v.push_back(P2(k, 2 * k)); else v.push_back(P2(k * 37 % 101, k * 53 % 97)); }
    hull_case(v);
  }
  int X = 4, Y = M->thorough() ? 4 : 3, N = X * Y;
  for (int hi = 0; hi < (1 << (N - 6)); hi++) {
    if (!M->next()) continue;
    M->begin("hull: subsets %x...... of a %dx%d lattice", hi, X, Y);
    for (int lo = 0; lo < 64; lo++) for (int ord = 0; ord < 3; ord++) {
      int mask = hi << 6 | lo; vector<P2> v;
      for (int i = 0; i < N; i++) { int k = ord == 0 ? i : ord == 1 ? N - 1 - i : i * 5 % N; if (ord == 2 && N % 5 == 0) k = i; if (mask >> k & 1) v.push_back(P2(100.5 * (k % X) - 30, 200.25 * (k / X) + 5)); }
      hull_case(v);
    }
  }
}
int main(int argc, char** argv) {
  mc::MC mc(argc, argv); M = &mc;
  M->part = "histories"; histories();
  M->part = "files"; files();
  M->part = "hulls"; hulls();
  M->finish();
}
