// C12: grid containers.  Every operation sequence up to a depth on two grids of each class, compared after
// every operation with a plain (shape, value list) model; index maps for every shape of the lattice.
#include "mc.hpp"
#include <nrlib/grid/grid.hpp>
#include <nrlib/grid/grid2d.hpp>
#include <nrlib/grid/grid2dgeneral.hpp>
#include <nrlib/grid/grid4d.hpp>
#include <nrlib/grid/grid5d.hpp>
#include <string>
using namespace NRLib;
using std::vector;
typedef vector<size_t> Sh;
static mc::MC* M;

template <class A> struct Model {
  Sh lo, n;            // first index and extent per axis
  vector<A> d;
  size_t size() const { size_t p = 1; for (size_t k : n) p *= k; return p; }
};

// ---- adaptors: one uniform view of the classes -------------------------------------------------------
template <class A> struct T3 {
  typedef Grid<A> G; typedef A V; static const int dim = 3;
  static const char* name() { return "Grid"; }
  static G make(const Sh&, const Sh& n, const A& v) { return G(n[0], n[1], n[2], v); }
  static void resize(G& g, const Sh&, const Sh& n, const A& v) { g.Resize(n[0], n[1], n[2], v); }
  static bool assign(G& g, const Sh& n, const A& v) { g.Assign(n[0], n[1], n[2], v); return true; }
  static bool resizek(G& g, size_t k) { g.ResizeK(k); return true; }
  static bool setv(G& g, const Sh& i, const A& v) { g.SetValue(i[0], i[1], i[2], v); return true; }
  static typename G::reference at(G& g, const Sh& i) { return g(i[0], i[1], i[2]); }
  static typename G::const_reference cat(const G& g, const Sh& i) { return g(i[0], i[1], i[2]); }
  static size_t index(const G& g, const Sh& i) { return g.GetIndex(i[0], i[1], i[2]); }
  static Sh ijk(const G& g, size_t x) { Sh r(3); g.GetIJK(x, r[0], r[1], r[2]); return r; }
  static Sh shape(const G& g) { return {g.GetNI(), g.GetNJ(), g.GetNK()}; }
  static Sh low(const G&) { return {0, 0, 0}; }
  static void more(G& g, const Model<A>& m) {
    const G& c = g;
    M->check(g.GetStorage() == m.d, "GetStorage differs");
    for (size_t x = 0; x < m.d.size(); x++) { Sh r = ijk(g, x); M->check(g.GetValue(r[0], r[1], r[2]) == m.d[x] && c.GetValue(r[0], r[1], r[2]) == m.d[x], "GetValue differs at %zu", x); }
  }
};
template <class A> struct T2 {
  typedef Grid2D<A> G; typedef A V; static const int dim = 2;
  static const char* name() { return "Grid2D"; }
  static G make(const Sh&, const Sh& n, const A& v) { return G(n[0], n[1], v); }
  static void resize(G& g, const Sh&, const Sh& n, const A& v) { g.Resize(n[0], n[1], v); }
  static bool assign(G& g, const Sh& n, const A& v) { g.Assign(n[0], n[1], v); return true; }
  static bool resizek(G&, size_t) { return false; }
  static bool setv(G&, const Sh&, const A&) { return false; }
  static typename G::reference at(G& g, const Sh& i) { return g(i[0], i[1]); }
  static typename G::const_reference cat(const G& g, const Sh& i) { return g(i[0], i[1]); }
  static size_t index(const G& g, const Sh& i) { return g.GetIndex(i[0], i[1]); }
  static Sh ijk(const G& g, size_t x) { Sh r(2); g.GetIJ(x, r[0], r[1]); return r; }
  static Sh shape(const G& g) { return {g.GetNI(), g.GetNJ()}; }
  static Sh low(const G&) { return {0, 0}; }
  static void more(G& g, const Model<A>& m) {
    M->check(g.GetStorage() == m.d, "GetStorage differs");
    for (int i = -2; i <= int(m.n[0]) + 1; i++) for (int j = -2; j <= int(m.n[1]) + 1; j++)
      M->check(g.IsValidIndex(i, j) == (i >= 0 && j >= 0 && i < int(m.n[0]) && j < int(m.n[1])), "IsValidIndex(%d, %d)", i, j);
  }
};
template <class A> struct TG {
  typedef Grid2DGeneral<A> G; typedef A V; static const int dim = 2;
  static const char* name() { return "Grid2DGeneral"; }
  static G make(const Sh& lo, const Sh& n, const A& v) { return G(lo[0], lo[0] + n[0] - 1, lo[1], lo[1] + n[1] - 1, v); }
  static void resize(G& g, const Sh& lo, const Sh& n, const A& v) { g.Resize(lo[0], lo[0] + n[0] - 1, lo[1], lo[1] + n[1] - 1, v); }
  static bool assign(G&, const Sh&, const A&) { return false; }
  static bool resizek(G&, size_t) { return false; }
  static bool setv(G&, const Sh&, const A&) { return false; }
  static typename G::reference at(G& g, const Sh& i) { return g(i[0], i[1]); }
  static typename G::const_reference cat(const G& g, const Sh& i) { return g(i[0], i[1]); }
  static size_t index(const G& g, const Sh& i) { return g.GetIndex(i[0], i[1]); }
  static Sh ijk(const G& g, size_t x) { Sh r(2); g.GetIJ(x, r[0], r[1]); return r; }
  static Sh shape(const G& g) { return {g.GetNI(), g.GetNJ()}; }
  static Sh low(const G& g) { return {g.GetIMin(), g.GetJMin()}; }
  static void more(G& g, const Model<A>& m) {
    if (m.d.empty()) return;
    M->check(g.GetIMin() == m.lo[0] && g.GetJMin() == m.lo[1] && g.GetIMax() + 1 == m.lo[0] + m.n[0] && g.GetJMax() + 1 == m.lo[1] + m.n[1], "the index range differs");
    for (size_t i = 0; i <= m.lo[0] + m.n[0] + 1; i++) for (size_t j = 0; j <= m.lo[1] + m.n[1] + 1; j++)
      M->check(g.IsValidIndex(i, j) == (i >= m.lo[0] && j >= m.lo[1] && i < m.lo[0] + m.n[0] && j < m.lo[1] + m.n[1]), "IsValidIndex(%zu, %zu)", i, j);
  }
};
template <class A> struct T4 {
  typedef Grid4D<A> G; typedef A V; static const int dim = 4;
  static const char* name() { return "Grid4D"; }
  static G make(const Sh&, const Sh& n, const A& v) { return G(n[0], n[1], n[2], n[3], v); }
  static void resize(G& g, const Sh&, const Sh& n, const A& v) { g.Resize(n[0], n[1], n[2], n[3], v); }
  static bool assign(G&, const Sh&, const A&) { return false; }
  static bool resizek(G&, size_t) { return false; }
  static bool setv(G&, const Sh&, const A&) { return false; }
  static typename G::reference at(G& g, const Sh& i) { return g(i[0], i[1], i[2], i[3]); }
  static typename G::const_reference cat(const G& g, const Sh& i) { return g(i[0], i[1], i[2], i[3]); }
  static size_t index(const G& g, const Sh& i) { return g.GetIndex(i[0], i[1], i[2], i[3]); }
  static Sh ijk(const G& g, size_t x) { Sh r(4); g.GetIJKL(x, r[0], r[1], r[2], r[3]); return r; }
  static Sh shape(const G& g) { return {g.GetNI(), g.GetNJ(), g.GetNK(), g.GetNL()}; }
  static Sh low(const G&) { return {0, 0, 0, 0}; }
  static void more(G&, const Model<A>&) {}
};
template <class A> struct T5 {
  typedef Grid5D<A> G; typedef A V; static const int dim = 5;
  static const char* name() { return "Grid5D"; }
  static G make(const Sh&, const Sh& n, const A& v) { return G(n[0], n[1], n[2], n[3], n[4], v); }
  static void resize(G& g, const Sh&, const Sh& n, const A& v) { g.Resize(n[0], n[1], n[2], n[3], n[4], v); }
  static bool assign(G&, const Sh&, const A&) { return false; }
  static bool resizek(G&, size_t) { return false; }
  static bool setv(G&, const Sh&, const A&) { return false; }
  static typename G::reference at(G& g, const Sh& i) { return g(i[0], i[1], i[2], i[3], i[4]); }
  static typename G::const_reference cat(const G& g, const Sh& i) { return g(i[0], i[1], i[2], i[3], i[4]); }
  static size_t index(const G& g, const Sh& i) { return g.GetIndex(i[0], i[1], i[2], i[3], i[4]); }
  static Sh ijk(const G& g, size_t x) { Sh r(5, 99); g.GetIJKLM(x, r[0], r[1], r[2], r[3], r[4]); return r; }
  static Sh shape(const G& g) { return {g.GetNI(), g.GetNJ(), g.GetNK(), g.GetNL(), g.GetNM()}; }
  static Sh low(const G&) { return {0, 0, 0, 0, 0}; }
  static void more(G&, const Model<A>&) {}
};

template <class T> static void verify(typename T::G& g, const Model<typename T::V>& m, const char* who) {
  const typename T::G& c = g;
  M->state();
  if (!M->check(T::shape(g) == m.n, "%s: the extents differ", who)) return;
  if (!M->check(g.GetN() == m.d.size() && size_t(g.end() - g.begin()) == m.d.size() && size_t(c.end() - c.begin()) == m.d.size(), "%s: GetN() = %zu, %zu values expected", who, g.GetN(), m.d.size())) return;
  Sh lo = m.d.empty() ? T::low(g) : m.lo;
  Sh i = lo;
  for (size_t x = 0; x < m.d.size(); x++) {      // first axis fastest
    bool ok = T::index(g, i) == x && T::ijk(g, x) == i && T::at(g, i) == m.d[x] && T::cat(c, i) == m.d[x] && g(x) == m.d[x] && c(x) == m.d[x] &&
              *(g.begin() + x) == m.d[x] && *(c.begin() + x) == m.d[x];
    if (!M->check(ok, "%s: cell %zu: index map or value differs", who, x)) return;
    for (int a = 0; a < T::dim; a++) { if (++i[a] < lo[a] + m.n[a]) break; i[a] = lo[a]; }
  }
  T::more(g, m);
}

template <class T> static void histories(int depth, const vector<typename T::V>& val, const vector<Sh>& shapes, const vector<Sh>& lows) {
  typedef typename T::V V;
  typedef typename T::G G;
  const int S = int(shapes.size());
  // ops: [0,S): X.Resize; [S,2S): X.Assign; 2S: ResizeK up; 2S+1: ResizeK down; 2S+2: X(last) = v; 2S+3: X(index mid) = v; 2S+4: SetValue;
  //      2S+5: *X.begin() = v; 2S+6: X.Swap(Y); 2S+7: Y = X; 2S+8: X = Y; 2S+9: X = copy of X with a write to the copy; 2S+10: X.Swap(X); 2S+11: Y.Swap(X)
  const int K = 2 * S + 12;
  for (int n = 1; n <= depth; n++) mc::sequences(K, n, [&](const vector<int>& s) {
    if (!M->next()) return;
    std::string h;
    for (int o : s) h += mc::fmt("%d ", o);
    M->begin("%s operations [%s]", T::name(), h.c_str());
    G X = T::make(lows[0], shapes[0], val[0]), Y = T::make(lows[1], shapes[1], val[1]);
    Model<V> x{lows[0], shapes[0], {}}, y{lows[1], shapes[1], {}};
    x.d.assign(x.size(), val[0]);
    y.d.assign(y.size(), val[1]);
    int c = 2;
    for (int o : s) {
      M->step();
      V v = val[c++ % val.size()];
      if (o < S) { T::resize(X, lows[o], shapes[o], v); x.lo = lows[o]; x.n = shapes[o]; x.d.assign(x.size(), v); }
      else if (o < 2 * S) { int k = o - S; if (T::assign(X, shapes[k], v)) { x.lo = Sh(T::dim, 0); x.n = shapes[k]; x.d.assign(x.size(), v); } }
      else {
        Sh last = x.lo;
        for (int a = 0; a < T::dim; a++) last[a] += x.n[a] ? x.n[a] - 1 : 0;
        bool e = x.d.empty();
        switch (o - 2 * S) {
          case 0: if (T::resizek(X, x.n.back() + 1)) { x.n.back()++; x.d.resize(x.size()); } break;
          case 1: if (x.n.back() && T::resizek(X, x.n.back() - 1)) { x.n.back()--; x.d.resize(x.size()); } break;
          case 2: if (!e) { T::at(X, last) = v; x.d.back() = v; } break;
          case 3: if (!e) { X(x.d.size() / 2) = v; x.d[x.d.size() / 2] = v; } break;
          case 4: if (!e && T::setv(X, x.lo, v)) x.d[0] = v; break;
          case 5: if (!e) { *X.begin() = v; x.d[0] = v; } break;
          case 6: X.Swap(Y); std::swap(x, y); break;
          case 7: Y = X; y = x; break;
          case 8: X = Y; x = y; break;
          case 9: { G Z(X); if (!e) Z(0) = v; Model<V> z = x; if (!e) z.d[0] = v; verify<T>(Z, z, "copy"); break; }
          case 10: X.Swap(X); break;
          case 11: Y.Swap(X); std::swap(x, y); break;
        }
      }
      verify<T>(X, x, "X");
      verify<T>(Y, y, "Y");
    }
  });
}

template <class T> static void shapes_all(int maxn) {
  Sh n(T::dim, 1);
  std::vector<Sh> big;   // each axis long, then two of them
  for (int a = 0; a < T::dim; a++) for (int b = a; b < T::dim; b++) { Sh s(T::dim, 2); s[a] = a == b ? 1100 : 70; if (a != b) s[b] = 67; big.push_back(s); }
  if (T::dim < 4) { Sh s(T::dim, 3); s[0] = 270; s[1] = 260; big.push_back(s); }
  for (;;) {
    for (int off = 0; off < 2; off++) {
      if (!M->next()) continue;
      std::string h;
      for (size_t k : n) h += mc::fmt("%zu ", k);
      M->begin("%s of shape [%s] offset %d", T::name(), h.c_str(), off);
      Sh lo(T::dim, 0);
      if (std::string(T::name()) == "Grid2DGeneral" && off) { lo[0] = 3; lo[1] = 7; }
      typename T::G g = T::make(lo, n, typename T::V());
      Model<typename T::V> m{lo, n, {}};
      m.d.resize(m.size());
      for (size_t x = 0; x < m.d.size(); x++) { m.d[x] = typename T::V(x + 1); g(x) = m.d[x]; M->step(); }
      verify<T>(g, m, "grid");
    }
    int a = 0;
    while (a < T::dim && ++n[a] > size_t(maxn)) n[a++] = 1;
    if (a == T::dim) { if (big.empty()) return; n = big.back(); big.pop_back(); maxn = 0; }
  }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  M = &m;
  const bool th = m.thorough();
  const int D = th ? 5 : 4;
  m.part = "shapes";
  shapes_all<T2<int>>(th ? 12 : 8);
  shapes_all<TG<int>>(th ? 12 : 8);
  shapes_all<T3<double>>(th ? 7 : 6);
  shapes_all<T4<int>>(th ? 5 : 4);
  shapes_all<T5<int>>(th ? 4 : 3);
  m.part = "histories";
  typedef std::string S;
  histories<T2<int>>(D, {1, 2, 3, 4, 5}, {{2, 3}, {3, 2}, {1, 1}, {0, 4}}, {{0, 0}, {0, 0}, {0, 0}, {0, 0}});
  histories<T2<S>>(D, {"a", "b", "c", "d", "e"}, {{2, 3}, {3, 2}, {4, 1}}, {{0, 0}, {0, 0}, {0, 0}});
  histories<TG<int>>(D, {1, 2, 3, 4, 5}, {{2, 3}, {3, 2}, {1, 1}}, {{4, 1}, {0, 2}, {5, 5}});
  histories<T3<double>>(D, {1, 2, 3, 4, 5}, {{2, 3, 2}, {3, 1, 2}, {1, 1, 1}, {2, 0, 3}}, {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}});
  histories<T3<S>>(D, {"a", "b", "c", "d", "e"}, {{2, 3, 2}, {3, 1, 2}, {1, 4, 1}}, {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}});
  histories<T4<int>>(D, {1, 2, 3, 4, 5}, {{2, 3, 2, 2}, {3, 1, 2, 3}, {1, 1, 1, 1}}, {{0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}});
  histories<T5<int>>(D - 1, {1, 2, 3, 4, 5}, {{2, 3, 2, 2, 2}, {3, 1, 2, 1, 3}, {1, 1, 1, 1, 1}}, {{0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}});

  // summaries: every value list over a small alphabet, with and without the missing code
  m.part = "summaries";
  const double AL[] = {-7.5, -1, 0, 2.25, 999, 1e30};
  for (int n = 1; n <= (th ? 6 : 5); n++) mc::sequences(6, n, [&](const vector<int>& s) {
    if (!m.next()) return;
    std::string h;
    for (int o : s) h += mc::fmt("%g ", AL[o]);
    for (double miss : {999.0, -1.0, -999.0}) {
      m.begin("values [%s], missing code %g", h.c_str(), miss);
      m.state();
      m.step(4);
      Grid2D<double> a(n, 1);
      Grid2DGeneral<double> b(2, 1 + n, 5, 5);
      Grid<double> c(1, n, 1);
      double mn = HUGE_VAL, mx = -HUGE_VAL, sum = 0, all = 0, amn = HUGE_VAL, amx = -HUGE_VAL;
      int k = 0;
      for (int i = 0; i < n; i++) {
        double v = AL[s[i]];
        a(i, 0) = v; b(2 + i, 5) = v; c(0, i, 0) = v;
        all += v; amn = std::min(amn, v); amx = std::max(amx, v);
        if (v != miss) { mn = std::min(mn, v); mx = std::max(mx, v); sum += v; k++; }
      }
      if (k) {
        m.check(a.FindMin(miss) == mn && a.FindMax(miss) == mx, "Grid2D FindMin/FindMax: %g %g, expected %g %g", a.FindMin(miss), a.FindMax(miss), mn, mx);
        m.check(b.FindMin(miss) == mn && b.FindMax(miss) == mx, "Grid2DGeneral FindMin/FindMax: %g %g, expected %g %g", b.FindMin(miss), b.FindMax(miss), mn, mx);
        double x, y, z;
        c.GetAvgMinMaxWithMissing(x, y, z, miss);
        m.check(y == mn && z == mx, "GetAvgMinMaxWithMissing: min %g max %g, expected %g %g", y, z, mn, mx);
        m.near(x, sum / k, 1e-12, "GetAvgMinMaxWithMissing: average");
      }
      double x, y, z;
      c.GetAvgMinMax(x, y, z);
      m.check(y == amn && z == amx, "GetAvgMinMax: min %g max %g, expected %g %g", y, z, amn, amx);
      m.near(x, all / n, 1e-12, "GetAvgMinMax: average");
      c.LogTransform(miss);
      for (int i = 0; i < n; i++) { double v = AL[s[i]]; m.near(c(0, i, 0), v == miss || v <= 0 ? 0.0 : std::log(v), 1e-14, "LogTransform"); }
    }
  });
  if (m.next()) {
    m.part = "empty grids";
    m.begin("grids constructed without arguments");
    m.state();
    m.step(5);
    Grid2DGeneral<double> b;
    m.check(b.GetNI() == 0 && b.GetNJ() == 0 && b.GetN() == 0 && b.begin() == b.end(), "Grid2DGeneral() is not empty");
    Grid2D<double> a;
    m.check(a.GetNI() == 0 && a.GetNJ() == 0 && a.GetN() == 0 && a.begin() == a.end(), "Grid2D() is not empty");
    Grid<double> c;
    m.check(c.GetNI() == 0 && c.GetNJ() == 0 && c.GetNK() == 0 && c.GetN() == 0 && c.begin() == c.end(), "Grid() is not empty");
    Grid4D<double> d;
    m.check(d.GetN() == 0 && d.begin() == d.end(), "Grid4D() is not empty");
    Grid5D<double> e;
    m.check(e.GetN() == 0 && e.begin() == e.end(), "Grid5D() is not empty");
  }
  m.finish();
}
