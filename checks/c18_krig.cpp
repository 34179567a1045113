// C18: kriging, conditional normal distributions and summary statistics on every small configuration of observations,
// against the textbook formulas solved by independent Gaussian elimination in long double.
#include "mc.hpp"
#include "vref.hpp"
#include <algorithm>
#include <memory>
#include <nrlib/exception/exception.hpp>
#include <nrlib/random/random.hpp>
#include <nrlib/random/randomgenerator.hpp>
#include <nrlib/statistics/continuouskrigingdata2d.hpp>
#include <nrlib/statistics/kriging.hpp>
#include <nrlib/statistics/multinormal.hpp>
#include <nrlib/statistics/nodalkrigingdata2d.hpp>
#include <nrlib/statistics/posteriormultinormal.hpp>
#include <nrlib/statistics/statistics.hpp>
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/variogram/covgrid2d.hpp>
#include <nrlib/variogram/variogramtypes.hpp>
using namespace std;
using namespace NRLib;
typedef long double ld;
typedef vector<vector<ld>> LM;
static mc::MC* M;

template <class F> static bool raises(F f) { try { f(); } catch (NRLib::Exception&) { return true; } return false; }
/// Solves A X = B; false if A is (nearly) singular.
static bool solve(LM a, LM b, LM& x) {
  size_t n = a.size(), m = n ? b[0].size() : 0;
  for (size_t c = 0; c < n; c++) {
    size_t p = c; for (size_t r = c; r < n; r++) if (fabsl(a[r][c]) > fabsl(a[p][c])) p = r;
    if (fabsl(a[p][c]) < 1e-9L) return false;
    swap(a[p], a[c]); swap(b[p], b[c]);
    for (size_t r = c + 1; r < n; r++) { ld f = a[r][c] / a[c][c]; for (size_t k = c; k < n; k++) a[r][k] -= f * a[c][k]; for (size_t k = 0; k < m; k++) b[r][k] -= f * b[c][k]; }
  }
  x = b;
  for (size_t c = n; c-- > 0;) for (size_t k = 0; k < m; k++) { ld s = x[c][k]; for (size_t j = c + 1; j < n; j++) s -= a[c][j] * x[j][k]; x[c][k] = s / a[c][c]; }
  return true;
}
static double el(const SymmetricMatrix& m, int i, int j) { return m.upLo() == flens::Upper ? m(min(i, j), max(i, j)) : m(max(i, j), min(i, j)); }

struct VR { const char* n; shared_ptr<Variogram> v; };
static vector<VR> varios() {
  return {{"spherical(3.5)", make_shared<SphVario>(3.5)}, {"exponential(6,2,az 0.4)", make_shared<ExpVario>(6, 2, 1, 0.4, 0, 2.0)},
          {"general exponential(1.5; 4,5)", make_shared<GenExpVario>(1.5, 4, 5, 1, -0.7, 0, 0.5)}, {"spherical(1.2,2.5)", make_shared<SphVario>(1.2, 2.5, 1, 0.0, 0, 1.0)}};
}

static void krig1d(const vector<VR>& W) {
  M->part = "Krig1D";
  int N = M->thorough() ? 10 : 8;
  for (size_t w = 0; w < W.size(); w++) for (double dx : {1.0, 0.5}) for (int n = 1; n <= 120; n += n < N ? 1 : n == N ? 31 - N : n < 40 ? 30 : 30) for (int pat = 0; pat < (n > N ? 8 : 1 << n); pat++) {
    if (!M->next()) continue;
    M->begin("%s, dx %g, %d nodes, known 0x%x", W[w].n, dx, n, pat); M->state(); M->step();
    const Variogram& v = *W[w].v;
    vector<double> f(n), obs; vector<bool> known(n); vector<int> at;
    for (int i = 0; i < n; i++) { f[i] = 0.75 * i - 2; known[i] = n > N ? (pat < 4 ? i % (pat + 2) == 1 : pat < 6 ? i % 17 == pat || i == n - 1 : (i * i) % 7 == pat - 5) : pat >> i & 1; if (known[i]) { at.push_back(i); obs.push_back(1.5 - i * i * 0.25); } }
    size_t k = at.size(); LM K(k, vector<ld>(k)), r(k, vector<ld>(1)), x;
    for (size_t i = 0; i < k; i++) { r[i][0] = obs[i] - f[at[i]]; for (size_t j = 0; j < k; j++) K[i][j] = v.GetCorr((at[i] - at[j]) * dx); }
    if (k && !solve(K, r, x)) continue;
    vector<double> e = f, g = f;
    for (int i = 0; i < n; i++) { ld s = 0; for (size_t j = 0; j < k; j++) s += x[j][0] * v.GetCorr((at[j] - i) * dx); e[i] = f[i] + s; }
    for (size_t j = 0; j < k; j++) e[at[j]] = obs[j];
    Kriging::Krig1D(g, known, obs, dx, v);
    for (int i = 0; i < n; i++) if (!M->check(fabs(g[i] - e[i]) < 1e-8 && (!known[i] || g[i] == e[i]), "node %d is %.12g, expected %.12g", i, g[i], e[i])) break;
  }
}

struct Dat { int i, j; float z; };
static double trend0(int i, int j) { return 10 + 0.5 * i - 0.25 * j + (i == j ? 1 : 0); }
/// simple kriging of nodal data on the grid; false if the system is singular
static bool nodal(const Variogram& v, int nx, int ny, double dx, double dy, const vector<Dat>& d, vector<double>& out) {
  vector<Dat> u; vector<int> c;
  for (auto& a : d) { if (a.z == 99999.0f) continue; size_t k = 0; while (k < u.size() && (u[k].i != a.i || u[k].j != a.j)) k++; if (k == u.size()) { u.push_back(a); c.push_back(1); } else { u[k].z += a.z; c[k]++; } }
  for (size_t k = 0; k < u.size(); k++) u[k].z /= c[k];
  size_t n = u.size(); LM K(n, vector<ld>(n)), r(n, vector<ld>(1)), x;
  for (size_t i = 0; i < n; i++) { r[i][0] = u[i].z - trend0(u[i].i, u[i].j); for (size_t j = 0; j < n; j++) K[i][j] = (float)v.GetCorr((u[i].i - u[j].i) * dx, (u[i].j - u[j].j) * dy); }
  if (n && !solve(K, r, x)) return false;
  out.assign(nx * ny, 0);
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { ld s = 0; for (size_t k = 0; k < n; k++) s += x[k][0] * (float)v.GetCorr((u[k].i - i) * dx, (u[k].j - j) * dy); for (size_t k = 0; k < n; k++) if (u[k].i == i && u[k].j == j) s = r[k][0]; out[j * nx + i] = s; }
  return true;
}

static void one_nodal(const VR& w, int nx, int ny, double dx, double dy, const vector<Dat>& d, bool full) {
  string h; for (auto& a : d) h += mc::fmt("(%d,%d)=%g ", a.i, a.j, a.z);
  M->begin("%s, %dx%d nodes of %gx%g, data %s", w.n, nx, ny, dx, dy, h.size() > 300 ? mc::fmt("%zu nodes", d.size()).c_str() : h.c_str()); M->state();
  vector<double> want;
  bool ok = nodal(*w.v, nx, ny, dx, dy, d, want);
  CovGrid2D cov(*w.v, nx, ny, dx, dy);
  NodalKrigingData2D kd; for (auto& a : d) kd.AddData(a.i, a.j, a.z);
  kd.FindMeanValues();
  double rx = floor(cov.GetRangeX() / dx), ry = floor(cov.GetRangeY() / dy);
  for (int mode = 0; mode < 3; mode++) for (int res = 0; res < 2; res++) {
    M->step();
    // mode 0: all at once; 1: blocks whose neighbourhood reaches every datum; 2: blocks, default neighbourhood
    double P = 2;
    if (mode == 1) { if (rx < 1 || ry < 1) continue; P = 2 * max(nx / rx, ny / ry) + 2; }
    Grid2D<double> g(nx, ny); for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) g(i, j) = trend0(i, j);
    try { Kriging::Krig2D(g, kd, cov, res, mode == 0, P); }
    catch (NRLib::Exception& e) { if (ok) M->fail(mc::fmt("mode %d, residuals %d: raised %s", mode, res, e.what())); continue; }
    if (!ok) continue;
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
      double e = want[j * nx + i] + (res ? 0 : trend0(i, j)); bool datum = false;
      for (auto& a : d) datum = datum || (a.z != 99999.0f && a.i == i && a.j == j);
      if (mode == 2 && !datum && !full) continue;
      if (!M->check(fabs(g(i, j) - e) < 2e-4, "%s%s, node (%d,%d) is %.9g, expected %.9g", mode == 0 ? "all at once" : mode == 1 ? "in blocks" : "in blocks with the default neighbourhood", res ? ", residuals" : "", i, j, g(i, j), e)) return;
    }
  }
}

static void krig_nodal(const vector<VR>& W) {
  M->part = "Krig2D nodal";
  auto value = [](int k, int i, int j) { return float(12 - 1.5 * k + 0.25 * i * j); };
  for (size_t w = 0; w < W.size(); w++) for (int sh = 0; sh < 3; sh++) {
    int nx = sh == 0 ? 3 : sh == 1 ? 1 : 5, ny = sh == 0 ? 4 : sh == 1 ? 6 : 2; double dx = sh == 2 ? 0.5 : 1, dy = sh == 2 ? 2 : 1;
    int N = nx * ny;
    for (int n = 0; n <= 3; n++) mc::sequences(N, n, [&](const vector<int>& s) {
      if (!M->next()) return;
      vector<Dat> d; for (int k = 0; k < n; k++) d.push_back({s[k] % nx, s[k] / nx, value(k, s[k] % nx, s[k] / nx)});
      one_nodal(W[w], nx, ny, dx, dy, d, false);
      if (n == 3) { d[1].z = 99999.0f; one_nodal(W[w], nx, ny, dx, dy, d, false); }
    });
  }
  // larger grids: the block split does not divide the grid
  for (size_t w = 0; w < W.size(); w++) for (int nx : {7, 14, 15, 19, 23, 26}) for (int ny : {1, 4, 13, 14, 25}) {
    for (int pl = 0; pl < 6; pl++) {
      if (!M->next()) continue;
      vector<Dat> d; const int C[][2] = {{0, 0}, {nx - 1, ny - 1}, {0, ny - 1}, {nx - 1, 0}, {nx / 2, ny / 2}};
      if (pl < 5) d.push_back({C[pl][0], C[pl][1], 14}); else for (auto& c : C) d.push_back({c[0], c[1], value(pl, c[0], c[1])});
      one_nodal(W[w], nx, ny, 1, 1, d, false);
    }
    for (int one = 0; one < (M->thorough() ? nx * ny : 0); one++) { if (!M->next()) continue; one_nodal(W[w], nx, ny, 1, 1, {{one % nx, one / nx, 14}}, false); }
  }
  // more than 200 data
  for (size_t w = 0; w < W.size(); w++) for (int nx : {18, 24}) for (int ny : {18, 27}) for (int st : {1, 2, 3}) {
    if (!M->next()) continue;
    vector<Dat> d; for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) if ((i * 7 + j * 3 + i * j) % (st + 1) != 0 || i == nx - 1) d.push_back({i, j, value(j % 3, i, 1)});
    if (d.size() <= 200 || d.size() > 330) continue;
    one_nodal(W[w], nx, ny, 1, 1, d, false);
  }
}

static void krig_continuous(const vector<VR>& W) {
  M->part = "Krig2D continuous";
  for (size_t w = 0; w < W.size(); w++) for (int n = 1; n <= 12; n++) for (int res = 0; res < 2; res++) {
    if (!M->next()) continue;
    const Variogram& v = *W[w].v; vector<Point> p; vector<Point*> pp;
    for (int k = 0; k < n; k++) p.push_back(Point(0.25 * (k % 4) + 0.1, 0.3 * (k / 4) + 0.05 * (k % 3), 3 + k % 5));
    for (auto& q : p) pp.push_back(&q);
    M->begin("%s, 2x2 nodes, %d data between them%s", W[w].n, n, res ? ", residuals" : ""); M->state(); M->step();
    RegularSurface<double> g(0, 0, 1, 1, 2, 2, 5.0);
    LM K(n, vector<ld>(n)), r(n, vector<ld>(1)), x;
    for (int i = 0; i < n; i++) { r[i][0] = p[i].z - 5; for (int j = 0; j < n; j++) K[i][j] = v.GetCov(p[i].x - p[j].x, p[i].y - p[j].y); }
    if (!solve(K, r, x)) continue;
    Kriging::Krig2D(g, pp, v, res, false, true);
    for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) { ld e = res ? 0 : 5; for (int k = 0; k < n; k++) e += x[k][0] * v.GetCov(p[k].x - i, p[k].y - j); if (!M->check(fabsl(g(i, j) - e) < 1e-5 * (1 + fabsl(e)), "node (%d,%d) is %.9g, expected %.9g", i, j, g(i, j), double(e))) break; }
  }
  for (size_t w = 0; w < W.size(); w++) for (int sh = 0; sh < 3; sh++) for (int n = 1; n <= 3; n++) {
    int nx = sh == 0 ? 3 : sh == 1 ? 4 : 13, ny = sh == 0 ? 4 : sh == 1 ? 2 : 14; double dx = sh == 1 ? 0.5 : 1, dy = sh == 1 ? 2 : 1, x0 = sh == 1 ? 100 : 0, y0 = sh == 1 ? -40 : 0;
    vector<pair<double, double>> pos;  // grid units
    if (sh < 2) for (int j = 0; j <= 2 * (ny - 1); j++) for (int i = 0; i <= 2 * (nx - 1); i++) { if (n == 3 && (i % 2) != (j % 2)) continue; pos.push_back({i * 0.5, j * 0.5}); }
    else pos = {{0, 0}, {12, 13}, {0, 13}, {12, 0}, {5.25, 7.5}, {11.5, 12.25}, {10, 3}};
    mc::sequences(pos.size(), n, [&](const vector<int>& s) {
      for (int a = 1; a < n; a++) if (s[a] <= s[a - 1]) return;  // ascending: distinct positions, each set once
      if (!M->next()) return;
      string h; vector<Point> p; vector<Point*> pp;
      for (int k = 0; k < n; k++) { auto q = pos[s[k]]; p.push_back(Point(x0 + q.first * dx, y0 + q.second * dy, 12 - 1.5 * k)); h += mc::fmt("(%g,%g)=%g ", p[k].x, p[k].y, p[k].z); }
      for (auto& q : p) pp.push_back(&q);
      const Variogram& v = *W[w].v;
      M->begin("%s, %dx%d nodes of %gx%g, data %s", W[w].n, nx, ny, dx, dy, h.c_str()); M->state();
      RegularSurface<double> T(x0, y0, (nx - 1) * dx, (ny - 1) * dy, nx, ny, 0.0);
      for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) T(i, j) = 10 + 0.5 * i - 0.25 * j;
      LM K(n, vector<ld>(n)), r(n, vector<ld>(1)), x;
      for (int i = 0; i < n; i++) { r[i][0] = p[i].z - (10 + 0.5 * (p[i].x - x0) / dx - 0.25 * (p[i].y - y0) / dy); for (int j = 0; j < n; j++) K[i][j] = v.GetCov(p[i].x - p[j].x, p[i].y - p[j].y); }
      if (!solve(K, r, x)) return;
      for (int mode = 0; mode < 3; mode++) for (int res = 0; res < 2; res++) {
        M->step();
        double P = 2;
        if (mode == 1) { double rx = floor(v.GetRangeX() / dx), ry = floor(v.GetRangeY() / dy); if (rx < 1 || ry < 1) continue; P = 2 * max(nx / rx, ny / ry) + 2; }
        RegularSurface<double> g(T);
        Kriging::Krig2D(g, pp, v, res, false, mode == 0, P);
        for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
          bool datum = false; for (auto& q : p) datum = datum || (q.x == x0 + i * dx && q.y == y0 + j * dy);
          if (mode == 2 && !datum) continue;
          ld e = 0; for (int k = 0; k < n; k++) e += x[k][0] * v.GetCov(p[k].x - (x0 + i * dx), p[k].y - (y0 + j * dy));
          if (!res) e += T(i, j);
          if (!M->check(fabsl(g(i, j) - e) < 2e-4, "%s%s, node (%d,%d) is %.9g, expected %.9g", mode == 0 ? "all at once" : mode == 1 ? "in blocks" : "in blocks with the default neighbourhood", res ? ", residuals" : "", i, j, g(i, j), double(e))) return;
        }
      }
      bool nodes = true; for (int k = 0; k < n; k++) nodes = nodes && pos[s[k]].first == floor(pos[s[k]].first) && pos[s[k]].second == floor(pos[s[k]].second);
      if (nodes) {  // on nodes, the index-based route is the nodal one
        RegularSurface<double> g(T); Kriging::Krig2D(g, pp, v, false, true, true);
        Grid2D<double> q(T); NodalKrigingData2D kd; for (int k = 0; k < n; k++) kd.AddData(int(pos[s[k]].first), int(pos[s[k]].second), float(p[k].z));
        CovGrid2D cov(v, nx, ny, dx, dy); Kriging::Krig2D(q, kd, cov, false, true);
        for (size_t c = 0; c < q.GetN(); c++) if (!M->check(fabs(g(c) - q(c)) < 1e-9, "use_index_grid: node %zu is %.9g, by nodal data %.9g", c, g(c), q(c))) return;
      }
    });
  }
}

static void kdata() {
  M->part = "kriging data";
  // every history of AddData over 2x2 cells and four values, one of them missing and one beyond the missing code
  for (int n = 0; n <= (M->thorough() ? 5 : 4); n++) mc::sequences(16, n, [&](const vector<int>& s) {
    if (!M->next()) return;
    const float VAL[] = {1, -2.5, 99999.0f, 150000.0f};
    string h; NodalKrigingData2D d(s.size()); ContinuousKrigingData2D c; vector<Dat> u; vector<int> cnt; vector<Dat> all;
    for (int o : s) { int i = o % 2, j = o / 2 % 2; float z = VAL[o / 4]; h += mc::fmt("(%d,%d)=%g ", i, j, z); d.AddData(i, j, z); c.AddData(i, j, z); if (z == 99999.0f) continue; all.push_back({i, j, z}); size_t k = 0; while (k < u.size() && (u[k].i != i || u[k].j != j)) k++; if (k == u.size()) { u.push_back({i, j, z}); cnt.push_back(1); } else { u[k].z += z; cnt[k]++; } }
    M->begin("AddData %s", h.c_str()); M->state(); M->step(4);
    d.FindMeanValues(); d.FindMeanValues();
    M->check(d.GetNumberOfData() == int(u.size()) && d.GetData().size() == u.size() && d.GetIndexI().size() == u.size() && d.GetIndexJ().size() == u.size(), "nodal: %d data, expected %zu", d.GetNumberOfData(), u.size());
    for (size_t k = 0; k < u.size() && k < d.GetData().size(); k++) M->check(d.GetIndexI(k) == u[k].i && d.GetIndexJ(k) == u[k].j && fabs(d.GetData(k) - u[k].z / cnt[k]) < 1e-6 * (1 + fabs(u[k].z)), "nodal datum %zu is (%d,%d)=%g", k, d.GetIndexI(k), d.GetIndexJ(k), d.GetData(k));
    M->check(c.GetNumberOfData() == int(all.size()), "continuous: %d data, expected %zu", c.GetNumberOfData(), all.size());
    for (size_t k = 0; k < all.size() && int(k) < c.GetNumberOfData(); k++) M->check(c.GetXVector()[k] == all[k].i && c.GetYVector()[k] == all[k].j && c.GetData()[k] == all[k].z, "continuous datum %zu", k);
    for (int a = 0; a < 2; a++) for (int b = a; b < 2; b++) for (int e = 0; e < 2; e++) for (int f = e; f < 2; f++) {
      size_t want = 0; for (auto& q : u) want += q.i >= a && q.i <= b && q.j >= e && q.j <= f;
      M->check(d.CountDataInBlock(a, b, e, f) == want, "CountDataInBlock(%d,%d,%d,%d) is %zu, expected %zu", a, b, e, f, d.CountDataInBlock(a, b, e, f), want);
      unique_ptr<KrigingData2D> k(d.NewInstance()); d.AddDataToBlock(*k, a, b, e, f); M->check(k->GetNumberOfData() == int(want), "AddDataToBlock(%d,%d,%d,%d) gives %d data, expected %zu", a, b, e, f, k->GetNumberOfData(), want);
    }
    unique_ptr<KrigingData2D> cl(d.Clone()); M->check(cl->GetNumberOfData() == int(u.size()), "Clone");
  });
}

static void condnormal(const vector<VR>& W) {
  M->part = "conditional normal";
  const double X[] = {0, 1, 2.5, 3, 7};
  for (size_t w = 0; w < W.size(); w++) for (int role = 0; role < 243; role++) for (int sd = 0; sd < 2; sd++) {
    if (!M->next()) continue;
    // role of each position: absent, known, unknown
    vector<double> xk, xu, zk, ek, eu, sk, su; vector<Point> pk, pu;
    for (int i = 0, r = role; i < 5; i++, r /= 3) { double s = sd ? 0.5 + 0.5 * i : 1; if (r % 3 == 1) { xk.push_back(X[i]); zk.push_back(2 - i); ek.push_back(0.5 * i); sk.push_back(s); pk.push_back(Point(X[i], 0.5 * i, 0)); } if (r % 3 == 2) { xu.push_back(X[i]); eu.push_back(-0.25 * i); su.push_back(s); pu.push_back(Point(X[i], 0.5 * i, 0)); } }
    if (xu.empty()) continue;
    const Variogram& v = *W[w].v; int n = xk.size(), m = xu.size();
    for (int sec = 0; sec < 4; sec++) {
      // 0: CondDistrMultiNormal in 1D; 1: 2D, all primary; 2: 2D, all secondary with one correlation; 3: 2D, mixed
      vector<double> lc(n); for (int i = 0; i < n; i++) lc[i] = sec < 2 ? 1 : sec == 2 ? 0.6 : i % 2 ? 0.5 : 1;
      M->begin("%s, roles %d, deviations %d, %s", W[w].n, role, sd, sec == 0 ? "1D" : sec == 1 ? "2D primary" : sec == 2 ? "2D secondary" : "2D mixed"); M->state(); M->step();
      auto cor = [&](bool ka, int a, bool kb, int b) { return sec == 0 ? v.GetCorr((ka ? xk[a] : xu[a]) - (kb ? xk[b] : xu[b])) : v.GetCorr((ka ? pk[a] : pu[a]).x - (kb ? pk[b] : pu[b]).x, (ka ? pk[a] : pu[a]).y - (kb ? pk[b] : pu[b]).y); };
      LM K(n, vector<ld>(n)), B(n, vector<ld>(1 + m)), x;
      for (int i = 0; i < n; i++) { B[i][0] = zk[i] - ek[i]; for (int j = 0; j < m; j++) B[i][1 + j] = lc[i] * sk[i] * su[j] * cor(true, i, false, j); for (int j = 0; j < n; j++) K[i][j] = (lc[i] == lc[j] ? 1 : min(lc[i], lc[j])) * sk[i] * sk[j] * cor(true, i, true, j); }
      LM Rhs = B;
      if (n && !solve(K, B, x)) continue;
      Vector e; SymmetricMatrix c;
      if (sec == 0) CondDistrMultiNormal(xk, zk, xu, ek, eu, sk, su, v, e, c);
      else SecondayCondDistrMultiNormal2D(pk, zk, lc, pu, ek, eu, sk, su, v, e, c);
      if (!M->check(e.length() == m && c.dim() == m, "sizes")) continue;
      for (int a = 0; a < m; a++) {
        ld s = eu[a]; for (int i = 0; i < n; i++) s += Rhs[i][1 + a] * x[i][0];
        if (!M->check(fabsl(e(a) - s) < 1e-8, "mean %d is %.12g, expected %.12g", a, e(a), double(s))) break;
        for (int b = a; b < m; b++) { ld t = su[a] * su[b] * cor(false, a, false, b); for (int i = 0; i < n; i++) t -= Rhs[i][1 + a] * x[i][1 + b]; if (!M->check(fabsl(el(c, a, b) - t) < 1e-8, "covariance %d,%d is %.12g, expected %.12g", a, b, el(c, a, b), double(t))) { a = m; break; } }
      }
      // a repeated observation changes nothing
      if (sec > 0 && n > 0) for (int dup = 0; dup < n; dup++) for (int at = dup + 1; at <= n; at++) {
        vector<Point> p2 = pk; vector<double> z2 = zk, l2 = lc, e2 = ek, s2 = sk;
        p2.insert(p2.begin() + at, pk[dup]); z2.insert(z2.begin() + at, zk[dup]); l2.insert(l2.begin() + at, lc[dup]); e2.insert(e2.begin() + at, ek[dup]); s2.insert(s2.begin() + at, sk[dup]);
        Vector f; SymmetricMatrix d; M->step();
        SecondayCondDistrMultiNormal2D(p2, z2, l2, pu, e2, eu, s2, su, v, f, d);
        bool same = f.length() == m && d.dim() == m; for (int a = 0; a < m && same; a++) { same = fabs(f(a) - e(a)) < 1e-8; for (int b = a; b < m && same; b++) same = fabs(el(d, a, b) - el(c, a, b)) < 1e-8; }
        if (!M->check(same, "observation %d given again as observation %d changes the result", dup, at)) break;
      }
    }
  }
  M->part = "posterior of one variable";
  for (double mp : {0.0, -2.0}) for (double vp : {1.0, 4.0}) for (double mo : {0.0, 5.0}) for (double vo : {1.0, 9.0}) for (double r : {-1.0, -0.5, 0.0, 0.25, 1.0}) for (double o : {-1.0, 5.0}) {
    if (!M->next()) continue;
    M->begin("prior N(%g,%g), observed N(%g,%g), correlation %g, observation %g", mp, vp, mo, vo, r, o); M->state(); M->step();
    double a, b; Posterior1DNormal(mp, vp, mo, vo, r, o, a, b); double cv = r * sqrt(vp * vo);
    M->check(fabs(a - (mp + cv / vo * (o - mo))) < 1e-12 && fabs(b - (vp - cv * cv / vo)) < 1e-12, "posterior N(%g,%g)", a, b);
  }
}

static void multinormal() {
  M->part = "multinormal";
  const double DG[] = {1, 4, 2}, OF[] = {0, -0.5, 0.75};
  for (int n = 1; n <= 3; n++) mc::sequences(3, n, [&](const vector<int>& dg) { mc::sequences(3, n * (n - 1) / 2, [&](const vector<int>& of) { for (int how = 0; how < 3; how++) {
    if (!M->next()) continue;
    string h; LM S(n, vector<ld>(n)); SymmetricMatrix cov(n); Vector mu(n); int k = 0;
    for (int i = 0; i < n; i++) { S[i][i] = DG[dg[i]]; mu(i) = 3 - 2 * i; for (int j = i + 1; j < n; j++) S[i][j] = S[j][i] = OF[of[k++]]; }
    ld det = n == 1 ? S[0][0] : n == 2 ? S[0][0] * S[1][1] - S[0][1] * S[0][1] : S[0][0] * (S[1][1] * S[2][2] - S[1][2] * S[1][2]) - S[0][1] * (S[0][1] * S[2][2] - S[1][2] * S[0][2]) + S[0][2] * (S[0][1] * S[1][2] - S[1][1] * S[0][2]);
    if (det < 0.05 || (n == 3 && S[0][0] * S[1][1] - S[0][1] * S[0][1] < 0.05)) continue;
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { cov(i, j) = double(S[i][j]); h += mc::fmt("%g ", double(S[i][j])); }
    M->begin("covariance %s, %s", h.c_str(), how == 0 ? "constructed" : how == 1 ? "SetParameters on an empty object" : "SetParameters on another distribution"); M->state(); M->step(8);
    SymmetricMatrix one(1); one(0, 0) = 9; Vector m1(1); m1(0) = -7;
    MultiNormal D = how == 0 ? MultiNormal(mu, cov) : how == 1 ? MultiNormal() : MultiNormal(m1, one);
    if (how) D.SetParameters(mu, cov);
    for (int t = 0; t < 3; t++) {
      Vector x(n); LM r(n, vector<ld>(1)), y; for (int i = 0; i < n; i++) { x(i) = t * (0.5 * i + 1) - 1; r[i][0] = x(i) - mu(i); }
      solve(S, r, y); ld q = n * logl(2 * acosl(-1.0L)) + logl(det); for (int i = 0; i < n; i++) q += r[i][0] * y[i][0];
      double got = D.Potential(x); if (!M->check(fabsl(got - q / 2) < 1e-9 * (1 + fabsl(q)), "Potential is %.12g, -log density is %.12g", got, double(q / 2))) return;
    }
    // draws are mu + A z with z the next standard normals and A A' the covariance
    for (uint32_t seed : {1u, 77u}) {
      NRLib::Random::Initialize(seed); RandomGenerator g; g.Initialize(seed); vref::Rng r(seed);
      LM Z, Y;
      for (int d = 0; d < 3 * n; d++) {
        Vector a = D.Draw(), b = D.Draw(g); vector<ld> z(n), y(n); for (int i = 0; i < n; i++) z[i] = r.norm();
        bool same = a.length() == n && b.length() == n; for (int i = 0; i < n && same; i++) { same = a(i) == b(i); y[i] = a(i) - mu(i); }
        if (!M->check(same, "the process-wide and the explicit generator give different draws from the same state")) return;
        Z.push_back(z); Y.push_back(y);
      }
      LM zz(n, vector<ld>(n)), zy(n, vector<ld>(n)), At;
      for (auto& z : Z) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) zz[i][j] += z[i] * z[j];
      for (size_t d = 0; d < Z.size(); d++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) zy[i][j] += Z[d][i] * Y[d][j];
      if (!solve(zz, zy, At)) continue;  // least squares: At[i][j] = A(j,i)
      for (size_t d = 0; d < Z.size(); d++) for (int j = 0; j < n; j++) { ld e = 0; for (int i = 0; i < n; i++) e += At[i][j] * Z[d][i]; if (!M->check(fabsl(e - Y[d][j]) < 1e-7, "draw %zu is not the mean plus a fixed matrix times the next standard normals", d)) return; }
      for (int a = 0; a < n; a++) for (int b = a; b < n; b++) { ld c = 0; for (int i = 0; i < n; i++) c += At[i][a] * At[i][b]; if (!M->check(fabsl(c - S[a][b]) < 1e-7, "draws have covariance %.9g for components %d and %d, expected %.9g", double(c), a, b, double(S[a][b]))) return; }
    }
  } }); });
}

static void stats() {
  M->part = "statistics";
  for (double code : {-999.0, 999.0, 0.5}) {
  const double AL[] = {code, 0, 1, -2.5, 7};
  auto miss = [&](double x) { return x == code; };
  auto one = [&](const vector<int>& s) { int n = int(s.size());
    if (!M->next()) return;
    string h; vector<double> v, w, u; for (int o : s) { v.push_back(AL[o]); u.push_back(AL[(o * 2 + u.size()) % 5]); if (AL[o] != code) w.push_back(AL[o]); h += mc::fmt("%g ", AL[o]); }
    M->begin("values %s", h.c_str()); M->state(); M->step(12);
    auto mom = [&](const vector<double>& a, ld& sum, ld& mean, ld& var) { sum = 0; for (double x : a) sum += x; mean = a.empty() ? 0 : sum / a.size(); var = 0; for (double x : a) var += (x - mean) * (x - mean); if (a.size() > 1) var /= a.size() - 1; };
    ld s1, m1, v1, s2, m2, v2; mom(v, s1, m1, v1); mom(w, s2, m2, v2);
    auto near = [&](double a, ld b) { return fabsl(a - b) <= 1e-9 * (1 + fabsl(b)); };
    M->check(Count(v.begin(), v.end()) == n && Count(v.begin(), v.end(), miss) == int(w.size()), "Count");
    M->check(near(Sum(v.begin(), v.end()), s1) && near(Sum(v.begin(), v.end(), miss), s2), "Sum");
    M->check(near(Mean(v.begin(), v.end(), false), m1) && near(Mean(v, false), m1) && near(Mean(v.begin(), v.end(), miss, false), m2) && near(Mean(v, miss, false), m2), "Mean");
    M->check(near(Var(v.begin(), v.end(), false), v1) && near(Var(v, false), v1) && near(Var(v.begin(), v.end(), miss, false), v2) && near(Var(v, miss, false), v2), "Var");
    M->check(raises([&] { Mean(v.begin(), v.end()); }) == v.empty() && raises([&] { Var(v.begin(), v.end()); }) == v.empty() && raises([&] { Mean(v.begin(), v.end(), miss); }) == w.empty() && raises([&] { Var(v.begin(), v.end(), miss); }) == w.empty() && raises([&] { Mean(v); }) == v.empty() && raises([&] { Var(v); }) == v.empty(), "no data must raise, and nothing else");
    auto ma = MaxElement(v.begin(), v.end()), mi = MinElement(v.begin(), v.end()), mam = MaxElement(v.begin(), v.end(), miss), mim = MinElement(v.begin(), v.end(), miss);
    M->check(v.empty() ? ma == v.end() && mi == v.end() : *ma == *max_element(v.begin(), v.end()) && *mi == *min_element(v.begin(), v.end()), "MaxElement or MinElement");
    M->check(w.empty() ? mam == v.end() && mim == v.end() : *mam == *max_element(w.begin(), w.end()) && *mim == *min_element(w.begin(), w.end()), "MaxElement or MinElement with missing values");
    ld s3, m3, v3; mom(u, s3, m3, v3); ld c = 0; for (int i = 0; i < n; i++) c += (v[i] - m1) * (u[i] - m3); if (n > 1) c /= n - 1;
    double got = Cov(v.begin(), v.end(), u.begin(), u.end(), false), g2 = Cov(v, u, false);
    M->check(near(got, c) && near(g2, c), "Cov is %g, expected %g", got, double(c));
    M->check(raises([&] { Cov(v.begin(), v.end(), u.begin(), u.end()); }) == v.empty(), "Cov of no data must raise, and nothing else");
    u.push_back(1); M->check(raises([&] { Cov(v, u); }) && Cov(v, u, false) == 0, "Cov of different lengths must raise");
  };
  for (int n = 0; n <= (M->thorough() ? 7 : 6); n++) mc::sequences(5, n, one);
  for (int n : {31, 64, 257, 1000, 3001}) for (int k = 0; k < 8; k++) { vector<int> s; for (int i = 0; i < n; i++) s.push_back(k < 4 ? (i * (k + 2) + i / 3) % 5 : k == 4 ? 0 : k == 5 ? (i == n - 1 ? 2 : 0) : k == 6 ? 1 + i % 4 : (i * i + i / 7) % 5); one(s); }

  }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  M = &m;
  auto W = varios();
  krig1d(W); krig_nodal(W); krig_continuous(W); kdata(); condnormal(W); multinormal(); stats();
  m.finish();
}
