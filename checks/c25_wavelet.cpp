// C25: wavelets: samples keep their time through any history, and files give the samples at their times.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <map>
#include <memory>
#include <nrlib/exception/exception.hpp>
#include <nrlib/wavelet/wavelet.hpp>
using namespace std;
using namespace NRLib;
static mc::MC* M;
template <class F> static bool raises(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static string path(const char* n) { return M->scratch + "/" + n; }
static void put(const string& f, const string& s) { ofstream o(f, ios::binary); o << s; }
static string get(const string& f) { ifstream i(f, ios::binary); return string(istreambuf_iterator<char>(i), {}); }

// the model: the number of samples, the interval, and a value per sample number counted from time zero
struct Model {
  int n = 0; double dt = 1; map<int, double> v;
  int before() const { return n / 2; }
  double at(int o) const { auto i = v.find(o); return i == v.end() ? 0.0 : i->second; }
  void cut() { for (auto i = v.begin(); i != v.end();) if (i->first < -before() || i->first >= n - before()) i = v.erase(i); else ++i; }
};
static bool same(const Wavelet& w, const Model& m, const char* what, double tol) {
  if (!M->check(int(w.GetNSamples()) == m.n, "%s: %zu samples, model %d", what, w.GetNSamples(), m.n)) return false;
  if (!M->check(fabs(w.GetSampleInterval() - m.dt) <= tol * m.dt, "%s: sample interval %g, model %g", what, w.GetSampleInterval(), m.dt)) return false;
  if (!M->check(int(w.GetCenterIndex()) == m.before(), "%s: time zero is sample %zu, model %d", what, w.GetCenterIndex(), m.before())) return false;
  if (!M->check(w.end() - w.begin() == m.n, "%s: the iterators span %td samples", what, w.end() - w.begin())) return false;
  for (int i = 0; i < m.n; i++) {
    double x = m.at(i - m.before());
    if (!M->check(fabs(w[i] - x) <= tol * max(fabs(x), 1e-30) && *(w.begin() + i) == w[i], "%s: sample %d (of %d) is %.9g, model %.9g", what, i, m.n, w[i], x)) return false;
    if (!M->check(fabs(w.GetTimeForIndex(i) - (i - m.before()) * m.dt) <= 1e-9 + tol * fabs(m.dt * m.n), "%s: time of sample %d is %g", what, i, w.GetTimeForIndex(i))) return false;
    M->step();
  }
  return true;
}
static double val(int k) { static const double V[] = {1, -0.5, 2.25, 1e-5, -1234.5, 0.125, 7, -3}; return V[((k % 8) + 8) % 8] + (k > 7 ? 0.25 * k : 0); }
static bool jason(Wavelet& w, const Model& m, const char* what) {
  if (m.n == 0) return true;
  string f = path("j"); static const vector<string> head = {"made by a test", "1.5, 2"};
  bool ok = true;
  for (int h = 0; h < 2; h++) {
    w.WriteToFile(f, JasonAscii, h ? head : vector<string>()); M->step();
    Model r = m; r.n = 2 * (m.n / 2) + 1;   // time zero is in the middle of what is read
    ok &= M->check(FindWaveletFileType(f) == JasonAscii, "%s: Jason file not recognised", what);
    try { Wavelet q(f); ok &= same(q, r, "Jason file read back", 1.1e-5); } catch (std::exception& e) { M->fail(string(what) + ": Jason file refused " + e.what()); ok = false; }
  }
  remove(f.c_str());
  return ok;
}
// ---- A: histories ------------------------------------------------------------------------------------
enum { SCALE, RES2, RES3, RESSAME, INTERVAL, SET, SIZE0 };   // then Resize(0..9)
static void write_landmark(const string& f, int n, int c, double dt) { string t = mc::fmt("Landmark ASCII Wavelet\n%d\n%d\n%g\n", n, c, dt); for (int i = 0; i < n; i++) t += mc::fmt("%g\n", 10.5 + i); put(f, t); }
static void histories() {
  const int NS = 10, NOPS = SIZE0 + NS + 2;
  for (int len = 0; len <= (M->thorough() ? 4 : 3); len++) mc::sequences(NOPS, len, [&](const vector<int>& ops) {
    if (!M->next()) return;
    string h; for (int o : ops) h += o < SIZE0 ? mc::fmt(" op%d", o) : o < SIZE0 + NS ? mc::fmt(" Resize(%d)", o - SIZE0) : mc::fmt(" ReadFromFile%d", o - SIZE0 - NS);
    M->begin("history%s (op0 Scale, op1 Resample twice, op2 Resample thrice, op3 Resample same, op4 SetSampleInterval, op5 set last)", h.c_str()); M->state();
    for (int start = 0; start < 6; start++) {
      Model m; unique_ptr<Wavelet> w;
      if (start == 0) w.reset(new Wavelet());
      else if (start < 3) { m.n = start == 1 ? 7 : 6; m.dt = 2; w.reset(new Wavelet(size_t(m.n), 2.0)); for (int i = 0; i < m.n; i++) { (*w)[i] = val(i); m.v[i - m.before()] = val(i); } }
      else { m.n = start == 3 ? 9 : start == 4 ? 4 : 61; m.dt = 4; double fq = 25, s = start == 3 ? 1 : -2; w.reset(new Wavelet(fq, size_t(m.n), 4.0, s)); for (int i = -m.before(); i < m.n - m.before(); i++) { double a = M_PI * fq * i * 4 / 1000; m.v[i] = s * (1 - 2 * a * a) * exp(-a * a); } }
      bool ok = same(*w, m, "at the start", 1e-12);
      for (size_t k = 0; ok && k < ops.size(); k++) {
        int o = ops[k]; Wavelet c(*w); Model b = m; M->step();
        if (o == SCALE) { w->Scale(-1.5); for (auto& x : m.v) x.second *= -1.5; }
        else if (o == RES2 || o == RES3) {
          int q = o == RES2 ? 2 : 3; w->Resample(m.dt * q); Model r; r.dt = m.dt * q;
          int a = m.n ? (m.n - m.before() - 1) / q : 0, e = m.before() / q; r.n = m.n ? a + e + 1 : 0;
          for (int i = -e; i <= a; i++) r.v[i] = m.at(i * q);
          m = r;
        }
        else if (o == RESSAME) { w->Resample(m.dt); ok &= M->check(raises([&] { w->Resample(m.dt * 1.5); }) && raises([&] { w->Resample(m.dt / 2); }), "resampling that is not a multiple is not refused"); }
        else if (o == INTERVAL) { w->SetSampleInterval(m.dt * 1.5); m.dt *= 1.5; }
        else if (o == SET) { if (m.n) { (*w)[m.n - 1] = 77; m.v[m.n - 1 - m.before()] = 77; *w->begin() = -3; m.v[-m.before()] = -3; } }
        else if (o < SIZE0 + NS) { w->Resize(o - SIZE0); m.n = o - SIZE0; m.cut(); }
        else {
          int n = 5, z = o == SIZE0 + NS ? 1 : 2; string f = path("h"); write_landmark(f, n, z, 2.5); w->ReadFromFile(f, LandmarkAscii); remove(f.c_str());
          m = Model(); m.dt = 2.5; m.n = 2 * max(z, n - z - 1) + 1; for (int i = 0; i < n; i++) m.v[i - z] = 10.5 + i;
        }
        ok = ok && same(*w, m, "after these", 1e-12) && same(c, b, "copy made before", 1e-12);
      }
      if (ok && int(ops.size()) == 2) jason(*w, m, "history");
    }
  });
}
// ---- B: files ----------------------------------------------------------------------------------------
static string num(double x, int st) { return st == 0 ? mc::fmt("%g", x) : st == 1 ? mc::fmt("%.6f", x) : mc::fmt("%.8E", x); }
static string content(int kind, int n, int c, double dt, int st, int var, bool tail, vector<size_t>* lineends, int nsamp) {
  string t;
  if (kind == JasonAscii) {
    if (var & 1) t += "\"* comment, with, a, comma\n \" * more\n\n"; else t += "\"*\n";
    t += var & 2 ? "\"Wavelet\", \"None\",\"Time\" , \"ms\"  \n" : "\"wavelet\", \"none\", \"time\", \"ms\"\n";
    t += num(-c * dt, st) + "\n" + num(dt, st) + "\n" + mc::fmt("%d\n", n);
    for (int i = 0; i < nsamp; i++) { t += (var & 1 ? "  " : "") + num(val(i), st) + "\n"; if (lineends) lineends->push_back(t.size()); }
  } else if (kind == SyntoolOW) {
    t = "Syntool\n\nWavelet Data:\n";
    string p[3] = {mc::fmt("Total Samples: %d\n", n), "Sample Interval: " + num(dt, st) + "\n", mc::fmt("Time Zero Sample:  %d\n", c)};
    for (int i = 0; i < 3; i++) t += p[(i + var) % 3] + (var & 1 ? "Other: 7\n" : "");
    t += "-------------\n";
    for (int i = 0; i < nsamp; i++) { t += num((i - c) * dt, st) + (var & 1 ? "\t" : "  ") + num(val(i), st) + "\n"; if ((var & 2) && i + 1 < nsamp) t += "\n"; if (lineends) lineends->push_back(t.size()); }
  } else if (kind == Strata) {
    t = "#STRATA_WHIST\nhistory\n"; if (var & 1) t += "~SR9\n";
    t += "#STRATA_WPARAMS\n";
    string p[3] = {"~SR" + num(dt, st) + "\n", mc::fmt("~TZ%d\n", c + 1), mc::fmt("~NS%d\n", n)};
    for (int i = 0; i < 3; i++) t += p[(i + var) % 3] + (var & 2 ? "~PR1\n~XX y\n" : "");
    for (int i = 0; i < nsamp; i++) { t += num(val(i), st) + "\n"; if (lineends) lineends->push_back(t.size()); }
  } else {
    t = "Landmark ASCII Wavelet\n";
    if (var & 1) t += mc::fmt("%d %d %s\n", n, c, num(dt, st).c_str()); else t += mc::fmt("%d\n%d\n%s\n", n, c, num(dt, st).c_str());
    for (int i = 0; i < nsamp; i++) { t += num(val(i), st) + (var & 2 ? " " : "\n"); if (lineends) lineends->push_back(t.size()); }
  }
  if (tail && (kind == JasonAscii || kind == Strata)) t += var & 1 ? "  \n" : "";
  return t;
}
static void files() {
  string f = path("w");
  const WaveletFileType K[] = {JasonAscii, SyntoolOW, Strata, LandmarkAscii};
  for (int kind : K) for (int n : {1, 2, 3, 4, 5, 6, 17, 64, 333}) for (int c = 0; c < n; c += n > 6 ? (n - 1) / 4 : 1) for (double dt : {1.0, 2.0, 0.5, 3.75, 0.1, 0.7}) for (int st = 0; st < 3; st++) for (int var = 0; var < 4; var++) {
    if (!M->next()) continue;
    M->begin("file of kind %d with %d samples, time zero at %d, interval %g, style %d, variant %d", kind, n, c, dt, st, var); M->state();
    Model m; m.dt = dt; m.n = 2 * max(c, n - c - 1) + 1; for (int i = 0; i < n; i++) m.v[i - c] = atof(num(val(i), st).c_str());
    for (int tail = 0; tail < 3; tail++) for (int type = 0; type < 2; type++) for (double s : {1.0, -0.5}) {
      vector<size_t> le; string t = content(kind, n, c, dt, st, var, tail == 1, &le, n); if (tail == 2) t.pop_back();
      put(f, t); M->step();
      if (!M->check(FindWaveletFileType(f) == kind, "recognised as kind %d", int(FindWaveletFileType(f)))) return;
      Model q = m; for (auto& x : q.v) x.second *= s;
      try { Wavelet w(f, type ? WaveletFileType(kind) : UnknownWavelet, s); if (!same(w, q, tail == 2 ? "read without last newline" : "read", 1e-12)) return; }
      catch (std::exception& e) { M->fail(mc::fmt("refused%s: %s", tail == 2 ? " without last newline" : "", e.what())); return; }
    }
    // too few samples, at the end of any line
    for (int k = 0; k < n; k += n > 6 && k < n - 2 ? (n - 2) / 3 : 1) { put(f, content(kind, n, c, dt, st, var, false, NULL, k)); M->step(); if (!M->check(raises([&] { Wavelet w(f, WaveletFileType(kind)); }), "a file with %d of %d samples was accepted", k, n)) return; }
    // text instead of a number, time zero outside, too many samples
    { vector<size_t> le; string t = content(kind, n, c, dt, st, var, false, &le, n); size_t b = (n > 1 ? le[n - 2] : t.rfind(num(val(0), st)));
      put(f, t.substr(0, b) + (kind == SyntoolOW ? "1 abc\n" : "abc\n")); M->check(raises([&] { Wavelet w(f, WaveletFileType(kind)); }), "a sample that is no number was accepted");
      put(f, content(kind, n, n, dt, st, var, false, NULL, n)); M->check(raises([&] { Wavelet w(f, WaveletFileType(kind)); }), "time zero after the last sample was accepted");
      put(f, content(kind, n, -1, dt, st, var, false, NULL, n)); M->check(raises([&] { Wavelet w(f, WaveletFileType(kind)); }), "time zero before the first sample was accepted");
      if (kind == JasonAscii) { put(f, t + "5.5\n"); M->check(raises([&] { Wavelet w(f, WaveletFileType(kind)); }), "more samples than declared were accepted"); }
      // a header line left out
      if (kind == SyntoolOW || kind == Strata) for (const char* key : {"Total Samples:", "Sample Interval:", "Time Zero Sample:", "~SR", "~TZ", "~NS", "---", "#STRATA_WPARAMS"}) {
        size_t p = t.rfind(key); if (p == string::npos) continue;
        p = t.rfind('\n', p) + 1; size_t e = t.find('\n', p) + 1;
        put(f, t.substr(0, p) + t.substr(e)); M->step(); M->check(raises([&] { Wavelet w(f, WaveletFileType(kind)); }), "a file without %s was accepted", key);
        if (kind == SyntoolOW && key[0] != '-') { put(f, t.substr(0, p) + t.substr(p, e - p) + t.substr(p)); M->check(raises([&] { Wavelet w(f, WaveletFileType(kind)); }), "a file with %s twice was accepted", key); }
      }
    }
    remove(f.c_str());
  }
  for (const char* t : {"", "\n", "1 2 3\n", "wavelet, none, time, ms\n", "\"a\", \"b\", \"c\"\n1\n"}) {
    if (!M->next()) continue;
    M->begin("file of another kind [%.20s]", t); M->state(); put(f, t); M->step();
    M->check(FindWaveletFileType(f) == UnknownWavelet, "recognised as kind %d", int(FindWaveletFileType(f)));
    M->check(raises([&] { Wavelet w(f); }), "accepted"); for (int k : K) M->check(raises([&] { Wavelet w(f, WaveletFileType(k)); }), "accepted as kind %d", k);
    remove(f.c_str()); M->check(raises([&] { Wavelet w(f); }), "an absent file was accepted");
    Wavelet w(3, 1.0); for (int k : {UnknownWavelet, SyntoolOW, Strata, LandmarkAscii}) M->check(raises([&] { w.WriteToFile(f, WaveletFileType(k)); }), "writing as kind %d was accepted", k); remove(f.c_str());
  }
  // Ricker
  for (int n = 0; n <= 40; n++) for (double fq : {5.0, 25.0, 60.0}) for (double dt : {1.0, 2.0, 4.0}) for (double s : {1.0, 3.5}) {
    if (!M->next()) continue;
    M->begin("Ricker wavelet of %d samples, peak frequency %g, interval %g, scaling %g", n, fq, dt, s); M->state();
    Model m; m.n = n; m.dt = dt; for (int i = -m.before(); i < n - m.before(); i++) { double a = M_PI * fq * i * dt / 1000; m.v[i] = s * (1 - 2 * a * a) * exp(-a * a); }
    Wavelet w(fq, n, dt, s); if (same(w, m, "Ricker", 1e-9)) jason(w, m, "Ricker");
  }
}
int main(int argc, char** argv) { mc::MC mc(argc, argv); M = &mc; M->part = "histories"; histories(); M->part = "files"; files(); M->finish(); }
