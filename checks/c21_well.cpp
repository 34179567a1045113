// C21: wells and their file formats: all histories of log operations, all small RMS, NORSAR and LAS files (well formed and damaged),
// blocking into a Storm grid.
#include "mc.hpp"
#include <algorithm>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <nrlib/exception/exception.hpp>
#include <nrlib/stormgrid/stormcontgrid.hpp>
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/volume/volume.hpp>
#include <nrlib/well/laswell.hpp>
#include <nrlib/well/norsarwell.hpp>
#include <nrlib/well/rmswell.hpp>
#include <nrlib/well/well.hpp>
#include <nrlib/well/welloperations.hpp>
using namespace std;
using namespace NRLib;
static mc::MC* M;
typedef map<string, vector<double>> CL;
typedef map<string, vector<int>> DL;
template <class F> static bool raises(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static void put(const string& fn, const string& s) { ofstream f(fn, ios::binary); f << s; }
static string show(const string& s) { string o; for (char c : s) o += c == '\n' ? string("\\n") : string(1, c); return o; }

// ---- the container ---------------------------------------------------------------------------------
struct WM { CL c; DL d; string name; double rm = -999; int im = -999; bool dev = false; int n = 0; unsigned nn = 0; double x = 0, y = 0; };
static string up(string s) { for (char& ch : s) ch = char(toupper(ch)); return s; }
static void same(const Well& w, const WM& m, const char* who) {
  M->check(w.GetContLog() == m.c && w.GetDiscLog() == m.d, "%s: the logs are not those given", who);
  M->check(w.GetWellName() == m.name && w.GetContMissing() == m.rm && w.GetIntMissing() == m.im && w.IsDeviated() == m.dev && w.GetNData() == m.n && w.GetNumberOfNonMissingData() == m.nn, "%s: name, missing codes, flag or counts", who);
  M->check(const_cast<Well&>(w).GetXPos0() == m.x && const_cast<Well&>(w).GetYPos0() == m.y, "%s: position (%g,%g), expected (%g,%g)", who, const_cast<Well&>(w).GetXPos0(), const_cast<Well&>(w).GetYPos0(), m.x, m.y);
  M->check(w.GetNlog() == m.c.size() + m.d.size() && w.GetNContLog() == m.c.size(), "%s: number of logs", who);
  for (string l : {"A", "a", "b", "Q"}) {
    bool hc = m.c.count(l), hd = m.d.count(l);
    M->check(w.HasContLog(l) == hc && w.HasDiscLog(l) == hd, "%s: HasContLog/HasDiscLog of %s", who, l.c_str());
    if (hc) { const vector<double>& v = m.c.at(l); M->check(w.GetContLog(l) == v && w.GetContLogLength(l) == v.size(), "%s: log %s", who, l.c_str()); }
    if (hd) { M->check(w.GetDiscLog(l) == m.d.at(l), "%s: log %s", who, l.c_str()); map<int, string> e; for (int v : m.d.at(l)) if (v != m.im) e[v] = to_string(v); M->check(w.GetDiscNames(l) == e, "%s: GetDiscNames of %s", who, l.c_str()); }
    for (size_t i : {size_t(0), size_t(1), size_t(3), size_t(7)}) {
      double ec = hc && i < m.c.at(l).size() ? m.c.at(l)[i] : m.rm; int ed = hd && i < m.d.at(l).size() ? m.d.at(l)[i] : m.im;
      M->check(w.GetContValue(i, l) == ec, "%s: GetContValue(%zu,%s) is %g, expected %g", who, i, l.c_str(), w.GetContValue(i, l), ec);
      M->check(w.GetDiscValue(i, l) == ed, "%s: GetDiscValue(%zu,%s) is %d, expected %d", who, i, l.c_str(), w.GetDiscValue(i, l), ed);
    }
  }
  for (double v : {-999.0, 5.0, 0.0, 5.5}) M->check(w.IsMissing(v) == (v == m.rm), "%s: IsMissing(%g)", who, v);
  for (int v : {-999, 5, 0, -1}) M->check(w.IsMissing(v) == (v == m.im), "%s: IsMissing(%d)", who, v);
}
static void container() {
  M->part = "logs";
  for (int n = 0; n <= (M->thorough() ? 4 : 3); n++) mc::sequences(20, n, [&](const vector<int>& s) {
    for (int ctor = 0; ctor < 3; ctor++) {
      if (!M->next()) continue;
      WM m, o; unique_ptr<Well> w; Well other;
      if (ctor == 0) w.reset(new Well());
      if (ctor == 1) { w.reset(new Well("W", 5.5, 5)); m.name = "W"; m.rm = 5.5; m.im = 5; }
      if (ctor == 2) { m.c["A"] = {1, -999, 2.5}; m.d["b"] = {4, -999, 4, 7}; m.name = "both"; w.reset(new Well(m.c, m.d, "both")); }
      string h; for (int op : s) h += mc::fmt(" %d", op);
      M->begin("constructor %d, operations%s", ctor, h.c_str()); M->state(); same(*w, m, "new");
      for (int op : s) {
        M->step();
        switch (op) {
          case 0: w->AddContLog("A", {1, 5.5, -999, 4}); m.c["A"] = {1, 5.5, -999, 4}; break;
          case 1: w->AddContLog("a", {2}); m.c["a"] = {2}; break;
          case 2: w->AddContLog("A", {}); m.c["A"] = {}; break;
          case 3: w->AddDiscLog("A", {3, 5, 3}); m.d["A"] = {3, 5, 3}; break;
          case 4: w->AddDiscLog("a", {5, -999}); m.d["a"] = {5, -999}; break;
          case 5: w->AddDiscLog("b", {-999, -999}); m.d["b"] = {-999, -999}; break;
          case 6: w->RemoveContLog("A"); m.c.erase("A"); break;
          case 7: w->RemoveDiscLog("A"); m.d.erase("A"); break;
          case 8: w->RemoveDiscLog("b"); m.d.erase("b"); break;
          case 9: { w->MakeLogsUppercase(); CL c; DL d; for (auto& p : m.c) c[up(p.first)] = p.second; for (auto& p : m.d) d[up(p.first)] = p.second; m.c = c; m.d = d; break; }
          case 10: w->SetMissing(5.0); m.rm = 5; m.im = 5; break;
          case 11: w->SetMissing(-999.25); m.rm = -999.25; m.im = -999; break;
          case 12: if (m.c.count("A") && m.c["A"].size() > 1) { w->SetContValue(-2.5, 1, "A"); m.c["A"][1] = -2.5; } break;
          case 13: if (m.d.count("A") && m.d["A"].size() > 2) { w->SetDiscValue(9, 2, "A"); m.d["A"][2] = 9; } break;
          case 14: if (m.c.count("a")) { w->GetContLog("a").push_back(8); m.c["a"].push_back(8); } if (m.d.count("b")) { w->GetDiscLog("b").push_back(8); m.d["b"].push_back(8); } break;
          case 15: w->SetWellName("n2"); m.name = "n2"; w->SetDeviated(true); m.dev = true; break;
          case 16: w->SetXPos0(3.5); w->SetYPos0(-1); m.x = 3.5; m.y = -1; w->SetNumberOfData(4); m.n = 4; w->SetNumberOfNonMissingData(2); m.nn = 2; break;
          case 17: other = *w; o = m; break;
          case 18: w.reset(new Well(other)); m = o; break;
          case 19: *w = *w; swap(*w, other); swap(m, o); break;
        }
        same(*w, m, "well"); same(other, o, "other");
      }
    }
  });
}

// ---- RMS -------------------------------------------------------------------------------------------
static const double VALS[] = {0, 1.5, -999, -2.25e-3, 123456.78};
static bool close8(double a, double b) { return fabs(a - b) <= 6e-8 * fabs(b); }
struct Col { string name; int kind; };   // 0: with unit and scale, 1: name only, 2: discrete with names, 3: discrete without names
static void rms_same(const RMSWell& w, const vector<Col>& cols, const vector<vector<double>>& xyz, const vector<vector<double>>& v, const string& nm, double x0, double y0, bool exact, const char* who) {
  auto eq = [&](double a, double b) { return exact ? a == b : close8(a, b); };
  size_t nc = 3; for (auto& c : cols) nc += c.kind < 2;
  M->check(w.GetWellName() == nm && eq(const_cast<RMSWell&>(w).GetXPos0(), x0) && eq(const_cast<RMSWell&>(w).GetYPos0(), y0), "%s: name '%s' or position", who, w.GetWellName().c_str());
  M->check(w.GetNlog() == cols.size() + 3 && w.GetNContLog() == nc && w.GetNData() == int(xyz.size()), "%s: %zu logs, %d rows", who, w.GetNlog(), w.GetNData());
  const char* X[] = {"X", "Y", "Z"};
  for (int k = 0; k < 3; k++) { if (!M->check(w.HasContLog(X[k]) && w.GetContLog(X[k]).size() == xyz.size(), "%s: log %s", who, X[k])) continue; for (size_t r = 0; r < xyz.size(); r++) M->check(eq(w.GetContLog(X[k])[r], xyz[r][k]), "%s: %s of row %zu is %.12g, expected %.12g", who, X[k], r, w.GetContLog(X[k])[r], xyz[r][k]); }
  for (size_t c = 0; c < cols.size(); c++) {
    string n = up(cols[c].name);
    if (cols[c].kind < 2) { if (!M->check(w.HasContLog(n) && w.GetContLog(n).size() == xyz.size(), "%s: log %s", who, n.c_str())) continue; for (size_t r = 0; r < xyz.size(); r++) M->check(eq(w.GetContLog(n)[r], v[r][c]), "%s: %s of row %zu is %.12g, expected %.12g", who, n.c_str(), r, w.GetContLog(n)[r], v[r][c]); }
    else { if (!M->check(w.HasDiscLog(n) && w.GetDiscLog(n).size() == xyz.size(), "%s: discrete log %s", who, n.c_str())) continue; for (size_t r = 0; r < xyz.size(); r++) M->check(w.GetDiscLog(n)[r] == int(v[r][c]), "%s: %s of row %zu is %d", who, n.c_str(), r, w.GetDiscLog(n)[r]);
      if (exact || cols[c].kind == 2) { map<int, string> e; if (cols[c].kind == 2) e = {{0, "sand"}, {2, "shale"}}; M->check(w.GetDiscNames(n) == e, "%s: names of %s", who, n.c_str()); } }
  }
}
static void rms() {
  M->part = "RMS";
  string fn = M->scratch + "/w.rmswell", f2 = M->scratch + "/w2.rmswell";
  vector<vector<int>> sets; for (int nc = 0; nc <= 3; nc++) mc::sequences(4, nc, [&](const vector<int>& kinds) { sets.push_back(kinds); });
  for (int first = 0; first < 4; first++) { vector<int> k; for (int i = 0; i < 40; i++) k.push_back((first + i * i) % 4); sets.push_back(k); }
  for (auto& kinds : sets) { int nc = int(kinds.size());
    for (int rows : nc <= 2 || nc > 3 ? vector<int>{0, 1, 2, 3, 4, 130} : vector<int>{0, 1, 2, 3, 4}) for (int style = 0; style < 4; style++) {
      if (!M->next()) continue;
      vector<Col> cols; for (int i = 0; i < nc; i++) cols.push_back({i == 1 ? string("Por") : i == 0 ? string("perm") : i == 2 ? string("FAC") : mc::fmt("c%d", i), kinds[i]});
      string ks; for (int k : kinds) ks += char('0' + k);
      M->begin("columns '%s', %d rows, style %d", ks.c_str(), rows, style); M->state(); M->step(4);
      string head = mc::fmt("1.0\nUndefined type\nWell-1%s 1234.5 -20.25%s\n%d%s\n", style == 1 ? "\t" : "", style == 2 ? " 7" : "", nc, style == 2 ? " trailing" : "");
      for (auto& c : cols) head += c.name + (c.kind == 0 ? " m lin" : c.kind == 2 ? " DISC 0 sand 2 shale" : c.kind == 3 ? " DISC" : "") + "\n";
      vector<vector<double>> xyz, v; vector<string> body;
      for (int r = 0; r < rows; r++) {
        xyz.push_back({1000.5 + r, -7.25, 10.0 * r}); v.emplace_back(); string l = mc::fmt("%.10g %.10g %.10g", xyz[r][0], xyz[r][1], xyz[r][2]);
        for (int i = 0; i < nc; i++) { double x = cols[i].kind < 2 ? VALS[(r + 2 * i + rows) % 5] : (double[]){0, 2, -999, 5}[(r + i + rows) % 4]; v[r].push_back(x); l += style == 3 && cols[i].kind >= 2 ? mc::fmt(" %.7e", x) : mc::fmt(" %.10g", x); }
        body.push_back(l);
      }
      string txt = head; for (auto& l : body) txt += l + "\n"; if (style == 1 && rows) txt.pop_back(); if (style == 2) txt += "\n  \n";
      put(fn, txt);
      unique_ptr<RMSWell> w; if (!M->check(!raises([&] { w.reset(new RMSWell(fn)); }), "a well formed file raises")) continue;
      rms_same(*w, cols, xyz, v, "Well-1", 1234.5, -20.25, true, "read");
      int fmt = Well::RMS; unique_ptr<Well> g; if (M->check(!raises([&] { g.reset(Well::ReadWell(fn, fmt)); }), "ReadWell raises")) { M->check(fmt == Well::RMS && g->GetContLog() == w->GetContLog() && g->GetDiscLog() == w->GetDiscLog() && g->GetWellName() == "Well-1", "ReadWell"); }
      w->WriteToFile(f2); unique_ptr<RMSWell> b; if (M->check(!raises([&] { b.reset(new RMSWell(f2)); }), "the written file raises")) rms_same(*b, cols, xyz, v, "Well-1", 1234.5, -20.25, false, "written and read");
      if (rows > 0) {   // from a general well
        CL c; DL d; for (int k = 0; k < 3; k++) for (int r = 0; r < rows; r++) c[k == 0 ? "X" : k == 1 ? "Y" : "Z"].push_back(xyz[r][k]);
        for (int i = 0; i < nc; i++) for (int r = 0; r < rows; r++) { if (cols[i].kind < 2) c[up(cols[i].name)].push_back(v[r][i]); else d[up(cols[i].name)].push_back(int(v[r][i])); }
        Well base(c, d, "gen"); RMSWell k(base); M->check(k.GetContLog() == c && k.GetDiscLog() == d && k.GetWellName() == "gen", "RMSWell(Well)");
        for (auto& p : d) { map<int, string> e; for (int x : p.second) if (x != -999) e[x] = to_string(x); M->check(k.GetDiscNames(p.first) == e, "names of %s in RMSWell(Well)", p.first.c_str()); }
        k.WriteToFile(f2); vector<Col> c3; for (auto& q : cols) c3.push_back({q.name, q.kind < 2 ? 0 : 3}); unique_ptr<RMSWell> b2;
        if (M->check(!raises([&] { b2.reset(new RMSWell(f2)); }), "RMSWell(Well) written raises")) { rms_same(*b2, c3, xyz, v, "gen", xyz[0][0], xyz[0][1], false, "RMSWell(Well), written and read"); for (auto& p : d) { map<int, string> e; for (int x : p.second) if (x != -999) e[x] = to_string(x); M->check(b2->GetDiscNames(p.first) == e, "names of %s, written and read", p.first.c_str()); } }
      }
      // changed after reading, then written
      if (style == 0) for (int ch = 0; ch < 4; ch++) {
        RMSWell k(*w); vector<Col> c2 = cols; auto v2 = v; M->step();
        if (ch == 0) { k.AddContLog("ADDED", vector<double>(rows, 2.5)); c2.push_back({"ADDED", 1}); for (auto& r : v2) r.push_back(2.5); }
        if (ch == 1) { k.AddDiscLog("ADDED", vector<int>(rows, 2)); c2.push_back({"ADDED", 3}); for (auto& r : v2) r.push_back(2); }
        if (ch == 2) { if (!nc) continue; if (c2[0].kind < 2) k.RemoveContLog(up(c2[0].name)); else k.RemoveDiscLog(up(c2[0].name)); c2.erase(c2.begin()); for (auto& r : v2) r.erase(r.begin()); }
        if (ch == 3) { if (!nc || c2[0].kind >= 2) continue; k.AddContLog(up(c2[0].name), vector<double>(rows, -1.5)); for (auto& r : v2) r[0] = -1.5; }
        k.WriteToFile(f2); unique_ptr<RMSWell> b3; if (M->check(!raises([&] { b3.reset(new RMSWell(f2)); }), "change %d, written: raises", ch)) rms_same(*b3, c2, xyz, v2, "Well-1", 1234.5, -20.25, false, mc::fmt("change %d, written and read", ch).c_str());
      }
      // damage: every line of the body one number short, or with a word; header cut after each line; negative number of logs
      if (style == 0) {
        for (int r = 0; r < rows; r++) for (int k = 0; k < 2; k++) { string t = head; for (int q = 0; q < rows; q++) { string l = body[q]; size_t sp = l.rfind(' '); if (q == r) l = l.substr(0, sp) + (k ? " xyz" : ""); t += l + "\n"; } put(fn, t); M->step(); M->check(raises([&] { RMSWell x(fn); }), "row %d %s does not raise", r, k ? "with a word" : "that is too short"); }
        vector<size_t> nl; for (size_t i = 0; i < head.size(); i++) if (head[i] == '\n') nl.push_back(i + 1);
        for (size_t i = 0; i + 1 < nl.size(); i++) { put(fn, head.substr(0, nl[i])); M->step(); M->check(raises([&] { RMSWell x(fn); }), "a header of %zu lines does not raise", i + 1); }
        for (const char* n : {"-1", "-2", "-3", "-7", "x", "1.5"}) { put(fn, string("1.0\nU\nW 1 2\n") + n + "\nA m l\n1 2 3 4\n"); M->step(); M->check(raises([&] { RMSWell x(fn); }), "%s logs do not raise", n); }
        M->check(raises([&] { RMSWell x(M->scratch + "/absent"); }), "a missing file does not raise");
      }
    }
  }
}

// ---- NORSAR ----------------------------------------------------------------------------------------
struct Sec { vector<double> md; int ncol, mdcol; string pre; };
static double cell(const Sec& s, int r, int c) { return c == s.mdcol ? s.md[r] : 100 * (s.pre[0] - 'a') + 10 * c + r + 0.25; }
static string secnames(const Sec& s) { string t; for (int c = 0; c < s.ncol; c++) t += (c == s.mdcol ? string("MD") : s.pre + to_string(c)) + " u" + to_string(c) + " comment\n"; return t; }
static string secrows(const Sec& s, int skip, int bad = -1, int what = 0) { string t; for (int i = 0; i < skip; i++) t += "header line\n"; for (size_t r = 0; r < s.md.size(); r++) { for (int c = 0; c < s.ncol; c++) { if (int(r) == bad && what == 0 && c == s.ncol - 1) continue; t += mc::fmt("%s%.10g", c ? " " : "", cell(s, r, c)); } if (int(r) == bad && what == 1) t += " 4.5"; t += "\n"; } return t; }
static string norsar_head(const Sec& t, const vector<Sec>& L, double missing) {
  string h = "[Version information]\nVERSION 1000\nFORMAT ASCII\n[Well information]\n";
  h += "MDMIN m 0.5\nMDMAX m 10 x\nMDMINSTEP m 1\nMDMAXSTEP m 2\nUTMX km 12.5\nUTMY km -3.25 y\nEKB m 25\n" + mc::fmt("UNDEFVAL NoUnit %.10g\n", missing);
  h += mc::fmt("[Well track data information]\nNUMMD %zu\nNUMPAR %d\n", t.md.size(), t.ncol) + secnames(t) + "[Well log data information]\n";
  for (size_t i = 0; i < L.size(); i++) h += mc::fmt("LOGNAME log%zu\nFILENAME w.n%02zu\nNUMMD %zu\nNUMPAR %d\n", i, i, L[i].md.size(), L[i].ncol) + secnames(L[i]);
  return h;
}
static void norsar_case(const Sec& t, const vector<Sec>& L, double missing, bool damage) {
  string fn = M->scratch + "/w.nwh";
  string head = norsar_head(t, L, missing);
  auto files = [&] { put(fn, head); put(M->scratch + "/w.nwt", secrows(t, 1)); for (size_t i = 0; i < L.size(); i++) put(M->scratch + mc::fmt("/w.n%02zu", i), secrows(L[i], 2)); };
  files();
  unique_ptr<NorsarWell> w; if (!M->check(!raises([&] { w.reset(new NorsarWell(fn)); }), "a well formed file raises")) return;
  set<double> all(t.md.begin(), t.md.end()); for (auto& l : L) all.insert(l.md.begin(), l.md.end());
  vector<double> md(all.begin(), all.end());
  CL e; auto add = [&](const Sec& s) { for (int c = 0; c < s.ncol; c++) { if (c == s.mdcol) continue; vector<double> v; for (double d : md) { size_t r = find(s.md.begin(), s.md.end(), d) - s.md.begin(); v.push_back(r < s.md.size() ? cell(s, r, c) : missing); } e[up(s.pre + to_string(c))] = v; } };
  e["MD"] = md; add(t); for (auto& l : L) add(l);
  M->check(w->GetContLog().size() == e.size() && w->GetDiscLog().empty() && w->GetNData() == int(md.size()), "%zu logs of %d rows, expected %zu of %zu", w->GetContLog().size(), w->GetNData(), e.size(), md.size());
  for (auto& p : e) { if (!M->check(w->HasContLog(p.first), "log %s is not there", p.first.c_str())) continue; auto& g = w->GetContLog(p.first); string tx; for (double x : g) tx += mc::fmt(" %g", x); M->check(g == p.second, "log %s is%s", p.first.c_str(), tx.c_str()); }
  M->check(w->GetXPos0() == 12.5 && w->GetYPos0() == -3.25 && w->GetXPosOrigin() == 12.5 && w->GetYPosOrigin() == -3.25 && w->GetContMissing() == missing && w->GetIntMissing() == int(missing), "position or missing code");
  for (int c = 0; c < t.ncol; c++) M->check(w->GetLogUnit(c == t.mdcol ? "MD" : t.pre + to_string(c)) == "u" + to_string(c), "unit of track column %d", c);
  for (auto& l : L) for (int c = 0; c < l.ncol; c++) if (c != l.mdcol) M->check(w->GetLogUnit(l.pre + to_string(c)) == "u" + to_string(c), "unit of log column %d", c);
  M->check(w->GetLogUnit("nothing") == "", "unit of a log that is not there");
  int f = Well::RMS; unique_ptr<Well> g; if (M->check(!raises([&] { g.reset(Well::ReadWell(fn, f)); }), "ReadWell raises")) M->check(f == Well::NORSAR && g->GetContLog() == w->GetContLog() && g->GetWellName() == "w", "ReadWell: format %d, name '%s'", f, g->GetWellName().c_str());
  M->step(3);
  if (!damage) return;
  auto bad = [&](const string& what) { M->step(); M->check(raises([&] { NorsarWell x(fn); }), "%s does not raise", what.c_str()); };
  for (size_t r = 0; r < t.md.size(); r++) { put(M->scratch + "/w.nwt", secrows(t, 1, r, 0)); bad(mc::fmt("track row %zu one number short", r)); if (r + 1 < t.md.size()) { put(M->scratch + "/w.nwt", secrows(t, 1, r, 1)); bad(mc::fmt("track row %zu one number long", r)); } }
  files();
  for (size_t i = 0; i < L.size(); i++) { string lf = M->scratch + mc::fmt("/w.n%02zu", i); for (size_t r = 0; r < L[i].md.size(); r++) { put(lf, secrows(L[i], 2, r, 0)); bad(mc::fmt("log file %zu row %zu one number short", i, r)); } files(); remove(lf.c_str()); bad("a missing log file"); files(); }
  remove((M->scratch + "/w.nwt").c_str()); bad("a missing track file"); files();
  put(fn, "x" + head); bad("another first line"); string h2 = head; h2.replace(h2.find("1000"), 4, "1001"); put(fn, h2); bad("another version"); h2 = head; h2.replace(h2.find("ASCII"), 5, "BINAR"); put(fn, h2); bad("another format");
  h2 = head; h2.replace(h2.find("MD u"), 2, "XX"); put(fn, h2); bad("a track without MD"); if (!L.empty()) { h2 = head; h2.replace(h2.rfind("MD u"), 2, "XX"); put(fn, h2); bad("a log without MD"); }
  vector<size_t> nl; for (size_t i = 0; i < head.size(); i++) if (head[i] == '\n') nl.push_back(i + 1);
  size_t lg = head.find("[Well log data"); for (size_t i = 0; i + 1 < nl.size(); i++) { bool whole = nl[i] > lg && (head.compare(nl[i], 7, "LOGNAME") == 0); if (whole) continue; put(fn, head.substr(0, nl[i])); bad(mc::fmt("a header of %zu lines", i + 1)); }
  files();
}
static void norsar() {
  M->part = "NORSAR";
  auto depths = [](int mask, double f) { vector<double> d; for (int i = 0; i < 6; i++) if (mask >> i & 1) d.push_back(f * i); return d; };
  int full = M->thorough() ? 32 : 16;
  for (int a = 0; a < full; a++) for (int b = 0; b < full; b++) for (int col = 0; col < 3; col++) for (double miss : {-999.25, 0.0}) {
    if (!M->next()) continue;
    M->begin("track rows %d, log rows %d, MD in column %d, missing %g", a, b, col, miss); M->state();
    norsar_case(Sec{depths(a, 1.5), 3, col, "a"}, {Sec{depths(b, 1.5), 2, col == 0 ? 0 : 1, "b"}}, miss, miss != 0 && (a + b) % 3 == 0);
  }
  for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) for (int c = 0; c < 8; c++) {
    if (!M->next()) continue;
    M->begin("track rows %d, log rows %d and %d", a, b, c); M->state();
    norsar_case(Sec{depths(a, 1), 2, 0, "a"}, {Sec{depths(b, 1), 3, 1, "b"}, Sec{depths(c, 1), 2, 0, "c"}}, -999, false);
    norsar_case(Sec{depths(a, 1), 2, 1, "a"}, {Sec{depths(b, 1), 1, 0, "b"}, Sec{depths(c, 1), 4, 3, "c"}}, -999, false);
  }
  for (int n : {60, 700}) for (int k = 0; k < 4; k++) {
    if (!M->next()) continue;
    M->begin("%d track rows, many log rows, pattern %d", n, k); M->state();
    vector<double> t, a, b; for (int i = 0; i < n; i++) { t.push_back(0.25 * i); if (i % (k + 1) == 0) a.push_back(0.25 * i); if (k & 1 ? i > n / 2 : i % 3) b.push_back(k & 2 ? 0.25 * i : 0.25 * i + 0.125); }
    norsar_case(Sec{t, 3, 1, "a"}, {Sec{a, 25, k, "b"}, Sec{b, 2, 1, "c"}}, -999.25, n == 60);
  }
  for (int k = 3; k <= 12; k += 9) { if (!M->next()) continue; M->begin("%d log files", k); M->state(); vector<Sec> L; for (int i = 0; i < k; i++) L.push_back(Sec{depths(1 + i * 5 % 63, 1), 2, i % 2, string(1, char('b' + i))}); norsar_case(Sec{depths(21, 1), 2, 0, "a"}, L, -999, true); }
  for (int a = 0; a < 8; a++) { if (!M->next()) continue; M->begin("track rows %d, no logs", a); M->state(); norsar_case(Sec{depths(a, 1), 2, 0, "a"}, {}, -999, false); }
}

// ---- LAS -------------------------------------------------------------------------------------------
struct Las { int curves = 2, rows = 3; bool wrap = false, comma = false, step = true; int order = 0, extra = 0; };
static double lv(int r, int c) { return c == 0 ? 10 + 0.5 * r : (double[]){0, 1.5, -999.25, -2.125, 7}[(r + 2 * c) % 5]; }
static vector<string> las_sections(const Las& l) {
  string V = string("~Version\n VERS . 2.0 : version\nWRAP.  ") + (l.wrap ? "YES" : "NO") + " : mode\n" + (l.comma ? "DLM . COMMA : d\n" : "") + "# comment\nXTRA . 5 : kept\n";
  string W = "~Well\n" + string(l.step ? mc::fmt("STRT.M 10 : s\nSTOP.M %.10g : e\nSTEP.M 0.5 : i\n", 10 + 0.5 * (l.rows - 1)) : "STRT.M 10 : s\nSTOP.M : e\nSTEP.M 0 : i\n") + "\nNULL. -999.25 : n\nWELL. My well : name\nXWELL.M 672591.73 : x\nYWELL.M -9825042.5 : y\nCOMP. Company : c\n";
  string C = "~Curve\n"; for (int c = 0; c < l.curves; c++) C += c == 0 ? "DEPT.M  : depth\n" : mc::fmt("L%d  .u%d  00 11 : log %d\n", c, c, c);
  vector<string> s = {V, W, C};
  if (l.order == 1) s = {V, C, W}; if (l.order == 2) s = {C, W, V};
  if (l.extra & 1) s.insert(s.begin() + 1, "~Parameter\nMUD. GEL : mud\n# c\n\n"); if (l.extra & 2) s.push_back("~Other\nfree text\n");
  return s;
}
static vector<string> las_body(const Las& l) {
  vector<string> b; for (int r = 0; r < l.rows; r++) { string t; for (int c = 0; c < l.curves; c++) t += (c ? (l.comma ? "," : l.wrap && c % 2 ? "\n" : "  ") : "") + mc::fmt("%.10g", lv(r, c)); b.push_back(t); } return b;
}
static void las_same(LasWell& w, const Las& l, const string& nm, bool units, const char* who) {
  M->check(w.GetWellName() == nm, "%s: name '%s'", who, w.GetWellName().c_str());
  M->check(w.GetXPos0() == 672591.73 && w.GetYPos0() == -9825042.5 && w.GetContMissing() == -999.25, "%s: position (%.10g,%.10g) or missing code", who, w.GetXPos0(), w.GetYPos0());
  M->check(int(w.GetNContLog()) == l.curves && w.GetNlog() == w.GetNContLog() && w.GetNData() == l.rows, "%s: %zu logs of %d rows", who, w.GetNContLog(), w.GetNData());
  for (int c = 0; c < l.curves; c++) {
    string n = c ? mc::fmt("L%d", c) : "DEPT"; if (!M->check(w.HasContLog(n) && int(w.GetContLog(n).size()) == l.rows, "%s: log %s", who, n.c_str())) continue;
    for (int r = 0; r < l.rows; r++) M->check(fabs(w.GetContLog(n)[r] - lv(r, c)) <= (units ? 0 : 0.0005001), "%s: %s of record %d is %g, expected %g", who, n.c_str(), r, w.GetContLog(n)[r], lv(r, c));
    M->check(w.GetLogUnit(n) == (c ? mc::fmt("u%d", c) : "M"), "%s: unit of %s is '%s'", who, n.c_str(), w.GetLogUnit(n).c_str());
  }
}
static void las() {
  M->part = "LAS";
  string fn = M->scratch + "/stem.las", f2 = M->scratch + "/again.las";
  for (int curves : {1, 2, 3, 4, 25}) for (int rows : {1, 2, 3, 4, 60, 900}) for (int f = 0; f < 6; f++) for (int order = 0; order < 3; order++) for (int extra = 0; extra < 4; extra++) {
    if ((curves > 4 || rows > 4) && order != extra) continue;
    if (!M->next()) continue;
    Las l; l.curves = curves; l.rows = rows; l.wrap = f % 3 == 1; l.comma = f % 3 == 2; l.step = f < 3; l.order = order; l.extra = extra;
    if (l.step && rows == 1) l.step = false;
    M->begin("%d curves, %d records, %s%s, order %d, extra %d", curves, rows, l.wrap ? "wrapped" : l.comma ? "comma" : "plain", l.step ? ", steps given" : "", order, extra); M->state(); M->step(3);
    auto S = las_sections(l); auto B = las_body(l);
    auto text = [&](const vector<string>& s, const vector<string>& b) { string t = "# first\n"; for (auto& x : s) t += x; t += "~Ascii\n"; for (auto& x : b) t += x + "\n"; return t; };
    put(fn, text(S, B)); unique_ptr<LasWell> w;
    string why; try { w.reset(new LasWell(fn)); } catch (std::exception& e) { why = e.what(); }
    if (!M->check(bool(w), "a well formed file raises: %s", show(why).c_str())) continue;
    las_same(*w, l, "My well", true, "read");
    int fm = Well::RMS; unique_ptr<Well> g; if (M->check(!raises([&] { g.reset(Well::ReadWell(fn, fm)); }), "ReadWell raises")) M->check(fm == Well::LAS && g->GetContLog() == w->GetContLog() && g->GetWellName() == "My well", "ReadWell");
    { string t = text(S, B); t.pop_back(); put(fn, t); unique_ptr<LasWell> u; if (M->check(!raises([&] { u.reset(new LasWell(fn)); }), "without the last line end: raises")) las_same(*u, l, "My well", true, "without the last line end"); }
    { auto b2 = B; for (size_t i = 0; i < b2.size(); i++) b2[i] = (i % 2 ? "\n" : "   \n") + b2[i]; b2.push_back("  "); put(fn, text(S, b2)); unique_ptr<LasWell> u; if (M->check(!raises([&] { u.reset(new LasWell(fn)); }), "with blank lines between the records: raises")) las_same(*u, l, "My well", true, "with blank lines"); }
    if (!l.wrap) {
      w->WriteToFile(f2, {"comment one", "two"}); unique_ptr<LasWell> u; if (M->check(!raises([&] { u.reset(new LasWell(f2)); }), "the written file raises")) las_same(*u, l, "My well", false, "written and read");
      if (u) { u->WriteToFile(fn, {}); unique_ptr<LasWell> x; if (M->check(!raises([&] { x.reset(new LasWell(fn)); }), "written twice: raises")) las_same(*x, l, "My well", false, "written twice"); }
      ifstream in(f2); string all((istreambuf_iterator<char>(in)), istreambuf_iterator<char>());
      M->check(all.find("XTRA . 5 : kept") != string::npos && all.find("COMP. Company : c") != string::npos && (!(extra & 1) || all.find("MUD. GEL : mud") != string::npos) && (!(extra & 2) || all.find("free text") != string::npos), "lines that are only kept are lost");
      for (int ch = 0; ch < 3; ch++) {
        LasWell k(*w); M->step(); if (ch == 0) k.AddLog("NEW", "uu", "added", vector<double>(rows, 2.5)); if (ch == 1) k.AddContLog("NEW", vector<double>(rows, 2.5)); if (ch == 2) { if (curves < 2) continue; k.RemoveContLog("L1"); }
        k.WriteToFile(f2, {}); unique_ptr<LasWell> x; if (!M->check(!raises([&] { x.reset(new LasWell(f2)); }), "change %d, written: raises", ch)) continue;
        M->check(x->GetNContLog() == k.GetNContLog(), "change %d: %zu logs written, %zu read", ch, k.GetNContLog(), x->GetNContLog());
        for (auto& p : k.GetContLog()) { bool ok = x->HasContLog(p.first) && x->GetContLog(p.first).size() == p.second.size(); for (size_t i = 0; ok && i < p.second.size(); i++) ok = fabs(x->GetContLog(p.first)[i] - p.second[i]) < 0.00051; M->check(ok, "change %d: log %s", ch, p.first.c_str()); }
        if (ch == 0) M->check(x->GetLogUnit("NEW") == "uu", "change 0: unit");
      }
    }
    // damage
    auto bad = [&](const string& t, const string& what) { put(fn, t); M->step(); M->check(raises([&] { LasWell x(fn); }), "%s does not raise", what.c_str()); };
    if (extra == 0 || order == 0) {
      for (int r = 0; r < rows; r += rows > 100 ? 137 : rows > 4 ? 7 : 1) {
        auto b = B; if (!l.wrap) { b[r] += l.comma ? ",4" : " 4"; bad(text(S, b), mc::fmt("record %d with a number too many", r)); }
        b = B; size_t p = b[r].find_last_of(" ,\n"); if (!l.wrap && curves > 1) { b[r] = b[r].substr(0, p); bad(text(S, b), mc::fmt("record %d one number short", r)); }
        b = B; b[r] = b[r].substr(0, p == string::npos ? 0 : p + 1) + "word"; bad(text(S, b), mc::fmt("record %d with a word", r));
        if (l.step) { b = B; b.erase(b.begin() + r); bad(text(S, b), mc::fmt("without record %d", r)); }
      }
      for (size_t i = 0; i < S.size(); i++) { auto s = S; s.push_back(S[i]); bad(text(s, B), "section " + S[i].substr(0, 2) + " given twice"); s = S; s.erase(s.begin() + i); if (S[i][1] == 'V' || S[i][1] == 'W' || S[i][1] == 'C') bad(text(s, B), "without section " + S[i].substr(0, 2)); }
      for (string u : {"~X unknown\nA. 1 : b\n", "~\n"}) for (size_t i = 0; i <= S.size(); i++) { auto s = S; s.insert(s.begin() + i, u); bad(text(s, B), "unknown section"); }
      { auto s = S; for (auto& x : s) if (x[1] == 'C') x = "~Curve\n"; bad(text(s, B), "no curves"); }
      { auto s = S; for (auto& x : s) { size_t p = x.find(" : "); if (p != string::npos && x[1] != 'P' && x[1] != 'O') { auto k = s; for (auto& y : k) if (y == x) y.erase(p, 3); bad(text(k, B), "a header line without ':'"); } } }
      string h; for (auto& x : S) h += x; vector<size_t> nl; for (size_t i = 0; i < h.size(); i++) if (h[i] == '\n') nl.push_back(i + 1);
      for (size_t p : nl) bad(h.substr(0, p), mc::fmt("a header of %zu bytes", p)); bad("", "an empty file"); bad("hello\n", "another file");
      M->check(raises([&] { LasWell x(M->scratch + "/absent.las"); }), "a missing file does not raise");
      if (l.step) { auto s = S; for (auto& x : s) { size_t p = x.find("STEP.M 0.5"); if (p != string::npos) x.replace(p, 10, "STEP.M -0.5"); } put(fn, text(s, B)); M->step(); raises([&] { LasWell x(fn); }); }
    }
  }
  // constructed
  for (int n = 1; n <= 4; n++) for (int type = 0; type < 2; type++) for (double inc : {0.5, 2.0}) for (int extra = 0; extra < 3; extra++) {
    if (!M->next()) continue;
    M->begin("constructed, %d samples, type %d, increment %g, %d logs", n, type, inc, extra); M->state(); M->step(2);
    LasWell w("W-1", n, 100, inc, type ? LasWell::Time : LasWell::Depth, type ? "MS" : "M", "co", "fi", "lo", "da", "uw");
    string dn = type ? "TIME" : "DEPT"; vector<double> d; for (int i = 0; i < n; i++) d.push_back(100 + i * inc);
    for (int k = 0; k < extra; k++) w.AddLog(mc::fmt("G%d", k), "g", "c", vector<double>(n, 1.5 + k));
    M->check(w.GetWellName() == "W-1" && w.GetContMissing() == -999.25 && w.HasContLog(dn) && w.GetContLog(dn) == d && int(w.GetNContLog()) == 1 + extra && w.GetLogUnit(dn) == (type ? "MS" : "M"), "constructed well");
    w.WriteToFile(fn, {}); unique_ptr<LasWell> x; if (!M->check(!raises([&] { x.reset(new LasWell(fn)); }), "raises when read")) continue;
    M->check(x->GetWellName() == "W-1" && x->GetContMissing() == -999.25 && x->GetContLog() == w.GetContLog() && x->GetNData() == n && x->GetLogUnit(dn) == w.GetLogUnit(dn), "not the same when read");
    ifstream in(fn); string all((istreambuf_iterator<char>(in)), istreambuf_iterator<char>()); for (const char* s : {"COMP . co", "FLD . fi", "LOC . lo", "DATE . da", "UWI . uw"}) M->check(all.find(s) != string::npos, "'%s' is not in the file", s);
  }
}

// ---- blocking --------------------------------------------------------------------------------------
static void block() {
  M->part = "blocking";
  Volume vol(0, 0, 4, 2, ConstantSurface<double>(0), ConstantSurface<double>(3), 0); StormContGrid g(vol, 4, 2, 3);
  const double PX[][3] = {{0.5, 0.5, 0.5}, {0.7, 0.2, 0.9}, {1.5, 0.5, 0.5}, {0.5, 1.5, 2.5}, {3.5, 1.5, 2.5}};
  const double RM[] = {-999, -1.5, 1e30}; const int IM[] = {-999, 77, 0};
  auto one = [&](const vector<int>& s) { int n = int(s.size());
    for (int ph = 0; ph < (n <= 4 ? 9 : 3); ph++) {
      if (!M->next()) continue;
      double rm = RM[ph / 3]; int im = IM[ph / 3]; const double A[] = {1, rm, 4}; const int B[] = {im, 6, 2};
      CL c; DL d; string h; vector<size_t> idx;
      for (int i = 0; i < n; i++) { int p = s[i]; h += mc::fmt(" %d", p); c["x"].push_back(PX[p][0]); c["y"].push_back(PX[p][1]); c["z"].push_back(PX[p][2]); c["a"].push_back(A[(i + ph) % 3]); d["b"].push_back(B[(i + ph) % 3]); idx.push_back(p <= 1 ? 0 : p); }
      M->begin("points%s, phase %d", h.c_str(), ph); M->state(); M->step();
      Well w(c, d, "w"), o("old"); if (ph >= 3) { w = Well("w", rm, im); for (auto& p : c) w.AddContLog(p.first, p.second); w.AddDiscLog("b", d["b"]); }
      BlockWell(w, g, o);
      vector<size_t> cells; for (size_t i : idx) if (find(cells.begin(), cells.end(), i) == cells.end()) cells.push_back(i);
      M->check(o.GetWellName() == "wblocked" && o.GetContLog().size() == 4 && o.GetDiscLog().size() == 1, "name or logs"); M->check(o.IsMissing(rm) && o.IsMissing(im) && !o.IsMissing(1.0) && !o.IsMissing(6), "the blocked well's missing codes are %g and %d, its logs use %g and %d", o.GetContMissing(), o.GetIntMissing(), rm, im);
      for (auto& p : c) { auto& v = o.GetContLog(p.first); if (!M->check(v.size() == cells.size(), "%zu cells, expected %zu", v.size(), cells.size())) continue;
        for (size_t k = 0; k < cells.size(); k++) { double sm = 0; int q = 0; for (int i = 0; i < n; i++) if (idx[i] == cells[k] && p.second[i] != rm) { sm += p.second[i]; q++; } double e = q ? sm / q : rm; M->check(fabs(v[k] - e) <= 1e-12, "log %s of cell %zu is %g, expected %g", p.first.c_str(), k, v[k], e); } }
      auto& v = o.GetDiscLog("b"); for (size_t k = 0; k < cells.size() && k < v.size(); k++) { int sm = 0, q = 0, lo = 99, hi = -99; for (int i = 0; i < n; i++) if (idx[i] == cells[k] && d["b"][i] != im) { sm += d["b"][i]; q++; lo = min(lo, d["b"][i]); hi = max(hi, d["b"][i]); } M->check(q ? v[k] == sm / q : v[k] == im, "discrete log of cell %zu is %d", k, v[k]); (void)lo; (void)hi; }
    }
  };
  for (int n = 1; n <= (M->thorough() ? 6 : 5); n++) mc::sequences(5, n, one);
  for (int n : {20, 63, 400}) for (int a = 1; a <= 4; a++) for (int b = 1; b <= 3; b++) { vector<int> s; for (int i = 0; i < n; i++) s.push_back((i / a * b + i / 7) % 5); one(s); }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  M = &m; m.hang_ticks = 2;
  container(); rms(); norsar(); las(); block();
  m.finish();
}
