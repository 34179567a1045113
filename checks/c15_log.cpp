// C15: logging.  Every history of log set-up, messages, buffering and shut-down up to a depth, against a model
// that keeps, per destination, the text it must have received.
#include "mc.hpp"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <memory>
#include <nrlib/iotools/logkit.hpp>
#include <nrlib/iotools/logstream.hpp>
#include <sstream>
using namespace std;
using namespace NRLib;
static mc::MC* M;

struct Dest {                       // model of one destination
  vector<int> lv; int full = 0; string text; string file; int id = -1; bool screen = false; bool open = true;
  bool takes(int level, int phase) const { if (phase >= 0 && phase < int(lv.size())) return (lv[phase] & level) != 0; return (full & level) != 0; }
};
static map<int, string> rec;        // what the custom streams received
static map<int, int> gone;
class Rec : public LogStream {
public:
  int id;
  Rec(int i, int l) : LogStream(l), id(i) {}
  Rec(int i, const vector<int>& l, bool g) : LogStream(l, g), id(i) {}
  ~Rec() { gone[id]++; }
  void LogMessage(int level, const string& m) { if (ShouldLog(level)) rec[id] += m; }
  void LogMessage(int level, int phase, const string& m) { if (ShouldLog(level, phase)) rec[id] += m; }
  void UpdateProgress(double p, const string& m) { rec[id] += "[" + m + "]"; }
};

struct BM { int level, phase; string t; };
static const int LV[] = {LogKit::Error, LogKit::Warning, LogKit::Low, LogKit::Medium, LogKit::High, LogKit::DebugLow, LogKit::DebugHigh};

struct Sys {
  vector<Dest> d; bool buf = false; vector<BM> b; map<int, int> n; map<int, string> pre; map<int, LogStream*> ptr; int files = 0, ids = 0;
  map<int, int> n0;
  void msg(int level, int phase, string t) { n[level]++; t = pre[level] + t; for (auto& x : d) if (x.open && x.takes(level, phase)) x.text += t; if (buf) b.push_back({level, phase, t}); }
  void add(Dest x) { if (buf && !x.screen) for (auto& m : b) if (x.takes(m.level, m.phase)) x.text += m.t; d.push_back(x); }
  static void fill(Dest& x, const vector<int>& l, bool ign) { x.lv = l; x.full = 0; if (!ign) for (int v : l) x.full |= v; }
};

static const int NOPS = 24;
static const char* NAME[NOPS] = {"file log L_Low", "file log L_Warning without NRLib", "file log {Error; L_High; 0}", "file log {Error; L_High; 0} ignoring general", "file log DebugHigh in phase 2", "file log L_Medium in phase 1 ignoring general",
  "screen log L_Medium", "screen log L_DebugHigh without NRLib", "screen log {0; L_Low}", "custom stream L_High", "custom stream {Low; Warning} ignoring general", "remove first custom stream",
  "start buffering", "end buffering", "end log", "message Error", "message Warning", "message Low in phase 0", "message High in phase 1", "message DebugHigh in phase 2", "formatted Medium", "formatted Low in phase 3", "prefix Warning", "header"};

static void step(Sys& s, int o, int k) {
  string t = mc::fmt("<%d>", k);
  auto file = [&](Dest& x) { x.file = mc::fmt("%s/log%d.txt", M->scratch.c_str(), s.files++); return x.file; };
  Dest x;
  switch (o) {
    case 0: x.full = LogKit::L_Low; LogKit::SetFileLog(file(x), LogKit::L_Low); s.add(x); break;
    case 1: Sys::fill(x, {0, LogKit::L_Warning}, false); LogKit::SetFileLog(file(x), LogKit::L_Warning, false); s.add(x); break;
    case 2: case 3: Sys::fill(x, {LogKit::Error, LogKit::L_High, 0}, o == 3); if (o == 2) LogKit::SetFileLog(file(x), vector<int>{LogKit::Error, LogKit::L_High, 0}); else LogKit::SetFileLog(file(x), vector<int>{LogKit::Error, LogKit::L_High, 0}, true); s.add(x); break;
    case 4: { vector<int> l(1000, 0); l[2] = LogKit::DebugHigh; Sys::fill(x, l, false); LogKit::SetFileLog(file(x), int(LogKit::DebugHigh), 2, false); s.add(x); break; }
    case 5: { vector<int> l(1000, 0); l[1] = LogKit::L_Medium; Sys::fill(x, l, true); LogKit::SetFileLog(file(x), int(LogKit::L_Medium), 1, true); s.add(x); break; }
    case 6: case 7: case 8: {
      x.screen = true;
      if (o == 6) { x.full = LogKit::L_Medium; LogKit::SetScreenLog(LogKit::L_Medium); }
      if (o == 7) { Sys::fill(x, {0, LogKit::L_DebugHigh}, false); LogKit::SetScreenLog(LogKit::L_DebugHigh, false); }
      if (o == 8) { Sys::fill(x, {0, LogKit::L_Low}, false); LogKit::SetScreenLog(vector<int>{0, LogKit::L_Low}); }
      for (auto& y : s.d) if (y.screen) y.open = false;
      s.add(x); break; }
    case 9: case 10: {
      x.id = s.ids++; Rec* r;
      if (o == 9) { x.full = LogKit::L_High; r = new Rec(x.id, LogKit::L_High); } else { Sys::fill(x, {LogKit::Low, LogKit::Warning}, true); r = new Rec(x.id, vector<int>{LogKit::Low, LogKit::Warning}, true); }
      s.ptr[x.id] = r; LogKit::AddLogStream(r); s.add(x); break; }
    case 11: for (auto& y : s.d) if (y.open && y.id >= 0) { LogKit::RemoveLogStream(s.ptr[y.id]); y.open = false; break; } break;
    case 12: if (!s.buf) { LogKit::StartBuffering(); s.buf = true; s.b.clear(); } break;
    case 13: LogKit::EndBuffering(); s.buf = false; s.b.clear(); break;
    case 14: LogKit::EndLog(); for (auto& y : s.d) y.open = false; s.buf = false; s.b.clear(); break;
    case 15: LogKit::LogMessage(LogKit::Error, t); s.msg(LogKit::Error, -1, t); break;
    case 16: LogKit::LogMessage(LogKit::Warning, t); s.msg(LogKit::Warning, -1, t); break;
    case 17: LogKit::LogMessage(LogKit::Low, 0, t); s.msg(LogKit::Low, 0, t); break;
    case 18: LogKit::LogMessage(LogKit::High, 1, t); s.msg(LogKit::High, 1, t); break;
    case 19: LogKit::LogMessage(LogKit::DebugHigh, 2, t); s.msg(LogKit::DebugHigh, 2, t); break;
    case 20: LogKit::LogFormatted(LogKit::Medium, "%s %d", t.c_str(), k); s.msg(LogKit::Medium, -1, mc::fmt("%s %d", t.c_str(), k)); break;
    case 21: LogKit::LogFormatted(LogKit::Low, 3, "%5.2f|%s", k * 1.5, t.c_str()); s.msg(LogKit::Low, 3, mc::fmt("%5.2f|%s", k * 1.5, t.c_str())); break;
    case 22: LogKit::SetPrefix("warn: ", LogKit::Warning); s.pre[LogKit::Warning] = "warn: "; break;
    case 23: { string text = mc::fmt("Head%s%d", k % 2 ? "" : "x", k); LogKit::WriteHeader(text, LogKit::Medium); string r(100, '*'); int bl = 100 - int(text.size()) - 10;
      s.msg(LogKit::Medium, -1, "\n" + r + "\n"); s.msg(LogKit::Medium, -1, "*****" + string(bl / 2, ' ') + text + string(bl - bl / 2, ' ') + "*****\n"); s.msg(LogKit::Medium, -1, r + "\n"); break; }
  }
}

static bool verify(Sys& s, const ostringstream& scr, const char* op, bool fin) {
  string screen;
  for (auto& x : s.d) {
    if (x.screen) { screen += x.text; continue; }
    string got;
    if (x.id >= 0) got = rec[x.id];
    else { ifstream f(x.file); stringstream ss; ss << f.rdbuf(); got = ss.str(); }
    if (!M->check(got == x.text, "after %s: %s received '%s', expected '%s'", op, x.id >= 0 ? mc::fmt("custom stream %d", x.id).c_str() : x.file.c_str() + M->scratch.size(), got.substr(0, 300).c_str(), x.text.substr(0, 300).c_str())) return false;
    if (x.id >= 0 && !M->check(gone[x.id] == (x.open ? 0 : 1), "after %s: custom stream %d was deleted %d times", op, x.id, gone[x.id])) return false;
  }
  for (int l : LV) if (!M->check(LogKit::GetNMessages(l) - s.n0[l] == s.n[l], "after %s: GetNMessages(%d) counts %d, expected %d", op, l, LogKit::GetNMessages(l) - s.n0[l], s.n[l])) return false;
  return true;
}

static void history(const vector<int>& q) {
  string h; for (int o : q) h += string(h.empty() ? "" : "; ") + NAME[o];
  M->begins(h);
  LogKit::EndLog(); for (int l : LV) LogKit::SetPrefix("", l);
  rec.clear(); gone.clear();
  Sys s; for (int l : LV) s.n0[l] = LogKit::GetNMessages(l);
  ostringstream scr; auto* old = cout.rdbuf(scr.rdbuf());
  // screen output is checked in order: remember how much each screen destination had when it was replaced
  string wantscr; int k = 1;
  for (int o : q) {
    size_t before = 0; for (auto& x : s.d) if (x.screen) before += x.text.size();
    vector<size_t> len; for (auto& x : s.d) len.push_back(x.text.size());
    step(s, o, k++);
    for (size_t i = 0; i < s.d.size(); i++) if (s.d[i].screen) wantscr += s.d[i].text.substr(i < len.size() ? len[i] : 0);
    M->step();
    if (scr.str() != wantscr) { cout.rdbuf(old); M->fail(mc::fmt("after %s: the screen received '%s', expected '%s'", NAME[o], scr.str().substr(0, 300).c_str(), wantscr.substr(0, 300).c_str())); return; }
    if (!verify(s, scr, NAME[o], false)) { cout.rdbuf(old); return; }
    uint64_t hh = s.buf; for (auto& x : s.d) hh = mc::hmix(hh, mc::hstr(x.text, x.open)); M->state(hh);
  }
  LogKit::EndLog();
  for (auto& x : s.d) x.open = false;
  verify(s, scr, "EndLog", true);
  cout.rdbuf(old);
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  M = &m;
  m.part = "histories";
  int depth = m.thorough() ? 5 : 4;
  for (int n = 1; n <= depth; n++) {
    if (n < 5) { mc::sequences(NOPS, n, [&](const vector<int>& q) { if (m.next()) history(q); }); continue; }
    // depth 5: without the near-duplicates
    const int sub[] = {0, 3, 6, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 22};
    mc::sequences(14, n, [&](const vector<int>& q) { if (!m.next()) return; vector<int> r; for (int i : q) r.push_back(sub[i]); history(r); });
  }
  // one stream: every level against every mask and phase
  m.part = "levels";
  for (int mask = 0; mask < 128; mask++) for (int kind = 0; kind < 5; kind++) {
    if (!m.next()) continue;
    m.begin("mask %d, kind %d, every level and phase", mask, kind);
    LogKit::EndLog(); for (int l : LV) LogKit::SetPrefix("", l); rec.clear(); gone.clear();
    Dest x; x.id = 0; Rec* r;
    if (kind == 0) { x.full = mask; r = new Rec(0, mask); }
    else { vector<int> l = kind < 3 ? vector<int>{mask ^ 127, mask} : vector<int>{0, mask & 42, mask & 85, mask}; Sys::fill(x, l, kind % 2 == 0); r = new Rec(0, l, kind % 2 == 0); }
    LogKit::AddLogStream(r);
    string want; int k = 0;
    for (int l : LV) for (int ph = -1; ph < 6; ph++) { m.state(); m.step(); string t = mc::fmt("%d,", k++); if (ph < 0) LogKit::LogMessage(l, t); else LogKit::LogMessage(l, ph, t); if (x.takes(l, ph)) want += t; }
    LogKit::UpdateProgress(0.5, "p"); want += "[p]";
    m.check(rec[0] == want, "received '%s', expected '%s'", rec[0].c_str(), want.c_str());
    LogKit::EndLog();
  }
  m.part = "lengths";
  for (int len : {0, 1, 127, 999, 1000, 1001, 4999, 5000, 5001, 20000}) for (int ph = 0; ph < 2; ph++) {
    if (!m.next()) continue;
    m.begin("formatted message of %d characters%s", len, ph ? " with a phase" : ""); m.state(); m.step();
    LogKit::EndLog(); rec.clear(); gone.clear(); LogKit::AddLogStream(new Rec(0, 127)); for (int l : LV) LogKit::SetPrefix("", l);
    string s(len, 'z'); if (ph) LogKit::LogFormatted(LogKit::Low, 1, "%s!", s.c_str()); else LogKit::LogFormatted(LogKit::Low, "%s!", s.c_str());
    m.check(rec[0] == s + "!", "%zu characters arrived", rec[0].size()); LogKit::EndLog();
  }
  m.finish();
}
