// C14: text scanning, string tools, ASCII arrays, tables and file operations.  Every string over small
// alphabets up to a length, against straightforward reference scanners; file operations as histories against
// a map model in a scratch directory.
#include "mc.hpp"
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <nrlib/iotools/fileio.hpp>
#include <nrlib/iotools/serialize.hpp>
#include <nrlib/iotools/stringtools.hpp>
#include <nrlib/iotools/tabularfile.hpp>
#include <climits>
#include <cfloat>
#include <sstream>
#include <sys/stat.h>
using namespace std;
using namespace NRLib;
static mc::MC* M;

static bool isw(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' || c == '\v'; }
static string show(const string& s) { string o; for (char c : s) o += c == '\n' ? string("\\n") : c == '\t' ? string("\\t") : c == '\r' ? string("\\r") : string(1, c); return o; }
struct Tok { string t; size_t b, e; int line; };          // line: newlines before its start
static vector<Tok> ref_tokens(const string& s) {
  vector<Tok> v; size_t i = 0; int ln = 0;
  while (i < s.size()) {
    if (isw(s[i])) { if (s[i] == '\n') ln++; i++; continue; }
    size_t b = i; while (i < s.size() && !isw(s[i])) i++;
    v.push_back({s.substr(b, i - b), b, i, ln});
  }
  return v;
}
struct Ln { string t; int no; };
static vector<Ln> ref_lines(const string& s) {            // non-empty ones, numbered from 1
  vector<Ln> v; size_t i = 0; int no = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i); if (e == string::npos) e = s.size();
    no++; string l = s.substr(i, e - i);
    if (find_if(l.begin(), l.end(), [](char c) { return !isw(c); }) != l.end()) v.push_back({l, no});
    i = e + 1;
  }
  return v;
}
template <class E, class F> static bool raises(F f) { try { f(); } catch (E&) { return true; } return false; }

template <class F> static void all_strings(const string& al, int maxlen, F f) {
  for (int n = 0; n <= maxlen; n++) mc::sequences(int(al.size()), n, [&](const vector<int>& q) {
    string s; for (int i : q) s += al[i];
    f(s);
  });
}

static void scan(const string& s) {
  vector<Tok> tk = ref_tokens(s);
  int total = int(count(s.begin(), s.end(), '\n'));
  M->state();
  { // ReadNextToken: tokens and line numbers
    istringstream is(s); int line = 10; string t;
    for (auto& k : tk) {
      t = "?"; ReadNextToken(is, t, line); M->step();
      if (!M->check(t == k.t && line == 10 + k.line, "ReadNextToken: token '%s' (expected '%s'), line %d (expected %d)", show(t).c_str(), show(k.t).c_str(), line, 10 + k.line)) return;
    }
    ReadNextToken(is, t, line); M->step();
    M->check(!is.good(), "the stream is still good after the last token");
    M->check(line == 10 + total || (!tk.empty() && tk.back().e == s.size()), "%d lines counted at the end of the file, it has %d", line - 10, total);
    ReadNextToken(is, t, line);
    M->check(is.fail() && t == "", "a further ReadNextToken does not fail with an empty token");
  }
  { istringstream is(s); int line = 0; size_t k = 0; bool eof = false;
    try { for (;;) { string t = ReadNext<string>(is, line); M->step(); if (!M->check(k < tk.size() && t == tk[k].t && line == tk[k].line, "ReadNext<string> %zu gave '%s' at line %d", k, show(t).c_str(), line)) return; k++; } }
    catch (EndOfFile&) { eof = true; }
    M->check(eof && k == tk.size(), "ReadNext<string> raised EndOfFile after %zu tokens of %zu", k, tk.size()); }
  { vector<string> g = GetTokens(s); bool ok = g.size() == tk.size(); for (size_t i = 0; ok && i < g.size(); i++) ok = g[i] == tk[i].t; M->step(); M->check(ok, "GetTokens"); }
  // after k tokens: the rest of the line, end of file
  for (size_t k = 0; k <= tk.size(); k += tk.size() > 60 && k + 30 < tk.size() && k > 9 ? 1 + tk.size() / 20 : 1) {
    size_t at = k ? tk[k - 1].e : 0;
    if (at >= s.size() && !(k == 0 && s.empty())) continue;
    size_t nl = s.find('\n', at); size_t le = nl == string::npos ? s.size() : nl;
    bool clean = all_of(s.begin() + at, s.begin() + le, isw);
    int before = k ? tk[k - 1].line : 0;
    for (int thr = 0; thr < 2; thr++) {
      istringstream is(s); int line = 0; string t;
      for (size_t j = 0; j < k; j++) ReadNextToken(is, t, line);
      bool r = raises<IOError>([&] { DiscardRestOfLine(is, line, thr != 0); }); M->step();
      if (!M->check(r == (thr && !clean), "DiscardRestOfLine after %zu tokens %s", k, r ? "raised" : "did not raise")) return;
      if (!M->check(line == before + 1, "DiscardRestOfLine after %zu tokens: line %d, expected %d", k, line, before + 1)) return;
      if (r) continue;
      string rest; if (nl != string::npos) rest = s.substr(nl + 1);
      string got((istreambuf_iterator<char>(is)), istreambuf_iterator<char>());
      if (!M->check(got == rest, "DiscardRestOfLine after %zu tokens leaves '%s', expected '%s'", k, show(got).c_str(), show(rest).c_str())) return;
    }
    istringstream is(s); int line = 0; string t;
    for (size_t j = 0; j < k; j++) ReadNextToken(is, t, line);
    bool e = CheckEndOfFile(is); M->step();
    if (!M->check(e == (k == tk.size()), "CheckEndOfFile after %zu of %zu tokens gave %d", k, tk.size(), e)) return;
    if (!e) { ReadNextToken(is, t, line); if (!M->check(t == tk[k].t, "the token after CheckEndOfFile is '%s', expected '%s'", show(t).c_str(), show(tk[k].t).c_str())) return; }
  }
  { vector<Ln> L = ref_lines(s); istringstream is(s); int line = 5; string l;
    for (auto& x : L) { bool ok = bool(GetNextNonEmptyLine(is, line, l)); M->step(); if (!M->check(ok && l == x.t && line == 5 + x.no, "GetNextNonEmptyLine gave '%s' at %d, expected '%s' at %d", show(l).c_str(), line, show(x.t).c_str(), 5 + x.no)) return; }
    bool ok = bool(GetNextNonEmptyLine(is, line, l)); M->check(!ok && l == "", "GetNextNonEmptyLine at the end");
    { istringstream q(s); string z = FindLastNonEmptyLine(q); M->step(); M->check(z == (L.empty() ? "" : L.back().t), "FindLastNonEmptyLine gave '%s'", show(z).c_str()); }
    for (int mx = 1; mx < int(s.size()); mx += s.size() > 800 ? 1 + int(s.size()) / 23 : 1) { string tail = s.substr(s.size() - mx); vector<Ln> T = ref_lines(tail); istringstream q(s); string z = FindLastNonEmptyLine(q, mx); M->step(); if (!M->check(z == (T.empty() ? "" : T.back().t), "FindLastNonEmptyLine within %d characters gave '%s'", mx, show(z).c_str())) return; } }
  { string c = Chomp(s), e = s; while (!e.empty() && e.back() == ' ') e.pop_back(); while (!e.empty() && e[0] == ' ') e.erase(0, 1); M->step(); M->check(c == e, "Chomp gave '%s'", show(c).c_str()); }
}

static void comments(const string& s) {
  // SkipComments from the start and after each token; judged only where something other than a comment follows
  vector<size_t> starts = {0};
  for (auto& k : ref_tokens(s)) { if (k.t.find('#') != string::npos) break; starts.push_back(k.e); }
  for (size_t st = 0; st < starts.size(); st++) {
    size_t i = starts[st]; int ln = 0;
    bool found = false;
    while (i < s.size()) {
      if (isw(s[i])) { ln += s[i] == '\n'; i++; }
      else if (s[i] == '#') { size_t e = s.find('\n', i); if (e == string::npos) { i = s.size(); break; } ln++; i = e + 1; }
      else { found = true; break; }
    }
    if (!found) continue;
    M->state(); M->step();
    istringstream is(s); int line = 0; string t;
    for (size_t j = 0; j < st; j++) ReadNextToken(is, t, line);
    int l0 = line;
    SkipComments(is, '#', line);
    string got((istreambuf_iterator<char>(is)), istreambuf_iterator<char>());
    if (!M->check(got == s.substr(i) && line == l0 + ln, "SkipComments after %zu tokens: rest '%s' (expected '%s'), %d lines (expected %d)", st, show(got).c_str(), show(s.substr(i)).c_str(), line - l0, ln)) return;
  }
}

static void quoted(const string& s) {
  // non-empty quoted strings in order, then EndOfFile; stops judging at an empty or unterminated one
  istringstream is(s); int line = 0; size_t i = 0;
  for (;;) {
    size_t a = s.find('"', i);
    string t;
    if (a == string::npos) {
      M->step();
      M->check(raises<EndOfFile>([&] { ReadNextQuoted(is, '"', t, line); }), "no quoted string left, but EndOfFile is not raised");
      break;
    }
    size_t b = s.find('"', a + 1);
    if (b == string::npos || b == a + 1) break;
    if (s[a + 1] == '\n') break;                                // counted neither here nor there: unspecified
    M->state(); M->step();
    bool r = raises<EndOfFile>([&] { ReadNextQuoted(is, '"', t, line); });
    int ln = int(count(s.begin(), s.begin() + b, '\n'));
    if (!M->check(!r && t == s.substr(a + 1, b - a - 1) && line == ln, "ReadNextQuoted gave '%s' at line %d, expected '%s' at %d", show(t).c_str(), line, show(s.substr(a + 1, b - a - 1)).c_str(), ln)) return;
    i = b + 1;
  }
  // GetQuotedTokens: whitespace-separated words; a word starting with a quote extends to the closing one.
  // judged where every closing quote is followed by whitespace or the end
  vector<string> e; i = 0; bool judge = true;
  while (i < s.size()) {
    if (isw(s[i])) { i++; continue; }
    if (s[i] == '"') { size_t b = s.find('"', i + 1); if (b == string::npos || (b + 1 < s.size() && !isw(s[b + 1]))) { judge = false; break; } e.push_back(s.substr(i + 1, b - i - 1)); i = b + 1; }
    else { size_t b = i; while (i < s.size() && !isw(s[i])) i++; e.push_back(s.substr(b, i - b)); if (e.back().find('"') != string::npos) { judge = false; break; } }
  }
  M->step();
  vector<string> g = GetQuotedTokens(s);                         // must return in any case
  if (judge) { string sg; for (auto& x : g) sg += "[" + show(x) + "]"; M->check(g == e, "GetQuotedTokens gave %s", sg.c_str()); }
}

// ---- numbers ----------------------------------------------------------------------------------------
static bool ref_int(const string& s, long long lo, long long hi, long long& v) {
  size_t i = 0; while (i < s.size() && isw(s[i])) i++;
  bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (i == s.size()) return false;
  __int128 x = 0; for (; i < s.size(); i++) { if (!isdigit((unsigned char)s[i])) return false; x = x * 10 + (s[i] - '0'); if (x > (__int128)1 << 90) return false; }
  if (neg) x = -x;
  if (x < lo || x > hi) return false;
  v = (long long)x; return true;
}
static bool ref_dbl(const string& s, double& v) {
  size_t i = 0; while (i < s.size() && isw(s[i])) i++;
  size_t b = i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
  size_t d = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; d++; }
  if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; d++; } }
  if (!d) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t k = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i == k) return false; }
  if (i != s.size()) return false;
  v = strtod(s.c_str() + b, nullptr);
  return std::isfinite(v);
}
template <class T, class F> static bool parse_case(const string& s, bool ok, T val, const char* name, F same) {
  bool is = IsType<T>(s); T got = T(); bool r = raises<Exception>([&] { got = ParseType<T>(s); });
  M->step(2);
  return M->check(is == ok && r == !ok && (!ok || same(got, val)), "%s '%s': IsType %d, ParseType %s, should be %s", name, show(s).c_str(), is, r ? "raised" : "returned", ok ? "accepted" : "rejected");
}
static void number(const string& s) {
  M->state();
  long long v = 0; double d = 0;
  auto eq = [](auto a, auto b) { return a == b; };
  bool i = ref_int(s, INT_MIN, INT_MAX, v);
  parse_case<int>(s, i, int(v), "int", eq);
  bool l = ref_int(s, LLONG_MIN, LLONG_MAX, v);
  parse_case<long long>(s, l, v, "long long", eq);
  bool sh = ref_int(s, SHRT_MIN, SHRT_MAX, v);
  parse_case<short>(s, sh, short(v), "short", eq);
  bool db = ref_dbl(s, d);
  parse_case<double>(s, db, d, "double", eq);
  bool fl = db && std::fabs(d) < FLT_MAX;
  if (!(db && !fl)) parse_case<float>(s, fl, float(d), "float", [](float a, float b) { return a == b || std::fabs(a - b) <= 1.2e-7 * std::fabs(b); });
  M->check(ParseType<string>(s) == s, "ParseType<string>");
  { // a whole token read from a stream
    if (!s.empty() && none_of(s.begin(), s.end(), isw)) {
      for (string tail : {"", " 7", "\n"}) {
        istringstream is("\n " + s + tail); int line = 0; double x = 0; bool bad = raises<Exception>([&] { x = ReadNext<double>(is, line); });
        M->step(); if (!M->check(bad == !db && (bad || x == d) && line == 1, "ReadNext<double> of '%s'", show(s).c_str())) return;
        istringstream js(" \n" + s + tail); line = 0; int y = 0; bad = raises<Exception>([&] { y = ReadNext<int>(js, line); });
        ref_int(s, INT_MIN, INT_MAX, v);
        M->step(); if (!M->check(bad == !i && (bad || y == int(v)) && line == 1, "ReadNext<int> of '%s'", show(s).c_str())) return;
      }
      if (db) M->check(IsNumber(s), "IsNumber rejects '%s'", s.c_str());
      if (isalpha((unsigned char)s[0])) M->check(!IsNumber(s), "IsNumber accepts '%s'", s.c_str());
    }
  }
}

static void arrays(const string& s) {
  vector<Tok> tk = ref_tokens(s);
  M->state();
  for (size_t n = 0; n <= tk.size() + 1; n++) {
    if (n > 5 && n + 2 < tk.size()) n = tk.size() - 1;
    if (n > 5 && tk.size() < 8) break;
    bool enough = n <= tk.size();
    { vector<int> v(n + 1, -5); istringstream is(s); int line = 0; size_t adv = 0; bool r = raises<EndOfFile>([&] { adv = size_t(ReadAsciiArray(is, v.begin(), n, line) - v.begin()); }); M->step();
      bool ok = r == !enough; if (enough) { for (size_t i = 0; i < n; i++) ok = ok && v[i] == atoi(tk[i].t.c_str()); ok = ok && v[n] == -5 && adv == n && line == (n ? tk[n - 1].line : 0); }
      if (!M->check(ok, "ReadAsciiArray of %zu of %zu numbers", n, tk.size())) return;
      if (enough && n < tk.size()) { string t; ReadNextToken(is, t, line); if (!M->check(t == tk[n].t, "after ReadAsciiArray(%zu) the next token is '%s'", n, t.c_str())) return; } }
    { vector<double> v(n + 1, -5); istringstream is(s); size_t adv = 0; bool r = raises<EndOfFile>([&] { adv = size_t(ReadAsciiArrayFast(is, v.begin(), n) - v.begin()); }); M->step();
      bool ok = r == !enough; if (enough) { for (size_t i = 0; i < n; i++) ok = ok && v[i] == atoi(tk[i].t.c_str()); ok = ok && v[n] == -5 && adv == n; }
      if (!M->check(ok, "ReadAsciiArrayFast of %zu of %zu numbers", n, tk.size())) return;
      if (enough && n < tk.size()) { string t; is >> t; if (!M->check(t == tk[n].t, "after ReadAsciiArrayFast(%zu) the next token is '%s'", n, t.c_str())) return; } }
    for (int ty = 0; ty < 3; ty++) for (int skip = 0; skip < 2; skip++) {
      if (skip && tk.empty()) continue;
      bool en = n + skip <= tk.size();
      istringstream is(s); string t; int line = 0; if (skip) { ReadNextToken(is, t, line); if (!is.good()) continue; }
      vector<int> vi(n + 1, -5); vector<float> vf(n + 1, -5.f); vector<double> vd(n + 1, -5.0); size_t adv = 0;
      bool r = raises<Exception>([&] { if (ty == 0) adv = size_t(ReadAsciiArrayFastRestOfFile(is, vi.begin(), n) - vi.begin()); else if (ty == 1) adv = size_t(ReadAsciiArrayFastRestOfFile(is, vf.begin(), n) - vf.begin()); else adv = size_t(ReadAsciiArrayFastRestOfFile(is, vd.begin(), n) - vd.begin()); });
      M->step();
      bool ok = r == !en;
      if (en) { for (size_t i = 0; i < n; i++) { int w = atoi(tk[i + skip].t.c_str()); ok = ok && (ty == 0 ? vi[i] == w : ty == 1 ? vf[i] == float(w) : vd[i] == double(w)); } ok = ok && adv == n && vi[n] == -5 && vf[n] == -5.f && vd[n] == -5.0; }
      if (!M->check(ok, "ReadAsciiArrayFastRestOfFile (type %d, after %d tokens) of %zu of %zu numbers", ty, skip, n, tk.size())) return;
    }
  }
}

static void strings() {
  M->part = "scan";
  int b = M->thorough() ? 1 : 0;
  all_strings("a7 \n\t", 6 + b, [&](const string& s) { if (!M->next()) return; M->begin("'%s'", show(s).c_str()); scan(s); });
  all_strings("a \r\f", 5 + b, [&](const string& s) { if (!M->next()) return; M->begin("'%s'", show(s).c_str()); scan(s); });
  // longer lines: each line built from words of several lengths
  { vector<string> w = {"", "x", "word", "1.25e-3", string(300, 'q'), "  lead", "trail  ", "a b\tc"};
    mc::sequences(int(w.size()), M->thorough() ? 5 : 4, [&](const vector<int>& q) { for (int end = 0; end < 2; end++) { if (!M->next()) continue; string s; for (size_t i = 0; i < q.size(); i++) s += w[q[i]] + (i + 1 < q.size() || end ? "\n" : ""); M->begin("lines '%s'", show(s).c_str()); 
      if (s.size() > 1000 && s.substr(s.size() - 1000).find('\n') == string::npos) continue; scan(s); } }); }
  for (int len : {63, 255, 256, 1023, 1024, 4097, 12000}) for (int lines : {1, 3, 40}) for (int k = 0; k < 3; k++) {
    if (!M->next()) continue;
    string s; for (int i = 0; i < lines; i++) s += (k == 1 ? string(i % 3, ' ') : "") + string(len, char('a' + i % 26)) + (k == 2 ? " " : "\n");
    s += "\nend\n"; if (len > 5000 && lines > 3) continue;
    M->begin("%d %s of %d letters", lines, k == 2 ? "words on a line" : "lines", len); scan(s);
  }
  { string s; for (int i = 0; i < 3000; i++) s += i % 7 == 3 ? "\n" : i % 5 == 1 ? "  word" + to_string(i) + "\n" : to_string(i) + " "; if (M->next()) { M->begin("3000 short words and lines"); scan(s + "\nz\n"); } }
  M->part = "comments";
  all_strings("a# \n", 7 + b, [&](const string& s) { if (!M->next()) return; M->begin("'%s'", show(s).c_str()); comments(s); });
  M->part = "quoted";
  all_strings("a\" \n", 7 + b, [&](const string& s) { if (!M->next()) return; M->begin("'%s'", show(s).c_str()); quoted(s); });
  M->part = "numbers";
  all_strings("019-+.eE x", 5, [&](const string& s) { if (!M->next()) return; M->begin("'%s'", s.c_str()); number(s); });
  for (long long base : {(long long)SHRT_MAX, (long long)SHRT_MIN, (long long)INT_MAX, (long long)INT_MIN, 4294967296LL, 999999999999LL})
    for (int d = -2; d <= 2; d++) for (string pre : {"", "+", " ", "00"}) for (string post : {"", ".0", "e0", "x", " "}) {
      if (!M->next()) continue;
      long long v = base + d; string s = (pre == "+" || pre == "00") && v < 0 ? to_string(v) : pre + to_string(v); s += post;
      M->begin("'%s'", s.c_str()); number(s);
    }
  for (string s : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e308", "1.7976931348623157e308", "1e309", "-1e400", "2.2250738585072014e-308", "0.1", "1e-3", "123456789.123456789", "3.14159265358979323846264338327950288", "nan", "inf", "0x10", "1d5", "1,5", "true", "1e5.0", "--1", "+-1", "1 2", "1\t"}) {
    if (!M->next()) continue;
    M->begin("'%s'", show(s).c_str()); number(s);
  }
  M->part = "arrays";
  all_strings("12 \n", 7 + b, [&](const string& s) { if (!M->next()) return; M->begin("'%s'", show(s).c_str()); arrays(s); });
  all_strings("3-\t\r ", 5 + b, [&](const string& s) { for (auto& k : ref_tokens(s)) if (k.t != "3" && k.t != "-3" && k.t != "33" && k.t != "-33" && k.t != "333") return; if (!M->next()) return; M->begin("'%s'", show(s).c_str()); arrays(s); });
  for (int n : {20, 1000, 5000, 100000}) for (int per : {1, 7, 200000}) for (int end = 0; end < 2; end++) { if (!M->next()) continue; string s; for (int i = 0; i < n; i++) s += to_string((i * 37) % 1001 - 500) + (i + 1 == n ? (end ? "\n" : "") : i % per == per - 1 ? "\n" : " "); M->begin("%d numbers, %d on a line", n, per); arrays(s); }
  // non-numeric tokens are rejected by the checked readers
  { vector<string> w = {"1", "-2", "x", "3.5", "4x", ""};
    for (int n = 1; n <= 4; n++) mc::sequences(6, n, [&](const vector<int>& q) {
      if (!M->next()) return;
      string s; for (int i : q) s += w[i] + " ";
      M->begin("array text '%s'", s.c_str()); M->state();
      vector<Tok> tk = ref_tokens(s); size_t m = tk.size(), bad = m;
      for (size_t i = 0; i < m; i++) if (tk[i].t != "1" && tk[i].t != "-2") { bad = i; break; }
      vector<int> v(m + 1, 9); istringstream is(s); int line = 0; M->step(2);
      bool r = raises<Exception>([&] { ReadAsciiArray(is, v.begin(), m, line); });
      M->check(r == (bad < m), "ReadAsciiArray<int> %s", r ? "raised" : "accepted a non-integer");
      vector<double> u(m + 1, 9); istringstream js(s); size_t badd = m; for (size_t i = 0; i < m; i++) if (tk[i].t == "x" || tk[i].t == "4x") { badd = i; break; }
      r = raises<Exception>([&] { ReadAsciiArrayFast(js, u.begin(), m); if (!CheckEndOfFile(js)) throw Exception("left over"); });
      M->check(r == (badd < m), "ReadAsciiArrayFast<double> to the end %s", r ? "raised" : "accepted a non-number");
    }); }
}

static void transforms() {
  M->part = "strings";
  // Substitute: all occurrences, left to right, not overlapping
  vector<string> pat; all_strings("ab", 3, [&](const string& s) { pat.push_back(s); });
  all_strings("ab", M->thorough() ? 8 : 6, [&](const string& t) {
    if (!M->next()) return;
    M->begin("Substitute in '%s'", t.c_str());
    for (auto& o : pat) if (!o.empty()) for (auto& in : pat) {
      string e; size_t i = 0; while (i < t.size()) { if (t.compare(i, o.size(), o) == 0) { e += in; i += o.size(); } else e += t[i++]; }
      string g = t; Substitute(g, o, in); M->state(); M->step();
      if (!M->check(g == e, "'%s' by '%s' gave '%s', expected '%s'", o.c_str(), in.c_str(), g.c_str(), e.c_str())) return;
    }
  });
  for (int n = 0; n <= 5; n++) mc::sequences(4, n, [&](const vector<int>& q) { if (!M->next()) return; string s, e; for (int k : q) { s += "aZ1z"[k]; e += "AZ1Z"[k]; } M->begin("Uppercase of '%s'", s.c_str()); M->state(); M->step(); M->check(Uppercase(s) == e, "Uppercase"); });
  if (M->next()) { M->begin("Uppercase of every byte"); string s, e; for (int c = 1; c < 128; c++) { s += char(c); e += char(c >= 'a' && c <= 'z' ? c - 32 : c); } M->state(); M->step(); M->check(Uppercase(s) == e && Uppercase("") == "", "Uppercase"); M->check(Whitespace() == " \t\n\r\f\v" || set<char>{' ', '\t', '\n', '\r', '\f', '\v'} == [] { string w = Whitespace(); return set<char>(w.begin(), w.end()); }(), "Whitespace"); }
  // numbers to text
  for (int hi = -33; hi <= 33; hi++) {
    if (!M->next()) continue;
    M->begin("ToString of the integers from %d", hi * 1000);
    for (int k = 0; k < 1000; k++) { int v = hi * 1000 + k; string s = ToString(v); M->state(); M->step(2); if (!M->check(s == to_string(v) && ParseType<int>(s) == v && ToString(v, 3) == to_string(v), "ToString(%d) = '%s'", v, s.c_str())) break; }
    for (long long v : {LLONG_MIN, LLONG_MAX, (long long)INT_MIN, (long long)INT_MAX}) M->check(ToString(v) == to_string(v), "ToString(%lld)", v);
  }
  for (double x : {0.0, 1.0, -1.0, 0.5, 1.0 / 3, 2.0 / 3, 1e-5, 123456.0, 1234567.0, 1e20, -9.995, 1e-300, 99.9999999, 0.05, 3.14159265358979})
    for (double sc : {1.0, -1.0, 10.0, 0.001}) {
      if (!M->next()) continue;
      double v = x * sc; M->begin("ToString(%.17g)", v); char b[600]; M->state();
      snprintf(b, sizeof b, "%g", v); M->check(ToString(v) == b, "default: '%s', expected '%s'", ToString(v).c_str(), b);
      for (int p = 0; p <= 17; p++) { snprintf(b, sizeof b, "%.*f", p, v); M->step(); if (!M->check(ToString(v, p) == b, "precision %d: '%s', expected '%s'", p, ToString(v, p).c_str(), b)) break; }
      snprintf(b, sizeof b, "%g", float(v)); M->check(ToString(float(v)) == b, "float: '%s', expected '%s'", ToString(float(v)).c_str(), b);
    }
  // paths: directory + stem + extension
  for (string dir : {"", "d", "/d", "d/e", "/", "../d", "d.x"}) for (string stem : {"f", "file", "f.g", "a b"}) for (string ext : {"", ".x", ".roxar", "."}) {
    if (!M->next()) continue;
    string name = stem + ext, full = dir.empty() ? name : dir == "/" ? "/" + name : dir + "/" + name;
    M->begin("path '%s'", full.c_str()); M->state(); M->step(7);
    string x = ext, st = stem;
    if (ext.empty() && stem == "f.g") { x = ".g"; st = "f"; }
    M->check(GetPath(full) == dir, "GetPath = '%s'", GetPath(full).c_str());
    M->check(RemovePath(full) == name, "RemovePath = '%s'", RemovePath(full).c_str());
    M->check(GetExtension(full) == x, "GetExtension = '%s'", GetExtension(full).c_str());
    M->check(GetStem(full) == st, "GetStem = '%s'", GetStem(full).c_str());
    string base = full.substr(0, full.size() - x.size());
    for (string ne : {"new", ".new"}) M->check(ReplaceExtension(full, ne) == base + ".new", "ReplaceExtension(%s) = '%s'", ne.c_str(), ReplaceExtension(full, ne).c_str());
    M->check(ReplaceExtension(full, "") == base, "ReplaceExtension() = '%s'", ReplaceExtension(full, "").c_str());
    M->check(AddExtension(full, "y") == full + ".y", "AddExtension");
    for (string pre : {"", "p", "p/", "/p", "p/q"}) {
      M->check(PrependDir(pre, "") == "", "PrependDir of an empty string");
      string e = pre.empty() || full[0] == '/' ? full : pre.back() == '/' ? pre + full : pre + "/" + full;
      M->step(); M->check(PrependDir(pre, full) == e, "PrependDir('%s') = '%s'", pre.c_str(), PrependDir(pre, full).c_str());
    }
  }
}

static void writing() {
  M->part = "ascii write";
  for (int n = 0; n <= 9; n++) for (int per = 1; per <= 10; per++) {
    if (!M->next()) continue;
    M->begin("%d values, %d per line", n, per); M->state(); M->step(2);
    vector<double> v; for (int i = 0; i < n; i++) v.push_back((i - 4) * 1.25);
    ostringstream os; WriteAsciiArray(os, v.begin(), v.end(), per);
    vector<double> u(n); istringstream is(os.str()); int line = 0; ReadAsciiArray(is, u.begin(), n, line);
    M->check(u == v, "values differ after writing and reading");
    // lines hold `per` values each
    istringstream ls(os.str()); string l; int k = 0; bool ok = true; while (getline(ls, l)) { int c = int(GetTokens(l).size()); ok = ok && c == min(per, n - k); k += c; }
    M->check(ok && k == n, "the lines do not hold %d values each", per);
    if (per == 6) { ostringstream o2; WriteAsciiArray(o2, v.begin(), v.end()); M->check(o2.str() == os.str(), "the default is not 6 per line"); }
  }
  M->part = "serialize";
  for (int n = 1; n <= 4; n++) mc::sequences(3, n, [&](const vector<int>& q) {
    if (!M->next()) return;
    string d; for (int i : q) d += mc::fmt("%d ", i);
    M->begin("vectors [%s]", d.c_str()); M->state(); M->step(4);
    const double DV[] = {0, -2.5, 1e6}; const char* SV[] = {"a", "bc", "d-e"}; const size_t ZV[] = {0, 17, 4000000000u};
    vector<double> vd, wd; vector<string> vs, wsv; vector<size_t> vz, wz; vector<int> vi, wi;
    for (int i : q) { vd.push_back(DV[i]); vs.push_back(SV[i]); vz.push_back(ZV[i]); vi.push_back(i - 1); }
    stringstream st; SerializeVector(vd, st); SerializeVector(vs, st); SerializeVector(vz, st); SerializeVector(vi, st);
    DeserializeVector(st, wd); DeserializeVector(st, wsv); DeserializeVector(st, wz); DeserializeVector(st, wi);
    M->check(vd == wd && vs == wsv && vz == wz && vi == wi, "four vectors written one after the other do not read back");
    // rows of the given lengths
    vector<vector<int>> a, b; vector<vector<double>> c, e; vector<vector<size_t>> f, g; int t = 0;
    for (int i : q) { vector<int> r; vector<double> rd; vector<size_t> rz; for (int k = 0; k < i; k++) { r.push_back(t - 3); rd.push_back(0.5 * t); rz.push_back(t++); } a.push_back(r); c.push_back(rd); f.push_back(rz); }
    stringstream s2; Serialize2dVector(a, s2); s2 << "#end\n"; Serialize2dVector(c, s2); s2 << "#\n"; Serialize2dVector(f, s2);
    Deserialize2dVector(s2, b, '#'); Deserialize2dVector(s2, e, '#'); Deserialize2dVector(s2, g, '#');
    M->check(a == b && c == e && f == g, "2d vectors with rows of lengths [%s] do not read back", d.c_str());
  });
}

static void tables() {
  M->part = "tables";
  string fn = M->scratch + "/t.txt";
  for (int head = 0; head <= 2; head++) for (int nc = 1; nc <= 3; nc++) for (int nr = 1; nr <= 4; nr++) for (int blank = 0; blank < 3; blank++) for (int sep = 0; sep < 3; sep++) for (int end = 0; end < 3; end++) for (int last = 0; last < 2; last++) {
    if (!M->next()) continue;
    M->begin("table: %d header lines, %d columns, %d rows, blank lines %d, separator %d, ending %d, last row read %d", head, nc, nr, blank, sep, end, last); M->state(); M->step(3);
    string s; int line = 1; const char* S[] = {" ", "\t", "   "};
    for (int i = 0; i < head; i++) { s += i ? "x 1 2\n" : "Header text\n"; line++; }
    if (blank == 1) { s += "\n  \n"; line += 2; }
    vector<vector<double>> want(nc);
    for (int r = 0; r < nr; r++) {
      if (blank == 2 && r == 1) s += "\n";
      if (sep == 2) s += "  ";
      for (int c = 0; c < nc; c++) { double v = (r + 1) * 1.5 - c * 10.25; s += ToString(v) + (c + 1 < nc || sep == 2 ? S[sep] : ""); if (r + 1 < nr || last) want[c].push_back(v); }
      if (r + 1 < nr || end) s += "\n";
    }
    if (end == 2) s += "\n \n";
    { ofstream f(fn); f << s; }
    auto same = [&](const TabularFile& t) { if (t.GetNColumns() != size_t(nc)) return false; for (int c = 0; c < nc; c++) if (t.GetColumn(c) != want[c]) return false; return true; };
    try {
      TabularFile t(fn, line, nc, last != 0); M->check(same(t), "columns differ (explicit layout)");
      TabularFile e; e.ReadFromFile(fn, line, nc, last != 0); M->check(same(e), "columns differ (ReadFromFile)");
      size_t fl, ncol; bool rl; string ll; bool ok = TabularFile::CheckFile(fn, fl, ncol, rl, ll);
      M->check(ok && fl == size_t(line) && ncol == size_t(nc) && rl, "CheckFile: %d, first line %zu (expected %d), %zu columns, last line %d", ok, fl, line, ncol, rl);
      if (last) { TabularFile u(fn); M->check(same(u), "columns differ (detected layout)"); }
      M->check(raises<FileFormatError>([&] { TabularFile w(fn, line, nc + 1, true); }), "asking for a column too many is not rejected");
    } catch (std::exception& e) { M->fail(string("raised ") + e.what()); }
  }
  for (string s : {"", "\n \n", "only text\n", "1 2 x\n"}) {
    if (!M->next()) continue;
    M->begin("not a table: '%s'", show(s).c_str()); M->state(); M->step();
    { ofstream f(fn); f << s; }
    M->check(raises<FileFormatError>([&] { TabularFile t(fn); }), "no FileFormatError");
  }
  M->part = "table end mark";
  for (int nc = 1; nc <= 3; nc++) for (const char* end : {"0", "-999", "0.0", "-999.0", "7"}) for (int nr = 1; nr <= 3; nr++) {
    if (!M->next()) continue;
    M->begin("%d columns, %d rows, last line of %s", nc, nr, end); M->state(); M->step();
    { ofstream f(fn); f << "header\n"; for (int r = 0; r < nr; r++) { for (int c = 0; c < nc; c++) f << r * 10 + c + 1 << ' '; f << "\n"; } for (int c = 0; c < nc; c++) f << end << ' '; f << "\n"; }
    bool mark = string(end) != "7"; size_t fl, ncol; bool rl; string ll; bool ok = TabularFile::CheckFile(fn, fl, ncol, rl, ll);
    M->check(ok && fl == 2 && ncol == size_t(nc) && rl == !mark, "CheckFile"); TabularFile t(fn);
    for (int c = 0; c < nc; c++) { vector<double> w; for (int r = 0; r < nr; r++) w.push_back(r * 10 + c + 1); if (!mark) w.push_back(7); M->check(t.GetColumn(c) == w, "column %d", c); }
  }
  M->part = "ignore comment";
  for (int n = 0; n <= (M->thorough() ? 7 : 6); n++) mc::sequences(4, n, [&](const vector<int>& q) {
    if (!M->next()) return;
    string s; for (int k : q) s += "# a\n"[k];
    M->begin("'%s'", show(s).c_str()); M->state(); M->step();
    { ofstream f(fn, ios::binary); f << s; }
    ifstream f(fn);
    size_t b = s.find_first_not_of(" \n"); bool th = false, r = false;
    try { r = IgnoreComment(f, '#'); } catch (Exception&) { th = true; }
    if (b == string::npos) { M->check(th, "no exception at the end of the file"); return; }
    if (!M->check(!th, "exception")) return;
    bool com = s[b] == '#'; M->check(r == com, "IgnoreComment returns %d", r);
    string rest; if (com) { size_t e = s.find('\n', b); rest = e == string::npos ? "" : s.substr(e + 1); } else rest = s.substr(b);
    string got((istreambuf_iterator<char>(f)), istreambuf_iterator<char>()); M->check(got == rest, "the stream is left before '%s' instead of '%s'", show(got).c_str(), show(rest).c_str());
  });
  M->part = "grid file type";
  struct K { string head; int type; };
  for (auto& k : vector<K>{{"storm_petro_binary", STORM_PETRO_BINARY}, {"storm_petro_ascii", STORM_PETRO_ASCII}, {"storm_facies_binary", STORM_FACIES_BINARY}, {"storm_facies_ascii", STORM_FACIES_ASCII}, {"NORSAR General Grid Format v1.0", SGRI}, {"NORSAR General Grid Format v2.0", SGRI}, {"NORSAR General Grid Format v3.0", UNKNOWN}, {"12.5", PLAIN_ASCII}, {"hello", UNKNOWN}, {"storm_petro", UNKNOWN}})
    for (size_t len : {40u, 160u, 161u, 162u, 163u, 3199u, 3200u, 3201u, 5000u}) for (string pre : {"", "\n"}) {
      if (!M->next()) continue;
      if (k.type == UNKNOWN && len > 3200) continue;
      M->begin("'%s' + %zu bytes", (show(pre) + k.head).c_str(), len); M->state(); M->step();
      string s = pre + k.head + "\n"; while (s.size() < len) s += "0 "; s.resize(len, ' ');
      if (s.size() < k.head.size() + 2) continue;
      { ofstream f(fn, ios::binary); f << s; }
      int t = FindGridFileType(fn);
      M->check(t == k.type, "type %d, expected %d", t, k.type);
    }
  // one token that ends with the file, after a longer file of another kind
  for (auto& k : vector<K>{{"0", PLAIN_ASCII}, {"1.", PLAIN_ASCII}, {"x", UNKNOWN}}) for (size_t len : {1u, 2u, 100u, 160u, 161u, 162u, 200u, 3199u}) for (char before : {'x', '7', ' '}) {
    if (!M->next()) continue;
    M->begin("'%s' and zeros, %zu bytes, after a file of '%c'", k.head.c_str(), len, before); M->state(); M->step(2);
    { ofstream f(fn, ios::binary); f << string(3200, before); }
    FindGridFileType(fn);
    string s = k.head; s.resize(len, '0'); { ofstream f(fn, ios::binary); f << s; }
    int t = FindGridFileType(fn); M->check(t == k.type, "type %d, expected %d", t, k.type);
  }
  for (int low : {0, 5, 6, 100}) for (int other : {0, 10, 1500, 1560, 1600, 2500}) for (int ob : {65, 0x7f, 0xd5, 255}) for (size_t len : {3200u, 3201u, 4000u}) {
    if (!M->next()) continue;
    M->begin("EBCDIC-like header: %d low bytes, %d of byte %d, %zu bytes", low, other, ob, len); M->state(); M->step();
    string s(len, char(0x40)); s[0] = char(0xc3); s[1] = char(0xf1); for (int i = 0; i < low; i++) s[100 + i] = char(0x01); for (int i = 0; i < other; i++) s[300 + i] = char(ob);
    { ofstream f(fn, ios::binary); f << s; }
    int t = FindGridFileType(fn); int sp = int(count(s.begin(), s.begin() + 3200, char(0x40))), ot = int(count(s.begin(), s.begin() + 3200, char(ob))); int e = len > 3200 && low <= 5 && ot <= sp ? SEGY : UNKNOWN;
    M->check(t == e, "type %d, expected %d", t, e);
  }
}

// ---- file operations against a map ----------------------------------------------------------------
static void files() {
  M->part = "files";
  string base = M->scratch + "/fs";
  const char* N[] = {"a", "d/b"};
  int depth = M->thorough() ? 5 : 4;
  const int K = 13;
  for (int n = 1; n <= depth; n++) mc::sequences(K, n, [&](const vector<int>& q) {
    if (!M->next()) return;
    static const char* ON[] = {"write a", "write d/b (creating d)", "write d/b (not creating d)", "copy a to d/b", "copy a over d/b", "copy d/b to a", "copy d/b over a", "copy a over a", "remove a", "remove d/b", "make d", "append to a", "read both"};
    string h; for (int o : q) h += string(h.empty() ? "" : ", ") + ON[o];
    M->begins(h);
    RemoveFile(base + "/a"); RemoveFile(base + "/d/b"); rmdir((base + "/d").c_str()); mkdir(base.c_str(), 0755);
    map<int, string> m; bool dir = false; int tag = 0;
    for (int o : q) {
      M->step();
      string txt = mc::fmt("text %d", tag++);
      bool r = false, er = false;
      auto wr = [&](int k, bool create, ios::openmode mode) { r = raises<IOError>([&] { if (tag % 2) { ofstream f; OpenWrite(f, base + "/" + N[k], mode, create); f << txt; } else { fstream f; OpenWrite(f, base + "/" + N[k], mode, create); f << txt; } }); };
      auto cp = [&](int from, int to, bool over) {
        try { CopyFile(base + "/" + N[from], base + "/" + N[to], over); } catch (std::exception&) { r = true; }
        er = !m.count(from) || (to == 1 && !dir) || (!over && m.count(to));
        if (!er) m[to] = string(m[from]);
      };
      switch (o) {
        case 0: wr(0, true, ios::out); m[0] = txt; break;
        case 1: wr(1, true, ios::out); m[1] = txt; dir = true; break;
        case 2: wr(1, false, ios::out); er = !dir; if (dir) m[1] = txt; break;
        case 3: cp(0, 1, false); break;
        case 4: cp(0, 1, true); break;
        case 5: cp(1, 0, false); break;
        case 6: cp(1, 0, true); break;
        case 7: cp(0, 0, true); break;
        case 8: RemoveFile(base + "/a"); m.erase(0); break;
        case 9: RemoveFile(base + "/d/b"); m.erase(1); break;
        case 10: CreateDirIfNotExists(base + "/d/x"); dir = true; break;
        case 11: wr(0, true, ios::out | ios::app); m[0] += txt; break;
        case 12: for (int k = 0; k < 2; k++) {
            bool rr = raises<IOError>([&] { ifstream f; OpenRead(f, base + "/" + N[k]); stringstream ss; ss << f.rdbuf(); M->check(ss.str() == m[k], "read other contents"); });
            bool r2 = raises<IOError>([&] { fstream f; OpenRead(f, base + "/" + N[k]); stringstream ss; ss << f.rdbuf(); M->check(ss.str() == m[k], "read other contents"); });
            if (m.count(k) && m[k].empty() && rr) m.erase(k);   // operator[] above made it
            M->check(rr == r2 && (rr == !m.count(k) || m[k].empty()), "OpenRead of %s", N[k]);
            if (m.count(k) && m[k].empty()) m.erase(k);
          } break;
      }
      if (!M->check(r == er, "%s %s", ON[o], r ? "raised" : "did not raise")) return;
      for (int k = 0; k < 2; k++) {
        string fn = base + "/" + N[k];
        bool ex = FileExists(fn);
        if (!M->check(ex == (m.count(k) > 0), "after %s: %s %s", ON[o], N[k], ex ? "exists" : "is gone")) return;
        if (ex) {
          ifstream f(fn); stringstream ss; ss << f.rdbuf();
          if (!M->check(ss.str() == m[k] && FindFileSize(fn) == m[k].size(), "after %s: %s holds '%s', expected '%s'", ON[o], N[k], ss.str().c_str(), m[k].c_str())) return;
        } else if (!M->check(raises<IOError>([&] { FindFileSize(fn); }), "FindFileSize of a missing file")) return;
      }
      if (!M->check(FileExists(base + "/d") == dir, "directory d")) return;
      uint64_t hh = dir; for (auto& x : m) hh = mc::hmix(hh, mc::hstr(x.second, x.first)); M->state(hh);
    }
  });
  if (M->next()) {
    M->begin("opening directories"); M->state(); M->step(4); mkdir(base.c_str(), 0755);
    M->check(raises<IOError>([&] { ifstream f; OpenRead(f, base); }), "OpenRead of a directory"); M->check(raises<IOError>([&] { fstream f; OpenRead(f, base); }), "OpenRead of a directory");
    M->check(raises<IOError>([&] { ofstream f; OpenWrite(f, base); }), "OpenWrite of a directory"); M->check(raises<IOError>([&] { fstream f; OpenWrite(f, base); }), "OpenWrite of a directory");
  }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  M = &m;
  m.hang_ticks = 3;
  strings();
  transforms();
  writing();
  tables();
  files();
  m.finish();
}
