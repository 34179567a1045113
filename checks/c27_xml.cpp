// C27: the XML reader and writer: documents, trees, printing and edits.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <nrlib/tinyxml/tinyxml.h>
using namespace std;
static mc::MC* M;
static void seen(const std::string& s) { M->state(std::hash<std::string>()(M->part + s)); }

// ---- model -------------------------------------------------------------------------------------------
enum { DOC, ELEM, COMM, UNK, TEXT, DECL };
struct N {
  int t; string v; bool cd = false; string ver, enc, sta;
  vector<pair<string, string>> at; vector<N> ch;
  long off = -1; vector<long> aoff; long ud = 0;
  N(int t_ = ELEM, string v_ = "") : t(t_), v(v_) {}
};
static N E(string v, vector<pair<string, string>> at = {}, vector<N> ch = {}) { N n(ELEM, v); n.at = at; n.ch = ch; return n; }
static N T(string v) { return N(TEXT, v); }
static N CD(string v) { N n(TEXT, v); n.cd = true; return n; }
static string dump(const N& n) {
  string s = mc::fmt("%d:%s", n.t, n.v.c_str()); if (n.cd) s += "[cdata]";
  if (n.t == DECL) s += "{" + n.ver + "|" + n.enc + "|" + n.sta + "}";
  for (auto& a : n.at) s += " @" + a.first + "=" + a.second;
  if (!n.ch.empty()) { s += "("; for (auto& c : n.ch) s += dump(c) + ";"; s += ")"; }
  return s;
}
/// rows and columns, one-based, of an offset in the source
static void where(const string& s, long off, int tab, bool utf8, int& row, int& col) {
  int r = 0, c = 0; long i = 0;
  while (i < off) {
    unsigned char ch = s[i];
    if (ch == '\n') { r++; c = 0; i++; }
    else if (ch == '\t') { c = (c / tab + 1) * tab; i++; }
    else if (utf8 && ch == 0xEF && (unsigned char)s[i + 1] == 0xBB) i += 3;
    else if (utf8 && ch >= 0xC2) { i += ch >= 0xF0 ? 4 : ch >= 0xE0 ? 3 : 2; c++; }
    else { c++; i++; }
  }
  row = r + 1; col = c + 1;
}
struct Pos { const string* src = nullptr; int tab = 4; bool utf8 = false; bool enc_by_decl = false; };

/// Read a node through the interface, checking every link on the way, and compare with the model.
static bool same(const TiXmlNode* n, const N& m, const TiXmlNode* par, const TiXmlDocument* doc, const Pos* pos, const char* what) {
  static const int TY[] = {TiXmlNode::DOCUMENT, TiXmlNode::ELEMENT, TiXmlNode::COMMENT, TiXmlNode::UNKNOWN, TiXmlNode::TEXT, TiXmlNode::DECLARATION};
  if (!M->check(n->Type() == TY[m.t], "%s: node has type %d, expected %s", what, n->Type(), dump(m).c_str())) return false;
  bool ok = M->check((n->ToDocument() != 0) == (m.t == DOC) && (n->ToElement() != 0) == (m.t == ELEM) && (n->ToComment() != 0) == (m.t == COMM) && (n->ToUnknown() != 0) == (m.t == UNK) && (n->ToText() != 0) == (m.t == TEXT) && (n->ToDeclaration() != 0) == (m.t == DECL), "%s: wrong conversions", what);
  ok &= M->check(n->Parent() == par, "%s: wrong parent", what);
  ok &= M->check(n->GetDocument() == doc, "%s: wrong document", what);
  if (m.t != DOC && m.t != DECL) ok &= M->check(m.v == n->Value() && n->ValueStr() == m.v && n->ValueTStr() == m.v, "%s: value '%s', expected '%s'", what, n->Value(), m.v.c_str());
  if (m.t == TEXT) ok &= M->check(n->ToText()->CDATA() == m.cd, "%s: CDATA flag", what);
  if (m.t == DECL) { auto d = n->ToDeclaration(); ok &= M->check(m.ver == d->Version() && m.enc == d->Encoding() && m.sta == d->Standalone(), "%s: declaration {%s|%s|%s}, expected {%s|%s|%s}", what, d->Version(), d->Encoding(), d->Standalone(), m.ver.c_str(), m.enc.c_str(), m.sta.c_str()); }
  if (m.ud >= 0) ok &= M->check((long)(intptr_t)n->GetUserData() == m.ud, "%s: user data", what);
  int r, c;
  if (pos && m.off >= 0) { where(*pos->src, m.off, pos->tab, pos->utf8, r, c); ok &= M->check(n->Row() == r && n->Column() == c, "%s: position (%d,%d), expected (%d,%d) for %s", what, n->Row(), n->Column(), r, c, dump(m).c_str()); }
  if (m.t == ELEM) {
    auto e = n->ToElement(); size_t k = 0; const TiXmlAttribute* last = 0;
    for (auto a = e->FirstAttribute(); a && k <= m.at.size(); a = a->Next(), k++) {
      if (!M->check(k < m.at.size() && m.at[k].first == a->Name() && m.at[k].second == a->Value() && a->ValueStr() == m.at[k].second && a->NameTStr() == m.at[k].first, "%s: attribute %zu is %s='%s', expected '%s'", what, k, a->Name(), a->Value(), k < m.at.size() ? (m.at[k].first + "='" + m.at[k].second + "'").c_str() : "none")) return false;
      ok &= M->check(a->Previous() == last, "%s: attribute %zu: wrong previous", what, k);
      ok &= M->check(e->Attribute(a->Name()) && m.at[k].second == e->Attribute(a->Name()) && e->Attribute(string(a->Name())) && *e->Attribute(string(a->Name())) == m.at[k].second, "%s: attribute looked up by name", what);
      if (pos && k < m.aoff.size()) { where(*pos->src, m.aoff[k], pos->tab, pos->utf8, r, c); ok &= M->check(a->Row() == r && a->Column() == c, "%s: attribute position (%d,%d), expected (%d,%d)", what, a->Row(), a->Column(), r, c); }
      last = a;
    }
    ok &= M->check(k == m.at.size() && e->LastAttribute() == last, "%s: %zu attributes, expected %zu", what, k, m.at.size());
    ok &= M->check(e->Attribute("nosuch") == 0 && e->Attribute(string("nosuch")) == 0, "%s: an absent attribute is found", what);
    const char* gt = e->GetText(); bool ht = !m.ch.empty() && m.ch[0].t == TEXT;
    ok &= M->check(ht ? gt && m.ch[0].v == gt : gt == 0, "%s: GetText", what);
  }
  size_t k = 0; const TiXmlNode* last = 0;
  for (auto q = n->FirstChild(); q; q = q->NextSibling(), k++) {
    if (!M->check(k < m.ch.size(), "%s: too many children of %s: '%s'", what, dump(m).c_str(), q->Value())) return false;
    if (!M->check(q->PreviousSibling() == last, "%s: wrong previous sibling", what)) return false;
    if (!same(q, m.ch[k], n, doc, pos, what)) return false;
    last = q;
  }
  ok &= M->check(k == m.ch.size() && n->LastChild() == last && n->NoChildren() == (k == 0), "%s: %zu children, expected %zu in %s", what, k, m.ch.size(), dump(m).c_str());
  return ok;
}
static bool same(const TiXmlDocument& d, const N& m, const Pos* pos, const char* what) {
  bool ok = same(&d, m, 0, &d, pos, what);
  const N* root = 0; for (auto& c : m.ch) if (c.t == ELEM) { root = &c; break; }
  ok &= M->check(root ? d.RootElement() && root->v == d.RootElement()->Value() : d.RootElement() == 0, "%s: root element", what);
  return ok;
}

// ---- reference treatment of character data -------------------------------------------------------------
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static string u8(unsigned long u) {
  string s;
  if (u < 0x80) s += char(u);
  else if (u < 0x800) { s += char(0xC0 | u >> 6); s += char(0x80 | (u & 63)); }
  else if (u < 0x10000) { s += char(0xE0 | u >> 12); s += char(0x80 | (u >> 6 & 63)); s += char(0x80 | (u & 63)); }
  else { s += char(0xF0 | u >> 18); s += char(0x80 | (u >> 12 & 63)); s += char(0x80 | (u >> 6 & 63)); s += char(0x80 | (u & 63)); }
  return s;
}
/// decode references; false when there is something that is not a complete reference
static bool decode(const string& s, bool utf8, string& o) {
  o = "";
  for (size_t i = 0; i < s.size();) {
    if (s[i] != '&') { o += s[i++]; continue; }
    size_t e = s.find(';', i); if (e == string::npos) return false;
    string n = s.substr(i + 1, e - i - 1);
    if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
    else if (n.size() > 1 && n[0] == '#') {
      bool hex = n[1] == 'x'; string d = n.substr(hex ? 2 : 1); if (d.empty() || d.size() > 6) return false;
      for (char c : d) if (!(hex ? isxdigit((unsigned char)c) : isdigit((unsigned char)c))) return false;
      unsigned long u = strtoul(d.c_str(), 0, hex ? 16 : 10); if (u == 0) return false;
      if (utf8) o += u8(u); else { if (u > 255) return false; o += char(u); }
    } else return false;
    i = e + 1;
  }
  return true;
}
static string condense(const string& s) {
  string o; bool w = false;
  for (char c : s) { if (ws(c)) w = true; else { if (w && !o.empty()) o += ' '; w = false; o += c; } }
  return o;
}
static bool blank(const string& s) { for (char c : s) if (!ws(c)) return false; return true; }

// ---- documents written from fragments ----------------------------------------------------------------
struct Piece { bool text; string raw; N node; };   // markup, or raw character data
struct Src {
  string s; bool utf8, keep; N doc{DOC};
};
static vector<Piece> FR; static vector<pair<string, pair<string, string>>> AT;
static Piece mk(string raw, N n) { Piece p; p.text = false; p.raw = raw; p.node = n; return p; }
static Piece tx(string raw) { Piece p; p.text = true; p.raw = raw; return p; }
static void setoff(N& n, const string& raw, long base) {   // offsets inside markup: the n-th start of each node, in order
  (void)raw; n.off = base;
}
/// append character data runs and markup to an element's content
static void content(Src& S, N& el, const vector<Piece>& ps) {
  string run; long start = -1;
  auto flush = [&] {
    if (start < 0) return;
    string v = S.keep ? run : condense(run), o; long off = start;
    if (!S.keep) for (char c : run) { if (!ws(c)) break; off++; }
    if (!blank(run)) { decode(v, S.utf8, o); if (!blank(o)) { N t = T(o); t.off = off; el.ch.push_back(t); } }
    run = ""; start = -1;
  };
  for (auto& p : ps) {
    if (p.text) { if (start < 0) start = S.s.size(); run += p.raw; S.s += p.raw; }
    else {
      flush(); N n = p.node; long b = S.s.size(); S.s += p.raw;
      setoff(n, p.raw, b);
      // nested: the fragments below have their children's positions relative to the fragment
      function<void(N&)> rel = [&](N& m) { for (auto& a : m.aoff) a += b; for (auto& c : m.ch) { if (c.off >= 0) c.off += b; rel(c); } };
      rel(n); el.ch.push_back(n);
    }
  }
  flush();
}
static bool parse_checked(const Src& S, const string& text, int how, int tab, const char* what) {
  TiXmlBase::SetCondenseWhiteSpace(!S.keep);
  TiXmlDocument d; d.SetTabSize(tab);
  Pos pos; pos.src = &S.s; pos.tab = tab; pos.utf8 = S.utf8;
  bool ok = true;
  if (how == 0) {
    vector<char> b(text.begin(), text.end()); b.push_back(0); b.shrink_to_fit();
    char* q = new char[b.size()]; memcpy(q, b.data(), b.size());
    const char* r = d.Parse(q);
    ok &= M->check(!d.Error(), "%s: error '%s' at (%d,%d)", what, d.ErrorDesc(), d.ErrorRow(), d.ErrorCol());
    if (ok) ok &= M->check(r == 0 || *r == 0, "%s: parsing stopped early", what);
    if (ok) ok &= same(d, S.doc, &pos, what);
    delete[] q;
  } else if (how == 1) {
    string f = M->scratch + "/d.xml"; { ofstream o(f, ios::binary); o << text; }
    bool r = d.LoadFile(f);
    ok &= M->check(r && !d.Error(), "%s: LoadFile: error '%s'", what, d.ErrorDesc());
    ok &= M->check(f == d.Value(), "%s: the document's value is not the file name", what);
    if (ok) ok &= same(d, S.doc, &pos, what);
    if (ok) { TiXmlDocument e(f); e.SetTabSize(tab); ok &= M->check(e.LoadFile() && same(e, S.doc, &pos, what), "%s: LoadFile of the document's own name", what); }
  } else {
    istringstream in(text); in >> d;
    N m = S.doc; size_t k = 0; while (k < m.ch.size() && m.ch[k].t != ELEM) k++;
    m.ch.resize(k + 1);
    ok &= M->check(!d.Error(), "%s: operator>>: error '%s'", what, d.ErrorDesc());
    if (ok) ok &= same(d, m, 0, what);
  }
  TiXmlBase::SetCondenseWhiteSpace(true);
  M->step();
  return ok;
}
static N withpos(N n, vector<long> aoff = {}) { n.aoff = aoff; return n; }
static N at(N n, long off) { n.off = off; return n; }

static void part_parse() {
  M->part = "parse";
  vector<Piece> F;
  F.push_back(tx("x")); F.push_back(tx(" a  b ")); F.push_back(tx("a&lt;b &amp;&gt; &quot;q&apos;")); F.push_back(tx("\n\tl1\n\t l2\n")); F.push_back(tx("&#65;&#x42;&#x6a;>'\"]]"));
  F.push_back(tx("&amp;lt;&amp;#65; &#32;z")); F.push_back(tx("\xC3\xA9&#xe9;")); F.push_back(tx("  \n ")); F.push_back(tx("&#x20;&#10;")); F.push_back(tx("1.5e-3 /a=\"b\" -->"));
  size_t ntext = F.size();
  F.push_back(mk("<b/>", E("b"))); F.push_back(mk("<b></b>", E("b"))); F.push_back(mk("<b >\n </b>", E("b")));
  F.push_back(mk("<c x=\"1\"><d/>t</c>", withpos(E("c", {{"x", "1"}}, {at(E("d"), 9), at(T("t"), 13)}), {3})));
  F.push_back(mk("<_n:a-b.1>v<e><f>w</f></e></_n:a-b.1>", E("_n:a-b.1", {}, {at(T("v"), 10), at(E("e", {}, {at(E("f", {}, {at(T("w"), 17)}), 14)}), 11)})));
  F.push_back(mk("<!-- a & <b> - &lt; \n-->", N(COMM, " a & <b> - &lt; \n"))); F.push_back(mk("<!---->", N(COMM, "")));
  F.push_back(mk("<![CDATA[ <a>&amp;\n ]] ]>]]>", CD(" <a>&amp;\n ]] ]>"))); F.push_back(mk("<![CDATA[]]>", CD("")));
  F.push_back(mk("<?pi a=\"1\"?>", N(UNK, "?pi a=\"1\"?"))); F.push_back(mk("<!ELEMENT b (#PCDATA)>", N(UNK, "!ELEMENT b (#PCDATA)")));
  struct Pro { string raw; vector<N> n; bool utf8; };
  auto decl = [](string v, string e, string s) { N n(DECL); n.ver = v; n.enc = e; n.sta = s; return n; };
  vector<Pro> P = {
    {"", {}, false},
    {"<?xml version=\"1.0\"?>", {at(decl("1.0", "", ""), 0)}, true},
    {"<?xml version='1.0' encoding='UTF-8' standalone=\"yes\" ?>\n", {at(decl("1.0", "UTF-8", "yes"), 0)}, true},
    {"<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n<!-- top -->", {at(decl("1.0", "ISO-8859-1", ""), 0), at(N(COMM, " top "), 44)}, false},
    {"\xEF\xBB\xBF", {}, true},
    {"\n\t<!DOCTYPE r>\n", {at(N(UNK, "!DOCTYPE r"), 2)}, false},
    {"<?xml  encoding = \"utf8\"   standalone='no'?>", {at(decl("", "utf8", "no"), 0)}, true},
  };
  vector<pair<string, pair<string, string>>> A = {
    {"x=\"1\"", {"x", "1"}}, {"y='a \"q\" b'", {"y", "a \"q\" b"}}, {"z = \"&lt;&#65;&quot;&amp;#x41;\"", {"z", "<A\"&#x41;"}}, {"u=unq", {"u", "unq"}}, {"e=\"\"", {"e", ""}}, {"w=\"  a  b\n\"", {"w", "  a  b\n"}},
    {"n:s-1._='\xC3\xBC/>'", {"n:s-1._", "\xC3\xBC/>"}}, {"X=\"2\"", {"X", "2"}}};
  const char* SEP[] = {"", "\n  ", " \t"};
  const char* ASEP[] = {" ", "\n\t"};
  int D = M->thorough() ? 3 : 2;
  // content
  vector<vector<int>> seqs = {{}};
  for (int d = 1; d <= D; d++) { vector<vector<int>> nx; for (auto& q : seqs) if ((int)q.size() == d - 1) for (int i = 0; i < (int)F.size(); i++) { auto r = q; r.push_back(i); nx.push_back(r); } seqs.insert(seqs.end(), nx.begin(), nx.end()); }
  for (auto& q : seqs)
    for (size_t p = 0; p < P.size(); p++)
      for (int sep = 0; sep < 3; sep++)
        for (int keep = 0; keep < 2; keep++) {
          if (!M->next()) continue;
          Src S; S.utf8 = P[p].utf8; S.keep = keep; S.s = P[p].raw; S.doc.ud = 0;
          for (auto& n : P[p].n) S.doc.ch.push_back(n);
          N root = E("r"); root.off = S.s.size(); S.s += "<r>";
          vector<Piece> ps; ps.push_back(tx(SEP[sep])); bool gt = false;
          for (int i : q) { ps.push_back(F[i]); ps.push_back(tx(SEP[sep])); }
          (void)ntext; (void)gt;
          content(S, root, ps); S.s += "</r>"; S.doc.ch.push_back(root);
          if (sep) { S.s += string(SEP[sep]) + "<!--end-->"; N c(COMM, "end"); c.off = S.s.size() - 10; S.doc.ch.push_back(c); }
          M->begin("%s%s", keep ? "keep " : "", S.s.c_str()); seen(S.s);
          int tab = sep == 2 ? 8 : 4;
          bool ok = parse_checked(S, S.s, 0, tab, "Parse");
          if (ok && p != 4) ok = parse_checked(S, S.s, 2, tab, "stream");
          if (ok && (sep == 1 || q.size() < 2)) {
            parse_checked(S, S.s, 1, tab, "LoadFile");
            string crlf, cr; for (char c : S.s) { if (c == '\n') { crlf += "\r\n"; cr += "\r"; } else { crlf += c; cr += c; } }
            if (crlf != S.s) { parse_checked(S, crlf, 1, tab, "LoadFile with CRLF"); parse_checked(S, cr, 1, tab, "LoadFile with CR"); }
          }
        }
  // attributes
  for (int i = 0; i < (int)A.size(); i++) for (int j = -1; j < (int)A.size(); j++) for (int k = -1; k < (int)A.size(); k++)
    for (int form = 0; form < 4; form++) for (int sp = 0; sp < 2; sp++) {
      if (i == j || i == k || (j == k && j >= 0) || (j < 0 && k >= 0)) continue;
      if (!M->next()) continue;
      Src S; S.utf8 = form & 1; S.keep = form & 1; S.doc.ud = 0;
      if (S.utf8) { S.s = "<?xml version=\"1.0\"?>"; S.doc.ch.push_back(at(decl("1.0", "", ""), 0)); }
      N root = E("r"); root.off = S.s.size(); S.s += "<r>"; N el = E("el"); el.off = S.s.size(); S.s += "<el"; bool big = false, unq = false;
      for (int a : {i, j, k}) if (a >= 0) { S.s += ASEP[sp]; el.at.push_back(A[a].second); el.aoff.push_back(S.s.size()); S.s += A[a].first; big |= A[a].first.find('>') != string::npos; unq = A[a].second.first == "u"; }
      if (form < 2) { S.s += unq ? " />" : "/>"; } else { S.s += ">v</el>"; N t = T("v"); t.off = S.s.size() - 6; el.ch.push_back(t); }
      root.ch.push_back(el); S.s += "</r>"; S.doc.ch.push_back(root);
      M->begin("%s", S.s.c_str()); seen(S.s);
      if (parse_checked(S, S.s, 0, 4, "Parse")) { if (!big) parse_checked(S, S.s, 2, 4, "stream"); parse_checked(S, S.s, 1, 4, "LoadFile"); }
    }
  // every character reference up to a bound, every single byte as text and attribute
  for (unsigned long u = 1; u < (M->thorough() ? 0x110000ul : 0x3000ul); u += (u < 0x3000 ? 1 : 61)) {
    if (u >= 0xD800 && u < 0xE000) continue;
    if (!M->next()) continue;
    for (int hex = 0; hex < 3; hex++) {
      Src S; S.utf8 = true; S.keep = false; S.doc.ud = 0; S.s = "<?xml version=\"1.0\"?>"; S.doc.ch.push_back(at(decl("1.0", "", ""), 0));
      string ref = hex == 0 ? mc::fmt("&#%lu;", u) : hex == 1 ? mc::fmt("&#x%lx;", u) : mc::fmt("&#x%lX;", u);
      S.s += "<r a='" + ref + "'>m" + ref + ref + "</r>"; S.doc.ch.push_back(E("r", {{"a", u8(u)}}, {T("m" + u8(u) + u8(u))}));
      M->begin("%s", S.s.c_str()); seen(S.s);
      parse_checked(S, S.s, 0, 4, "Parse");
    }
  }
  for (int b = 1; b < 256; b++) for (int utf8 = 0; utf8 < 2; utf8++) {
    if (!M->next()) continue;
    if (utf8 && b >= 128) continue;
    if (b == '&' || b == '<' || b == '"' || b == '\r' || b == '\n') continue;
    Src S; S.utf8 = utf8; S.keep = false; S.doc.ud = 0; if (utf8) { S.s = "<?xml version=\"1.0\"?>"; S.doc.ch.push_back(at(decl("1.0", "", ""), 0)); }
    string c(1, char(b)); S.s += "<r a=\"" + c + "\">m" + c + "n</r>"; S.doc.ch.push_back(E("r", {{"a", c}}, {T(ws(char(b)) ? "m n" : "m" + c + "n")}));
    M->begin("byte %d utf8 %d", b, utf8); seen(S.s);
    if (parse_checked(S, S.s, 0, 4, "Parse")) parse_checked(S, S.s, 1, 4, "LoadFile");
  }
}

// ---- printing and reading back ------------------------------------------------------------------------
static TiXmlNode* build(const N& m) {
  TiXmlNode* n = 0;
  if (m.t == ELEM) { auto e = new TiXmlElement(m.v); for (auto& a : m.at) e->SetAttribute(a.first, a.second); n = e; }
  else if (m.t == TEXT) { auto t = new TiXmlText(m.v); t->SetCDATA(m.cd); n = t; }
  else if (m.t == COMM) n = new TiXmlComment(m.v.c_str());
  else if (m.t == UNK) { n = new TiXmlUnknown(); n->SetValue(m.v); }
  else if (m.t == DECL) n = new TiXmlDeclaration(m.ver, m.enc, m.sta);
  else n = new TiXmlDocument();
  for (auto& c : m.ch) n->LinkEndChild(build(c));
  return n;
}
static string printed(const TiXmlNode& n, int how) {
  if (how == 0) { char* b = 0; size_t z = 0; FILE* f = open_memstream(&b, &z); n.Print(f, 0); fclose(f); string s(b, z); free(b); return s; }
  if (how == 1) { string f = M->scratch + "/p.xml"; if (!M->check(n.ToDocument()->SaveFile(f), "SaveFile failed")) return ""; ifstream i(f, ios::binary); stringstream ss; ss << i.rdbuf(); return ss.str(); }
  if (how == 2 || how == 3) { TiXmlPrinter p; if (how == 3) { p.SetIndent("\t"); p.SetLineBreak("\r\n"); } n.Accept(&p); M->check(p.Str() == p.CStr() && p.Size() == p.Str().size(), "printer: Str, CStr and Size disagree"); return p.Str(); }
  if (how == 4) { ostringstream o; o << n; return o.str(); }
  string o = "pre"; o << n; M->check(o.substr(0, 3) == "pre", "operator<< on a string does not append"); return o.substr(3);
}
static void reread(const N& doc, bool tight, const char* tag) {
  seen(dump(doc));
  unique_ptr<TiXmlNode> n(build(doc));
  N want = doc; want.ud = 0;
  if (!same(*n->ToDocument(), want, 0, "built")) return;
  for (int how = 0; how < 6; how++) {
    string s = printed(*n, how);
    for (int keep = 0; keep < 2; keep++) {
      if (keep ? how < 4 : tight) continue;
      M->note("%s way %d%s: %s", tag, how, keep ? " keep" : "", s.c_str());
      TiXmlBase::SetCondenseWhiteSpace(!keep);
      TiXmlDocument d; d.Parse(s.c_str());
      TiXmlBase::SetCondenseWhiteSpace(true);
      if (!M->check(!d.Error(), "printed %d: reading back: %s", how, d.ErrorDesc())) return;
      if (!same(d, want, 0, keep ? "printed and read back (white space kept)" : "printed and read back")) return;
      M->step();
    }
  }
}
// large documents: long names, values, text; deep and wide trees
static string longtext(int n, bool ent) { string s; for (int i = 0; i < n; i++) s += i % 11 == 7 ? ' ' : ent && i % 13 == 5 ? '&' : ent && i % 29 == 3 ? '<' : char('a' + (i * 7 + i / 26) % 26); if (s.back() == ' ') s.back() = 'z'; return s; }
static string escape(const string& v) { string o; for (char c : v) o += c == '&' ? string("&amp;") : c == '<' ? string("&lt;") : string(1, c); return o; }
static void part_large() {
  M->part = "large";
  for (int n : {20, 31, 32, 33, 63, 64, 100, 127, 128, 200, 255, 256, 300, 511, 512, 1000, 1023, 1024, 2047, 2048, 4096, 9000}) for (int kind = 0; kind < 10; kind++) for (int keep = 0; keep < 2; keep++) {
    if (!M->next()) continue;
    if ((kind == 7 && n > 600) || ((kind == 6 || kind == 8) && n > 1100)) continue;
    M->begin("large document: kind %d, size %d%s", kind, n, keep ? ", white space kept" : "");
    Src S; S.utf8 = true; S.keep = keep; S.doc.ud = 0; N dc(DECL); dc.ver = "1.0"; dc.off = 0; S.s = "<?xml version=\"1.0\"?>"; S.doc.ch.push_back(dc);
    N root = E("r"); root.off = S.s.size();
    string nm = "n", tx; for (int i = 1; i < n; i++) nm += char('a' + i % 26);
    if (kind == 0) { S.s += "<r>" + longtext(n, false) + "</r>"; root.ch = {T(longtext(n, false))}; root.ch[0].off = root.off + 3; }
    if (kind == 1) { S.s += "<r>" + escape(longtext(n, true)) + "</r>"; root.ch = {T(longtext(n, true))}; root.ch[0].off = root.off + 3; }
    if (kind == 2) { S.s += "<r>" "<" + nm + " " + nm + "='1'/></r>"; root.ch = {E(nm, {{nm, "1"}})}; root.ch[0].off = root.off + 3; root.ch[0].aoff = {root.off + 5 + n}; }
    if (kind == 3) { S.s += "<r a=\"" + escape(longtext(n, true)) + "\" b='x'></r>"; root.at = {{"a", longtext(n, true)}, {"b", "x"}}; }
    if (kind == 4) { S.s += "<r><!--" + longtext(n, true) + "--></r>"; root.ch = {N(COMM, longtext(n, true))}; root.ch[0].off = root.off + 3; }
    if (kind == 5) { S.s += "<r><![CDATA[" + longtext(n, true) + "]]></r>"; root.ch = {CD(longtext(n, true))}; root.ch[0].off = root.off + 3; }
    if (kind == 6) { S.s += "<r>"; for (int i = 0; i < n; i++) { N c = E("c", {{"i", to_string(i)}}); c.off = S.s.size(); c.aoff = {c.off + 3}; S.s += mc::fmt("<c i='%d'/>\n", i); root.ch.push_back(c); } S.s += "</r>"; }
    if (kind == 7) { N in = T("core"); string op = "<r>"; for (int i = 0; i < n; i++) op += mc::fmt("<d%d>", i); in.off = root.off + op.size(); long o = in.off; S.s += op + "core"; for (int i = n; i-- > 0;) { string t = mc::fmt("d%d", i); o -= t.size() + 2; N e = E(t, {}, {in}); e.off = o; in = e; S.s += "</" + t + ">"; } S.s += "</r>"; root.ch = {in}; }
    if (kind == 8) { S.s += "<r"; for (int i = 0; i < n; i++) { S.s += i % 9 ? " " : "\n"; root.aoff.push_back(S.s.size()); root.at.push_back({mc::fmt("a%d", i), mc::fmt("v%d", i * 3)}); S.s += mc::fmt("a%d=\"v%d\"", i, i * 3); } S.s += "/>"; }
    if (kind == 9) { S.s += "<r><?" + longtext(n, false) + "?></r>"; root.ch = {N(UNK, "?" + longtext(n, false) + "?")}; root.ch[0].off = root.off + 3; }
    S.doc.ch.push_back(root); seen(S.s);
    if (parse_checked(S, S.s, 0, 4, "Parse") && parse_checked(S, S.s, 1, 4, "LoadFile") && parse_checked(S, S.s, 2, 4, "stream")) {
      function<void(N&)> strip = [&](N& m) { m.off = -1; m.aoff.clear(); for (auto& c : m.ch) strip(c); };
      N d = S.doc; strip(d); reread(d, keep, "large");
    }
  }
}
static void part_print() {
  M->part = "print";
  N dc(DECL); dc.ver = "1.0"; N dc2(DECL); dc2.ver = "1.0"; dc2.enc = "UTF-8"; dc2.sta = "no"; N dc3(DECL); dc3.enc = "latin1";
  vector<N> F = {E("b"), E("b", {{"x", "1"}}), E("c", {}, {T("t")}), E("c", {{"k", "v w"}}, {E("d"), T("u v"), E("d", {}, {T("deep")})}), E("c", {}, {CD("q")}), E("c", {}, {N(COMM, "in")}), E("c", {}, {T("a"), CD("b"), T("c")}),
                 T("text"), T("a & b <c> \"d\" 'e'"), T("l1\nl2\tl3"), T("\xC3\xA9"), T("&lt;"), T("\nx"), T("x\r"), CD(" raw <&> \n]] "), CD(""), CD("x"), N(COMM, " note & <x> "), N(COMM, ""), N(UNK, "?pi x?"), N(UNK, "!ELEMENT a")};
  vector<string> V = {"", "1", "a\"b", "a'b", "a\"b'c", "<&>", "  s  p ", "\n\t", "\xC3\xBC", "&amp;", "&lt;", "&#65;", ";", "&", "#x"};
  int D = M->thorough() ? 4 : 3;
  vector<vector<int>> seqs = {{}};
  for (int d = 1; d <= D; d++) { vector<vector<int>> nx; for (auto& q : seqs) if ((int)q.size() == d - 1) for (int i = 0; i < (int)F.size(); i++) { if (!q.empty() && F[i].t == TEXT && !F[i].cd && F[q.back()].t == TEXT && !F[q.back()].cd) continue; auto r = q; r.push_back(i); nx.push_back(r); } seqs.insert(seqs.end(), nx.begin(), nx.end()); }
  for (auto& q : seqs) for (int pro = 0; pro < (q.size() < 3 ? 4 : 1); pro++) {
    if (!M->next()) continue;
    N doc(DOC); if (pro == 1) doc.ch.push_back(dc); if (pro == 2) { doc.ch.push_back(dc2); doc.ch.push_back(N(COMM, "top")); } if (pro == 3) { doc.ch.push_back(dc3); doc.ch.push_back(N(UNK, "!DOCTYPE x")); }
    N r = E("r"); string l; for (int i : q) { r.ch.push_back(F[i]); l += mc::fmt("%d,", i); }
    doc.ch.push_back(r); if (pro == 2) doc.ch.push_back(E("second"));
    M->begin("print children %s prolog %d", l.c_str(), pro);
    reread(doc, false, "children");
  }
  for (size_t a = 0; a < V.size(); a++) for (size_t b = 0; b < V.size(); b++) for (int c = 0; c < 3; c++) {
    if (!M->next()) continue;
    N doc(DOC); N e = E("e", {{"p", V[a]}, {"q:r", V[b]}}); if (c == 1) e.ch.push_back(T("t")); if (c == 2) e.ch.push_back(E("f", {{"_", V[b]}}));
    doc.ch.push_back(c ? E("r", {{"z", V[b]}}, {e}) : e);
    M->begin("print attributes %zu,%zu form %d", a, b, c); reread(doc, false, "attributes");
  }
  // white space in text survives when it is kept
  vector<string> W = {" x", "x ", "  x  y  ", "\t x", "x\n"};
  for (size_t a = 0; a < W.size(); a++) for (size_t b = 0; b < W.size(); b++) {
    if (!M->next()) continue;
    N doc(DOC); doc.ch.push_back(E("r", {}, {T(W[a]), E("b", {}, {T(W[b])}), T(W[b])}));
    M->begin("print kept white space %zu,%zu", a, b); reread(doc, true, "white space");
  }
  // every byte in text and in an attribute
  for (int b = 1; b < 256; b++) {
    if (!M->next()) continue;
    string c(1, char(b)); N doc(DOC); doc.ch.push_back(E("r", {{"a", "p" + c + "q"}, {"b", c}}, {T("m" + c + "n")}));
    M->begin("print byte %d", b); reread(doc, c == " ", "byte");
  }
  // the byte order mark is kept
  if (M->next()) {
    M->begin("byte order mark");
    string f = M->scratch + "/bom.xml"; { ofstream o(f, ios::binary); o << "\xEF\xBB\xBF<r/>"; }
    TiXmlDocument d; M->check(d.LoadFile(f), "BOM: not read"); string g = M->scratch + "/bom2.xml"; TiXmlDocument cp(d);
    for (int k = 0; k < 2; k++) { M->check((k ? cp : d).SaveFile(g), "BOM: not written"); ifstream i(g, ios::binary); stringstream ss; ss << i.rdbuf(); M->check(ss.str().substr(0, 3) == "\xEF\xBB\xBF", "BOM lost on saving"); }
    TiXmlDocument no; M->check(!no.LoadFile(M->scratch + "/nosuchfile.xml") && no.Error() && no.ErrorId() == TiXmlBase::TIXML_ERROR_OPENING_FILE, "a missing file is not reported");
    M->check(no.LoadFile(f) && !no.Error(), "an error stays after a good load");
    { ofstream o(f, ios::binary); } M->check(!no.LoadFile(f) && no.Error() && no.ErrorId() == TiXmlBase::TIXML_ERROR_DOCUMENT_EMPTY && no.NoChildren(), "an empty file is not reported");
    M->check(!d.SaveFile(M->scratch + "/nodir/x.xml"), "saving into a missing directory succeeds");
    M->step();
  }
}

// ---- editing histories --------------------------------------------------------------------------------
static void finders(TiXmlNode* n, const N& m, const char* what) {
  const TiXmlNode* cn = n; vector<const TiXmlNode*> q; for (auto c = cn->FirstChild(); c; c = c->NextSibling()) q.push_back(c);
  int L = q.size();
  for (const char* v : {"A", "B", "T", "C", "none"}) {
    vector<int> all, el; for (int i = 0; i < L; i++) if (m.ch[i].v == v) { all.push_back(i); if (m.ch[i].t == ELEM) el.push_back(i); }
    auto at = [&](int i) { return i < 0 ? (const TiXmlNode*)0 : q[i]; };
    bool ok = M->check(cn->FirstChild(v) == at(all.empty() ? -1 : all[0]) && cn->FirstChild(string(v)) == cn->FirstChild(v) && n->FirstChild(v) == cn->FirstChild(v), "%s: FirstChild(%s)", what, v);
    ok &= M->check(cn->LastChild(v) == at(all.empty() ? -1 : all.back()) && cn->LastChild(string(v)) == cn->LastChild(v), "%s: LastChild(%s)", what, v);
    ok &= M->check(cn->FirstChildElement(v) == at(el.empty() ? -1 : el[0]) && cn->FirstChildElement(string(v)) == cn->FirstChildElement(v), "%s: FirstChildElement(%s)", what, v);
    int idx = -5, cnt = 0; if (!el.empty()) for (int i = 0; i <= el[0]; i++) cnt += m.ch[i].t != COMM;
    auto fe = cn->FirstChildElement(v, idx); ok &= M->check(fe == at(el.empty() ? -1 : el[0]) && (el.empty() || idx == cnt), "%s: FirstChildElement(%s, index) gives index %d, expected %d", what, v, idx, cnt);
    cnt = 0; if (!all.empty()) for (int i = 0; i <= all[0]; i++) cnt += m.ch[i].t != COMM;
    auto fc = cn->FirstChild(v, idx); ok &= M->check(fc == at(all.empty() ? -1 : all[0]) && (all.empty() || idx == cnt), "%s: FirstChild(%s, index) gives index %d, expected %d", what, v, idx, cnt);
    vector<int> it; for (const TiXmlNode* c = 0; (c = cn->IterateChildren(v, c));) it.push_back(find(q.begin(), q.end(), c) - q.begin());
    ok &= M->check(it == all, "%s: IterateChildren(%s)", what, v);
    for (int i = 0; i < L; i++) {
      auto nx = upper_bound(all.begin(), all.end(), i); auto ne = upper_bound(el.begin(), el.end(), i); auto pv = lower_bound(all.begin(), all.end(), i);
      ok &= M->check(q[i]->NextSibling(v) == at(nx == all.end() ? -1 : *nx) && q[i]->NextSibling(string(v)) == q[i]->NextSibling(v), "%s: NextSibling(%s) of %d", what, v, i);
      ok &= M->check(q[i]->NextSiblingElement(v) == at(ne == el.end() ? -1 : *ne) && q[i]->NextSiblingElement(string(v)) == q[i]->NextSiblingElement(v), "%s: NextSiblingElement(%s) of %d", what, v, i);
      ok &= M->check(q[i]->PreviousSibling(v) == at(pv == all.begin() ? -1 : *(pv - 1)) && q[i]->PreviousSibling(string(v)) == q[i]->PreviousSibling(v), "%s: PreviousSibling(%s) of %d", what, v, i);
    }
    TiXmlHandle h(n);
    ok &= M->check(h.FirstChild(v).ToNode() == cn->FirstChild(v) && h.FirstChildElement(v).ToNode() == cn->FirstChildElement(v), "%s: handle FirstChild(%s)", what, v);
    for (int k = 0; k <= L; k++) { ok &= M->check(h.Child(v, k).ToNode() == at(k < (int)all.size() ? all[k] : -1) && h.ChildElement(v, k).ToNode() == at(k < (int)el.size() ? el[k] : -1) && h.Child(string(v), k).ToNode() == h.Child(v, k).ToNode(), "%s: handle Child(%s,%d)", what, v, k); }
    if (!ok) return;
  }
  vector<int> el; for (int i = 0; i < L; i++) if (m.ch[i].t == ELEM) el.push_back(i);
  bool ok = M->check(cn->FirstChildElement() == (el.empty() ? 0 : q[el[0]]), "%s: FirstChildElement", what);
  for (int i = 0; i < L; i++) { auto ne = upper_bound(el.begin(), el.end(), i); ok &= M->check(q[i]->NextSiblingElement() == (ne == el.end() ? 0 : q[*ne]), "%s: NextSiblingElement of %d", what, i); }
  vector<const TiXmlNode*> it; for (const TiXmlNode* c = 0; (c = cn->IterateChildren(c));) it.push_back(c);
  ok &= M->check(it == q, "%s: IterateChildren", what);
  TiXmlHandle h(n); h = TiXmlHandle(h);
  ok &= M->check(h.FirstChild().ToNode() == (L ? q[0] : 0) && h.FirstChildElement().ToNode() == (el.empty() ? 0 : q[el[0]]), "%s: handle FirstChild", what);
  for (int k = 0; k <= L; k++) {
    auto hc = h.Child(k); auto he = h.ChildElement(k);
    ok &= M->check(hc.ToNode() == (k < L ? q[k] : 0) && he.ToNode() == (k < (int)el.size() ? q[el[k]] : 0), "%s: handle Child(%d)", what, k);
    ok &= M->check((hc.ToElement() != 0) == (k < L && m.ch[k].t == ELEM) && (hc.ToText() != 0) == (k < L && m.ch[k].t == TEXT) && (hc.ToUnknown() != 0) == (k < L && m.ch[k].t == UNK), "%s: handle conversion", what);
  }
  ok &= M->check(h.Child(L).FirstChild("A").ChildElement(1).Child("A", 0).FirstChildElement().ToNode() == 0, "%s: a chain through an empty handle", what);
}
struct Trace : TiXmlVisitor {
  vector<string> t; int stop = -1;
  bool rec(string s) { t.push_back(s); return (int)t.size() - 1 != stop; }
  bool VisitEnter(const TiXmlDocument&) { return rec("+doc"); } bool VisitExit(const TiXmlDocument&) { t.push_back("-doc"); return true; }
  bool VisitEnter(const TiXmlElement& e, const TiXmlAttribute* a) { return rec(string("+") + e.Value() + (a ? string("@") + a->Name() : "")); } bool VisitExit(const TiXmlElement& e) { t.push_back(string("-") + e.Value()); return true; }
  bool Visit(const TiXmlDeclaration&) { return rec("decl"); } bool Visit(const TiXmlText& x) { return rec(string("t") + x.Value()); } bool Visit(const TiXmlComment& x) { return rec(string("c") + x.Value()); } bool Visit(const TiXmlUnknown& x) { return rec(string("u") + x.Value()); }
};
static void visit(const N& m, vector<string>& t, int stop, bool& stopped) {
  auto rec = [&](string s) { t.push_back(s); return (int)t.size() - 1 != stop; };
  if (m.t == DOC || m.t == ELEM) {
    bool in = rec(m.t == DOC ? "+doc" : "+" + m.v + (m.at.empty() ? "" : "@" + m.at[0].first));
    if (in) for (auto& c : m.ch) { bool leaf = false; visit(c, t, stop, leaf); if (leaf) break; }
    t.push_back(m.t == DOC ? "-doc" : "-" + m.v);
  } else stopped = !rec(m.t == DECL ? "decl" : (m.t == TEXT ? "t" : m.t == COMM ? "c" : "u") + m.v);
}
static const int NOPS = 25;
static const char* OPN[NOPS] = {"endA", "linkT", "endC", "before first B", "before last A", "after first B", "after last T", "replace first by B(A)", "replace last by C", "remove first", "remove last", "remove second", "clear", "copy doc", "assign doc", "append clone of root", "set first value B", "x=1", "y=int", "z=double", "remove x", "insert document", "foreign insert", "root = copy", "unknown U"};
static void part_dom() {
  M->part = "edit";
  int D = M->thorough() ? 5 : 4;
  vector<int> q; 
  function<void()> rec = [&] {
    if (M->next()) {
      string l; for (int o : q) l += string(OPN[o]) + "; ";
      M->begin("%s", l.c_str());
      unique_ptr<TiXmlDocument> d(new TiXmlDocument("name")); { TiXmlElement r("r"); d->InsertEndChild(r); }
      N m(DOC); m.ch.push_back(E("r")); bool err = false; bool good = true;
      TiXmlElement eA("A"), eB("B"); eB.SetAttribute("k", "v"); eB.SetUserData((void*)(intptr_t)7); N mA = E("A"), mB = E("B", {{"k", "v"}}); mB.ud = 7; TiXmlElement eBA(eB); eBA.InsertEndChild(eA); N mBA = mB; mBA.ch.push_back(mA);
      TiXmlComment eC("C"); N mC(COMM, "C"); TiXmlText eT("T"); eT.SetCDATA(true); N mT = CD("T"); TiXmlUnknown eU; eU.SetValue("U"); N mU(UNK, "U");
      for (int o : q) {
        TiXmlElement* r = d->RootElement(); N& R = m.ch[0]; size_t L = R.ch.size(); TiXmlNode* got = 0; const char* gv = 0;
        auto attr = [&](string k, string v) { for (auto& a : R.at) if (a.first == k) { a.second = v; return; } R.at.push_back({k, v}); };
        switch (o) {
          case 0: got = r->InsertEndChild(eA); gv = "A"; R.ch.push_back(mA); break;
          case 1: { auto t = new TiXmlText(string("T")); t->SetUserData((void*)(intptr_t)3); got = r->LinkEndChild(t); good &= M->check(got == t, "LinkEndChild returns another node"); N n = T("T"); n.ud = 3; R.ch.push_back(n); gv = "T"; break; }
          case 2: got = r->InsertEndChild(eC); gv = "C"; R.ch.push_back(mC); break;
          case 3: got = r->InsertBeforeChild(r->FirstChild(), eB); if (L) { gv = "B"; R.ch.insert(R.ch.begin(), mB); } else good &= M->check(!got, "insertion before nothing"); break;
          case 4: got = r->InsertBeforeChild(r->LastChild(), eA); if (L) { gv = "A"; R.ch.insert(R.ch.end() - 1, mA); } else good &= M->check(!got, "insertion before nothing"); break;
          case 5: got = r->InsertAfterChild(r->FirstChild(), eB); if (L) { gv = "B"; R.ch.insert(R.ch.begin() + 1, mB); } else good &= M->check(!got, "insertion after nothing"); break;
          case 6: got = r->InsertAfterChild(r->LastChild(), eT); if (L) { gv = "T"; R.ch.push_back(mT); } else good &= M->check(!got, "insertion after nothing"); break;
          case 7: if (L) { got = r->ReplaceChild(r->FirstChild(), eBA); gv = "B"; R.ch[0] = mBA; } break;
          case 8: if (L) { got = r->ReplaceChild(r->LastChild(), eC); gv = "C"; R.ch.back() = mC; } break;
          case 9: if (L) { good &= M->check(r->RemoveChild(r->FirstChild()), "RemoveChild fails"); R.ch.erase(R.ch.begin()); } break;
          case 10: if (L) { good &= M->check(r->RemoveChild(r->LastChild()), "RemoveChild fails"); R.ch.pop_back(); } break;
          case 11: if (L > 1) { good &= M->check(r->RemoveChild(r->FirstChild()->NextSibling()), "RemoveChild fails"); R.ch.erase(R.ch.begin() + 1); } break;
          case 12: r->Clear(); R.ch.clear(); break;
          case 13: { d->SetTabSize(7); unique_ptr<TiXmlDocument> c(new TiXmlDocument(*d)); good &= M->check(c->Error() == d->Error() && c->ErrorId() == d->ErrorId() && string(c->ErrorDesc()) == d->ErrorDesc() && c->TabSize() == 7 && string(c->Value()) == d->Value(), "the copy of a document lacks its state"); d = std::move(c); break; }
          case 14: { unique_ptr<TiXmlDocument> c(new TiXmlDocument()); c->InsertEndChild(eB); *c = *d; good &= M->check(c->Error() == d->Error(), "assignment of a document lacks its state"); d.reset(); d = std::move(c); break; }
          case 15: if (L < 4) { unique_ptr<TiXmlNode> c(r->Clone()); good &= M->check(c->Parent() == 0 && c->NextSibling() == 0 && c->PreviousSibling() == 0, "a clone is linked"); N cm = R; good &= same(c.get(), cm, 0, 0, 0, "clone"); got = r->InsertEndChild(*c); gv = "r"; R.ch.push_back(cm); } break;
          case 16: if (L) { r->FirstChild()->SetValue("B"); R.ch[0].v = "B"; } break;
          case 17: r->SetAttribute("x", "1"); attr("x", "1"); break;
          case 18: if (L & 1) r->SetAttribute("y", -123456); else r->SetAttribute(string("y"), -123456); attr("y", "-123456"); { int i = 0; good &= M->check(r->QueryIntAttribute("y", &i) == TIXML_SUCCESS && i == -123456 && r->QueryIntAttribute(string("y"), &i) == TIXML_SUCCESS && i == -123456, "integer attribute"); } break;
          case 19: r->SetDoubleAttribute("z", 2.125); attr("z", "2.125000"); break;
          case 20: r->RemoveAttribute("x"); for (size_t k = 0; k < R.at.size(); k++) if (R.at[k].first == "x") { R.at.erase(R.at.begin() + k); break; } break;
          case 21: { TiXmlDocument o2; d->ClearError(); good &= M->check(r->InsertEndChild(o2) == 0 && d->Error() && d->ErrorId() == TiXmlBase::TIXML_ERROR_DOCUMENT_TOP_ONLY, "a document can be inserted"); err = true; if (L) { good &= M->check(r->InsertBeforeChild(r->FirstChild(), o2) == 0 && r->InsertAfterChild(r->LastChild(), o2) == 0, "a document can be inserted"); } break; }
          case 22: { good &= M->check(r->InsertBeforeChild(r, eA) == 0 && r->InsertAfterChild(r, eA) == 0 && r->InsertBeforeChild(0, eA) == 0 && r->ReplaceChild(r, eA) == 0, "insertion next to a node of another parent"); break; }
          case 23: { TiXmlElement c("other"); c.SetAttribute("gone", "1"); c.InsertEndChild(eA); c = *r; N cm = R; good &= same(&c, cm, 0, 0, 0, "assigned element"); TiXmlElement c2(*r); good &= same(&c2, cm, 0, 0, 0, "copied element"); *r = c; break; }
          case 24: got = r->InsertEndChild(eU); gv = "U"; R.ch.push_back(mU); break;
        }
        if (gv) good &= M->check(got && string(got->Value()) == gv && got->Parent() == r, "%s: returned node", OPN[o]);
        if (o == 13 || o == 14) {} 
        if (!good) return;
      }
      seen(dump(m)); M->step();
      M->check(d->Error() == err, "error state %d, expected %d", d->Error(), err);
      if (same(*d, m, 0, "after the edits")) {
        finders(d->RootElement(), m.ch[0], "after the edits");
        Trace t; d->Accept(&t); vector<string> w; bool s = false; visit(m, w, -1, s); M->check(t.t == w, "the visit order is wrong");
        if (q.size() < 3) for (int k = 0; k < (int)w.size(); k++) { Trace t2; t2.stop = k; d->Accept(&t2); vector<string> w2; s = false; visit(m, w2, k, s); M->check(t2.t == w2, "a visit refused at step %d goes on wrongly", k); }
      }
    }
    if ((int)q.size() < D) for (int o = 0; o < NOPS; o++) { q.push_back(o); rec(); q.pop_back(); }
  };
  rec();
  // numbers in attributes
  struct Q { const char* s; int it; int i; int dt; double d; };
  Q qs[] = {{"0", 1, 0, 1, 0}, {"-17", 1, -17, 1, -17}, {"2147483647", 1, 2147483647, 1, 2147483647.0}, {"+5", 1, 5, 1, 5}, {" 12", 1, 12, 1, 12}, {"0.5", -1, 0, 1, 0.5}, {"-1.25e3", -1, 0, 1, -1250}, {"1e-300", -1, 0, 1, 1e-300}, {"abc", 0, 0, 0, 0}, {"", 0, 0, 0, 0}, {"-", 0, 0, 0, 0}, {".", 0, 0, 0, 0}, {"x1", 0, 0, 0, 0}, {"4503599627370497.5", -1, 0, 1, 4503599627370497.5}};
  for (auto& c : qs) {
    if (!M->next()) continue;
    M->begin("number '%s'", c.s); seen(string("num") + c.s); M->step();
    TiXmlElement e("e"); e.SetAttribute("a", c.s); TiXmlAttribute* a = e.FirstAttribute(); const string A = "a";
    int i = 77; double d = 77; float f = 77; double d2 = 77; int i2 = 77;
    if (c.it >= 0) {
      M->check(e.QueryIntAttribute("a", &i) == (c.it ? TIXML_SUCCESS : TIXML_WRONG_TYPE) && i == (c.it ? c.i : 77) && a->QueryIntValue(&i2) == (c.it ? TIXML_SUCCESS : TIXML_WRONG_TYPE), "QueryIntAttribute");
      int v = 1; M->check(e.QueryValueAttribute(A, &v) == (c.it ? TIXML_SUCCESS : TIXML_WRONG_TYPE) && (!c.it || v == c.i), "QueryValueAttribute<int>");
      M->check(e.Attribute("a", &i2) && i2 == c.i && e.Attribute(A, &i2) && i2 == c.i && a->IntValue() == c.i, "Attribute with int");
    }
    M->check(e.QueryDoubleAttribute("a", &d) == (c.dt ? TIXML_SUCCESS : TIXML_WRONG_TYPE) && d == (c.dt ? c.d : 77) && a->QueryDoubleValue(&d2) == (c.dt ? TIXML_SUCCESS : TIXML_WRONG_TYPE), "QueryDoubleAttribute");
    M->check(e.QueryDoubleAttribute(A, &d2) == (c.dt ? TIXML_SUCCESS : TIXML_WRONG_TYPE) && e.QueryFloatAttribute("a", &f) == (c.dt ? TIXML_SUCCESS : TIXML_WRONG_TYPE) && f == (c.dt ? float(c.d) : 77), "QueryFloatAttribute");
    M->check(e.Attribute("a", &d2) && d2 == c.d && e.Attribute(A, &d2) && d2 == c.d && a->DoubleValue() == c.d, "Attribute with double");
    M->check(e.QueryIntAttribute("b", &i) == TIXML_NO_ATTRIBUTE && e.QueryDoubleAttribute("b", &d) == TIXML_NO_ATTRIBUTE && e.QueryFloatAttribute("b", &f) == TIXML_NO_ATTRIBUTE && e.QueryValueAttribute(string("b"), &d) == TIXML_NO_ATTRIBUTE && e.QueryIntAttribute(string("b"), &i) == TIXML_NO_ATTRIBUTE && e.QueryDoubleAttribute(string("b"), &d) == TIXML_NO_ATTRIBUTE, "an absent attribute is not reported");
    i = 5; d = 5; M->check(!e.Attribute("b", &i) && i == 0 && !e.Attribute("b", &d) && d == 0, "an absent attribute's number");
  }
  for (double v : {0.0, 1.5, -3.25, 123456.0625, 1e-6, 1e15, -0.000001, 1e22}) {
    if (!M->next()) continue;
    M->begin("double %.17g", v); seen(mc::fmt("dbl%g", v)); M->step();
    TiXmlElement e("e"); e.SetDoubleAttribute("a", v); double d = -1; M->check(e.QueryDoubleAttribute("a", &d) == TIXML_SUCCESS && fabs(d - v) <= 1e-6 * 0.5 + 1e-9 * fabs(v) * 0, "double attribute %.17g comes back as %.17g", v, d);
    e.FirstAttribute()->SetDoubleValue(v / 2); M->check(e.FirstAttribute()->QueryDoubleValue(&d) == TIXML_SUCCESS && fabs(d - v / 2) <= 0.5e-6 + 1e-15, "SetDoubleValue");
    e.FirstAttribute()->SetIntValue(-2147483647 - 1); int i; M->check(e.QueryIntAttribute("a", &i) == TIXML_SUCCESS && i == -2147483647 - 1, "SetIntValue");
  }
}

// ---- all token strings: no memory error, and errors are reported -----------------------------------------
struct Ref {   // strict reference reader: 1 well formed, 0 certainly not, -1 not decided here
  const string& s; size_t p = 0; bool utf8, keep; N doc{DOC};
  Ref(const string& t, bool u, bool k) : s(t), utf8(u), keep(k) { doc.ud = 0; }
  bool has(const char* t) { return s.compare(p, strlen(t), t) == 0; }
  void skip() { while (p < s.size() && ws(s[p])) p++; }
  string name() { size_t b = p; if (p < s.size() && (isalpha((unsigned char)s[p]) || s[p] == '_')) while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_' || s[p] == '-' || s[p] == '.' || s[p] == ':')) p++; return s.substr(b, p - b); }
  int item(vector<N>& out, bool top) {
    if (has("<?xml")) return s.find('>', p) == string::npos ? 0 : -1;
    if (has("<!--")) { size_t e = s.find("-->", p + 4); if (e == string::npos) { p = s.size(); return top ? -1 : 0; } N n(COMM, s.substr(p + 4, e - p - 4)); p = e + 3; out.push_back(n); return 1; }
    if (has("<![CDATA[")) { if (top) return -1; size_t e = s.find("]]>", p + 9); if (e == string::npos) { p = s.size(); return 0; } out.push_back(CD(s.substr(p + 9, e - p - 9))); p = e + 3; return 1; }
    if (has("<!") || has("<?")) { size_t e = s.find('>', p); if (e == string::npos) { p = s.size(); return top ? -1 : 0; } out.push_back(N(UNK, s.substr(p + 1, e - p - 1))); p = e + 1; return 1; }
    return elem(out);
  }
  int elem(vector<N>& out) {
    p++; N e = E(name()); if (e.v.empty()) return -1;
    for (;;) {
      size_t b = p; skip();
      if (p >= s.size()) return 0;
      if (has("/>")) { p += 2; out.push_back(e); return 1; }
      if (s[p] == '/') return 0;
      if (s[p] == '>') { p++; break; }
      if (p == b) return -1;
      string n = name(); if (n.empty()) return 0;
      if (p >= s.size()) return 0;
      skip(); if (p >= s.size() || s[p] != '=') return 0;
      p++; skip(); if (p >= s.size()) return 0;
      if (s[p] != '"' && s[p] != '\'') return -1;
      size_t q = s.find(s[p], p + 1); if (q == string::npos) return 0;
      string v; if (!decode(s.substr(p + 1, q - p - 1), utf8, v)) return -1;
      if (s.substr(p + 1, q - p - 1).find('<') != string::npos) return -1;
      for (auto& a : e.at) if (a.first == n) return 0;
      e.at.push_back({n, v}); p = q + 1;
    }
    for (;;) {
      size_t b = p; size_t q = s.find('<', p); string run = s.substr(b, q == string::npos ? string::npos : q - b), v;
      if (!decode(keep ? run : condense(run), utf8, v)) return -1;
      if (q == string::npos) return 0;
      if (!blank(run) && !blank(v)) e.ch.push_back(T(v));
      p = q;
      if (has("</")) { string end = "</" + e.v + ">"; if (s.compare(p, end.size(), end) == 0) { p += end.size(); out.push_back(e); return 1; } 
        p += 2; string n = name(); skip(); if (n == e.v && p < s.size() && s[p] == '>') return -1; return 0; }
      int r = item(e.ch, false); if (r != 1) return r;
    }
  }
  int run() {
    bool any = false;
    for (;;) { skip(); if (p >= s.size()) return any ? 1 : 0; if (s[p] != '<') return -1; int r = item(doc.ch, true); if (r != 1) return r; any = true; }
  }
};
static void part_malformed() {
  M->part = "strings";
  static const vector<string> TK = {"<a", "<b", ">", "/>", "</a>", "</b>", " x=\"1\"", " y='&lt;'", " x", "=", "t", "&amp;", "&", "&#x4", ";", "<!--", "-->", "<![CDATA[", "]]>", "<?xml", "?>", " ", "\n", "\xEF", "\xC3", "<!D", "\"", "<a>", "\xEF\xBB\xBF", " version=", " encoding=\"", "</"};
  int D = M->thorough() ? 5 : 4;
  vector<string> PRE = {"", "<a>", "<a x=\"1\""};
  uint64_t well = 0, bad = 0, open = 0;
  vector<int> q;
  function<void()> rec = [&] {
    if (M->next()) for (auto& pre : PRE) {
      if ((int)q.size() == D && pre.size() > (M->thorough() ? 0u : 3u)) continue;
      string s = pre; for (int t : q) s += TK[t];
      M->begin("%s", s.c_str()); seen(s);
      for (int mode = 0; mode < 6; mode++) {
        bool keep = mode & 1; TiXmlEncoding enc = mode / 2 == 0 ? TIXML_ENCODING_UNKNOWN : mode / 2 == 1 ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_LEGACY;
        if ((int)q.size() == D && mode > 2) continue;
        TiXmlBase::SetCondenseWhiteSpace(!keep);
        char* b = new char[s.size() + 1]; memcpy(b, s.c_str(), s.size() + 1);
        TiXmlDocument d; d.Parse(b, 0, enc); delete[] b;
        M->step();
        bool utf8 = enc == TIXML_ENCODING_UTF8 || (enc == TIXML_ENCODING_UNKNOWN && s.compare(0, 3, "\xEF\xBB\xBF") == 0);
        if (s.find('\xEF') == string::npos && s.find('\xC3') == string::npos) {
          Ref r(s, utf8, keep); int v = r.run();
          if (v == 1) { well++; if (M->check(!d.Error(), "a well formed document is refused: %s", d.ErrorDesc())) same(d, r.doc, 0, "well formed"); }
          else if (v == 0) { bad++; M->check(d.Error() && d.ErrorId() > 0 && d.ErrorId() < TiXmlBase::TIXML_ERROR_STRING_COUNT && *d.ErrorDesc(), "a document that is not well formed is not reported"); }
          else open++;
        }
        TiXmlBase::SetCondenseWhiteSpace(true);
        if (mode == 0) {
          for (int nul = 0; nul < 2; nul++) { string t = s; if (nul) t += string("\0</a>", 5); istringstream in(t); TiXmlDocument e; in >> e; M->step(); }
          istringstream in2(s); TiXmlElement el("q"); in2 >> el;
        }
      }
    }
    if ((int)q.size() < D) for (int t = 0; t < (int)TK.size(); t++) { q.push_back(t); rec(); q.pop_back(); }
  };
  rec();
  M->extra["strings_well_formed"] += well; M->extra["strings_not_well_formed"] += bad; M->extra["strings_memory_only"] += open;
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv); M = &m;
  part_parse();
  part_print(); part_large();
  part_dom();
  part_malformed();
  m.finish();
}
