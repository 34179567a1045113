// C13: binary number codecs.  All 2^32 IBM words and all 2^32 IEEE words, all 2^16 shorts, byte lattices of
// the wider types, every stream reader/writer pair in both byte orders, every truncation point, every
// sequence of mixed writes, and BigFile operation sequences against a byte-vector model.
#include "mc.hpp"
#include <fstream>
#include <nrlib/iotools/bigfile.hpp>
#include <nrlib/iotools/fileio.hpp>
#include <sstream>
#include <sys/stat.h>
using namespace std;
using namespace NRLib;
static mc::MC* M;
typedef vector<unsigned char> B;

static uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static float bfloat(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double pow2(int e) { uint64_t u = uint64_t(e + 1023) << 52; double d; memcpy(&d, &u, 8); return d; }
static double ibm_val(uint32_t w) { double v = double(w & 0xffffff) * pow2(4 * (int((w >> 24) & 0x7f) - 64) - 24); return (w >> 31) ? -v : v; }
static uint32_t be(const char* b) { return uint32_t((unsigned char)b[0]) << 24 | uint32_t((unsigned char)b[1]) << 16 | uint32_t((unsigned char)b[2]) << 8 | (unsigned char)b[3]; }
static uint32_t le(const char* b) { return uint32_t((unsigned char)b[3]) << 24 | uint32_t((unsigned char)b[2]) << 16 | uint32_t((unsigned char)b[1]) << 8 | (unsigned char)b[0]; }

// what an IBM word may be read as
static bool ibm_ok(uint32_t w, uint32_t got) {
  if ((w & 0x7fffffff) == 0) return (got & 0x7fffffff) == 0;
  if ((w & 0x00f00000) == 0) return true;                       // not normalised: unspecified
  double v = ibm_val(w), a = std::fabs(v);
  float g = bfloat(got);
  if (a >= pow2(128)) return !std::isfinite(g);
  if (a >= pow2(-126)) return double(g) == v;
  return std::isfinite(g) && std::fabs(double(g) - v) <= pow2(-126);
}
// what a float may be written as
static bool ieee_ok(uint32_t u, uint32_t w) {
  float f = bfloat(u);
  if (!std::isfinite(f)) return true;                           // no IBM representation
  if (f == 0) return (w & 0x7fffffff) == 0;
  double v = ibm_val(w), e = double(f);
  if (std::fabs(e) < pow2(-126)) return std::fabs(v - e) <= pow2(-126);
  return (w & 0x00f00000) != 0 && (v < 0) == (e < 0) && std::fabs(v) <= std::fabs(e) && std::fabs(e) - std::fabs(v) < std::fabs(e) * pow2(-20);
}

static void ibm_all() {
  M->part = "ibm";
  const int CH = 1024;                                          // 4 Mi words per case
  for (int c = 0; c < CH; c++) {
    if (!M->next()) continue;
    M->begin("IBM and IEEE words 0x%08x ..", unsigned(uint32_t(c) << 22));
    uint32_t lo = uint32_t(c) << 22;
    for (uint32_t i = 0; i < (1u << 22); i++) {
      uint32_t w = lo + i;
      uint32_t g = w;
      NRLibPrivate::Ibm2Ieee(g);
      if (!ibm_ok(w, g)) { M->fail(mc::fmt("IBM word 0x%08x (%.9g) is read as 0x%08x (%.9g)", w, ibm_val(w), g, bfloat(g))); break; }
      if (std::isfinite(bfloat(g)) && (w & 0xf00000) && std::fabs(ibm_val(w)) >= pow2(-126)) {
        uint32_t b = g;
        NRLibPrivate::Ieee2Ibm(b);
        if (b != w) { M->fail(mc::fmt("IBM word 0x%08x is read as %.9g and written back as 0x%08x", w, bfloat(g), b)); break; }
      }
      uint32_t o = w;
      NRLibPrivate::Ieee2Ibm(o);
      if (!ieee_ok(w, o)) { M->fail(mc::fmt("float %.9g (0x%08x) is written as IBM word 0x%08x (%.9g)", bfloat(w), w, o, ibm_val(o))); break; }
    }
    M->states += 1u << 22;
    M->step(3ull << 22);
  }
}

// word lattice: every byte of the word takes each of these values
static vector<uint32_t> words(bool all) {
  vector<unsigned> b = all ? vector<unsigned>{0, 1, 0x0f, 0x10, 0x3f, 0x40, 0x41, 0x55, 0x7f, 0x80, 0x81, 0xaa, 0xc1, 0xfe, 0xff} : vector<unsigned>{0, 1, 0x42, 0x7f, 0x80, 0xff};
  vector<uint32_t> w;
  for (unsigned p : b) for (unsigned q : b) for (unsigned r : b) for (unsigned s : b) w.push_back(p << 24 | q << 16 | r << 8 | s);
  for (int i = 0; i < 32; i++) { w.push_back(1u << i); w.push_back(~(1u << i)); }
  return w;
}

static void buffers() {
  M->part = "buffers";
  for (int hi = 0; hi < 256; hi++) {
    if (!M->next()) continue;
    M->begin("16-bit words 0x%02x00 ..", hi);
    for (int l = 0; l < 256; l++) {
      unsigned short us = (unsigned short)(hi << 8 | l);
      char b[2], c[2], d[2];
      WriteUInt16BE(b, us); NRLibPrivate::WriteUInt16LE(c, us); WriteInt16BE(d, short(us));
      unsigned short x, y; short z;
      ParseUInt16BE(b, x); NRLibPrivate::ParseUInt16LE(c, y); ParseInt16BE(d, z);
      M->states++; M->step(6);
      if (!M->check((unsigned char)b[0] == hi && (unsigned char)b[1] == l && (unsigned char)c[1] == hi && (unsigned char)c[0] == l && (unsigned char)d[0] == hi && (unsigned char)d[1] == l, "bytes of 0x%04x", us)) break;
      if (!M->check(x == us && y == us && z == short(us), "parsed 0x%04x as 0x%04x, 0x%04x, %d", us, x, y, z)) break;
    }
  }
  vector<uint32_t> ws = words(true);
  for (size_t k = 0; k < ws.size(); k += 512) {
    if (!M->next()) continue;
    M->begin("32-bit words %zu ..", k);
    for (size_t q = k; q < min(ws.size(), k + 512); q++) {
      uint32_t w = ws[q];
      char b[4], c[4], d[4], e[4], f[4], h[4], i[4];
      WriteUInt32BE(b, w); NRLibPrivate::WriteUInt32LE(c, w); WriteInt32BE(d, int(w));
      NRLibPrivate::WriteIEEEFloatBE(e, bfloat(w)); NRLibPrivate::WriteIEEEFloatLE(f, bfloat(w));
      NRLibPrivate::WriteIBMFloatBE(h, bfloat(w)); NRLibPrivate::WriteIBMFloatLE(i, bfloat(w));
      M->states++; M->step(14);
      bool nan = std::isnan(bfloat(w));
      if (!M->check(be(b) == w && le(c) == w && be(d) == w && (nan || (be(e) == w && le(f) == w)) && be(h) == le(i) && ieee_ok(w, be(h)), "bytes written for 0x%08x", w)) break;
      unsigned x, y; int z; float p, r, s, t;
      char bb[4] = {char(w >> 24), char(w >> 16), char(w >> 8), char(w)}, ll[4] = {char(w), char(w >> 8), char(w >> 16), char(w >> 24)};
      ParseUInt32BE(bb, x); NRLibPrivate::ParseUInt32LE(ll, y); ParseInt32BE(bb, z); ParseIEEEFloatBE(bb, p); NRLibPrivate::ParseIEEEFloatLE(ll, r);
      ParseIBMFloatBE(bb, s); NRLibPrivate::ParseIBMFloatLE(ll, t);
      if (!M->check(x == w && y == w && uint32_t(z) == w && (nan || (fbits(p) == w && fbits(r) == w)) && ibm_ok(w, fbits(s)) && ibm_ok(w, fbits(t)), "0x%08x parsed as 0x%08x 0x%08x 0x%08x %g %g %g %g", w, x, y, unsigned(z), p, r, s, t)) break;
    }
  }
  vector<uint32_t> wl = words(false);
  for (size_t k = 0; k < wl.size(); k += 8) {
    if (!M->next()) continue;
    M->begin("64-bit words, high half from %zu", k);
    for (size_t q = k; q < min(wl.size(), k + 8); q++) for (uint32_t lo : wl) {
      uint64_t w = uint64_t(wl[q]) << 32 | lo;
      double d; memcpy(&d, &w, 8);
      if (std::isnan(d)) continue;
      char b[8], c[8];
      NRLibPrivate::WriteIEEEDoubleBE(b, d); NRLibPrivate::WriteIEEEDoubleLE(c, d);
      double x, y; NRLibPrivate::ParseIEEEDoubleBE(b, x); NRLibPrivate::ParseIEEEDoubleLE(c, y);
      M->states++; M->step(4);
      if (!M->check((uint64_t(be(b)) << 32 | be(b + 4)) == w && (uint64_t(le(c + 4)) << 32 | le(c)) == w && mc::dbits(x) == w && mc::dbits(y) == w, "double 0x%016llx", (unsigned long long)w)) break;
    }
  }
}

// ---- streams: kinds 0 short 1 int 2 float 3 double 4 ibm float, 5 float array into double --------------------
static const char* KN[] = {"short", "int", "float", "double", "ibm", "float->double"};
static const int SZ[] = {2, 4, 4, 8, 4, 4};
static uint64_t word_of(int kind, size_t i) {
  static const uint32_t w[] = {0x40490fdb, 0x00000000, 0xc2f6e979, 0x3f800000, 0x7f7fffff, 0x00800000, 0xbf99999a, 0x4b7fffff, 0x12345678, 0x80000000, 0x447a0000, 0x358637bd};
  uint32_t x = w[i % 12];
  if (kind == 0) return (x >> 11) & 0xffff;
  if (kind == 3) return uint64_t(x) << 32 | w[(i * 5 + 3) % 12];
  if (kind == 4 && (x == 0x00800000)) return 0x41100000;        // keep IBM cases inside the exactly specified range
  return x;
}
static void put(B& o, uint64_t w, int n, bool big) { for (int i = 0; i < n; i++) o.push_back((unsigned char)(w >> 8 * (big ? n - 1 - i : i))); }
static Endianess en(bool big) { return big ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; }

template <class F> static void wr(F& s, int kind, size_t from, size_t n, bool array, bool big, bool deflt) {
  if (!array) {
    for (size_t i = 0; i < n; i++) {
      uint64_t w = word_of(kind, from + i);
      double d; memcpy(&d, &w, 8);
      if (deflt) switch (kind) {
        case 0: WriteBinaryShort(s, short(w)); break;
        case 1: WriteBinaryInt(s, int(w)); break;
        case 2: case 5: WriteBinaryFloat(s, bfloat(uint32_t(w))); break;
        case 3: WriteBinaryDouble(s, d); break;
        case 4: WriteBinaryIbmFloat(s, bfloat(uint32_t(w))); break;
      } else switch (kind) {
        case 0: WriteBinaryShort(s, short(w), en(big)); break;
        case 1: WriteBinaryInt(s, int(w), en(big)); break;
        case 2: case 5: WriteBinaryFloat(s, bfloat(uint32_t(w)), en(big)); break;
        case 3: WriteBinaryDouble(s, d, en(big)); break;
        case 4: WriteBinaryIbmFloat(s, bfloat(uint32_t(w)), en(big)); break;
      }
    }
    return;
  }
  vector<short> vs; vector<int> vi; vector<float> vf; vector<double> vd;
  for (size_t i = 0; i < n; i++) {
    uint64_t w = word_of(kind, from + i);
    double d; memcpy(&d, &w, 8);
    vs.push_back(short(w)); vi.push_back(int(w)); vf.push_back(bfloat(uint32_t(w))); vd.push_back(d);
  }
  if (deflt) switch (kind) {
    case 0: WriteBinaryShortArray(s, vs.begin(), vs.end()); break;
    case 1: WriteBinaryIntArray(s, vi.begin(), vi.end()); break;
    case 2: case 5: WriteBinaryFloatArray(s, vf.begin(), vf.end()); break;
    case 3: WriteBinaryDoubleArray(s, vd.begin(), vd.end()); break;
    case 4: WriteBinaryIbmFloatArray(s, vf.begin(), vf.end()); break;
  } else switch (kind) {
    case 0: WriteBinaryShortArray(s, vs.begin(), vs.end(), en(big)); break;
    case 1: WriteBinaryIntArray(s, vi.begin(), vi.end(), en(big)); break;
    case 2: case 5: WriteBinaryFloatArray(s, vf.begin(), vf.end(), en(big)); break;
    case 3: WriteBinaryDoubleArray(s, vd.begin(), vd.end(), en(big)); break;
    case 4: WriteBinaryIbmFloatArray(s, vf.begin(), vf.end(), en(big)); break;
  }
}
// reads and compares; expected words as IEEE (or integer) bit patterns
template <class F> static bool rd(F& s, int kind, size_t from, size_t n, bool array, bool big, bool deflt) {
  vector<uint64_t> got;
  if (!array) {
    for (size_t i = 0; i < n; i++) {
      if (deflt) switch (kind) {
        case 0: got.push_back((unsigned short)ReadBinaryShort(s)); break;
        case 1: got.push_back((unsigned)ReadBinaryInt(s)); break;
        case 2: case 5: got.push_back(fbits(ReadBinaryFloat(s))); break;
        case 3: got.push_back(mc::dbits(ReadBinaryDouble(s))); break;
        case 4: got.push_back(fbits(ReadBinaryIbmFloat(s))); break;
      } else switch (kind) {
        case 0: got.push_back((unsigned short)ReadBinaryShort(s, en(big))); break;
        case 1: got.push_back((unsigned)ReadBinaryInt(s, en(big))); break;
        case 2: case 5: got.push_back(fbits(ReadBinaryFloat(s, en(big)))); break;
        case 3: got.push_back(mc::dbits(ReadBinaryDouble(s, en(big)))); break;
        case 4: got.push_back(fbits(ReadBinaryIbmFloat(s, en(big)))); break;
      }
    }
  } else {
    vector<short> vs(n + 2, 77); vector<int> vi(n + 2, 77); vector<float> vf(n + 2, 77.f); vector<double> vd(n + 2, 77.0);
    if (deflt) switch (kind) {
      case 0: ReadBinaryShortArray(s, vs.begin(), n); break;
      case 1: ReadBinaryIntArray(s, vi.begin(), n); break;
      case 2: ReadBinaryFloatArray(s, vf.begin(), n); break;
      case 3: ReadBinaryDoubleArray(s, vd.begin(), n); break;
      case 4: ReadBinaryIbmFloatArray(s, vf.begin(), n); break;
      case 5: ReadBinaryFloatArray(s, vd.begin(), n); break;
    } else switch (kind) {
      case 0: ReadBinaryShortArray(s, vs.begin(), n, en(big)); break;
      case 1: ReadBinaryIntArray(s, vi.begin(), n, en(big)); break;
      case 2: ReadBinaryFloatArray(s, vf.begin(), n, en(big)); break;
      case 3: ReadBinaryDoubleArray(s, vd.begin(), n, en(big)); break;
      case 4: ReadBinaryIbmFloatArray(s, vf.begin(), n, en(big)); break;
      case 5: ReadBinaryFloatArray(s, vd.begin(), n, en(big)); break;
    }
    bool tail = vs[n] == 77 && vs[n + 1] == 77 && vi[n] == 77 && vi[n + 1] == 77 && vf[n] == 77.f && vf[n + 1] == 77.f && vd[n] == 77.0 && vd[n + 1] == 77.0;
    if (!M->check(tail, "reading %zu elements wrote beyond the %zu-th", n, n)) return false;
    for (size_t i = 0; i < n; i++) got.push_back(kind == 0 ? (unsigned short)vs[i] : kind == 1 ? (unsigned)vi[i] : kind == 3 ? mc::dbits(vd[i]) : kind == 5 ? (double(float(vd[i])) == vd[i] ? fbits(float(vd[i])) : 0xffffffffu) : fbits(vf[i]));
  }
  for (size_t i = 0; i < n; i++) {
    uint64_t e = word_of(kind, from + i);
    bool ok = got[i] == e;
    if (kind == 4) {                                            // through IBM: truncated to 21+ bits
      double a = bfloat(uint32_t(e)), b = bfloat(uint32_t(got[i]));
      ok = a == 0 ? b == 0 : std::fabs(a - b) < std::fabs(a) * pow2(-20) && std::fabs(b) <= std::fabs(a);
    }
    if (!M->check(ok, "element %zu written as 0x%llx is read as 0x%llx", i, (unsigned long long)e, (unsigned long long)got[i])) return false;
  }
  return true;
}

static void streams() {
  M->part = "streams";
  vector<size_t> ns = {1, 2, 3, 4, 7, 13, 64};
  ns.push_back(1000); ns.push_back(40000); if (M->thorough()) ns.push_back(300000);
  for (int kind = 0; kind < 6; kind++) for (size_t n : ns) for (int big = 0; big < 3; big++) for (int wa = 0; wa < 2; wa++) for (int ra = 0; ra < 2; ra++) for (int bigfile = 0; bigfile < 3; bigfile++) {
    if (!M->next()) continue;
    if (kind == 5 && !ra) continue;
    bool b = big != 0, df = big == 2;
    M->begin("%zu x %s, %s endian%s, %s written, %s read, %s", n, KN[kind], b ? "big" : "little", df ? " (default)" : "", wa ? "array" : "scalars", ra ? "array" : "scalars", bigfile == 1 ? "BigFile" : bigfile == 2 ? "fstream" : "stringstream");
    B want;
    for (size_t i = 0; i < n; i++) if (kind != 4) put(want, word_of(kind, i), SZ[kind], b);
    string data;
    string fn = M->scratch + "/s.bin";
    M->state(); M->step(2);
    try {
      if (bigfile == 1) {
        { BigFile f; f.OpenWrite(fn); wr(f, kind, 0, n, wa, b, df); }
        ifstream in(fn, ios::binary); stringstream ss; ss << in.rdbuf(); data = ss.str();
        BigFile f; f.OpenRead(fn);
        if (!rd(f, kind, 0, n, ra, b, df)) continue;
      } else if (bigfile == 2) {
        { ofstream f; OpenWrite(f, fn, ios::out | ios::binary); wr(f, kind, 0, n, wa, b, df); }
        ifstream in(fn, ios::binary); stringstream ss; ss << in.rdbuf(); data = ss.str();
        ifstream f; OpenRead(f, fn, ios::in | ios::binary);
        if (!rd(f, kind, 0, n, ra, b, df)) continue;
      } else {
        ostringstream os; wr(os, kind, 0, n, wa, b, df); data = os.str();
        istringstream is(data);
        if (!rd(is, kind, 0, n, ra, b, df)) continue;
      }
    } catch (std::exception& e) { M->fail(string("raised ") + e.what()); continue; }
    M->check(data.size() == n * SZ[kind], "%zu bytes for %zu elements of %d", data.size(), n, SZ[kind]);
    if (kind != 4) M->check(data == string(want.begin(), want.end()), "the bytes are not the values in that byte order");
    else for (size_t i = 0; i < n; i++) M->check(ieee_ok(uint32_t(word_of(4, i)), b ? be(&data[4 * i]) : le(&data[4 * i])), "IBM bytes of element %zu", i);
    if (bigfile == 1 && n <= 13) for (size_t cut = 0; cut < data.size(); cut++) {
      string fn = M->scratch + "/cut"; { ofstream o(fn, ios::binary); o << data.substr(0, cut); }
      BigFile f; f.OpenRead(fn); int what = 0;
      M->step();
      try { if (!rd(f, kind, 0, n, ra, b, df)) break; } catch (EndOfFile&) { what = 2; } catch (Exception&) { what = 1; }
      if (!M->check(what == 2 || (ra && what == 1), "%zu of %zu bytes with BigFile: %s", cut, data.size(), what == 0 ? "no error" : "not EndOfFile")) break;
    }
    if (bigfile || n > 13) continue;
    // every truncation
    for (size_t cut = 0; cut < data.size(); cut++) {
      istringstream is(data.substr(0, cut));
      int what = 0;
      M->step();
      try { if (!rd(is, kind, 0, n, ra, b, df)) break; } catch (EndOfFile&) { what = 2; } catch (Exception&) { what = 1; }
      if (!M->check(what == 2 || (ra && what == 1), "%zu of %zu bytes: %s", cut, data.size(), what == 0 ? "no error" : "not EndOfFile")) break;
    }
    // writing to a stream that cannot take it
    { ostringstream os; os.setstate(ios::badbit); int what = 0; M->step();
      try { wr(os, kind, 0, n, wa, b, df); } catch (Exception&) { what = 1; }
      M->check(what == 1, "writing to a failed stream raised nothing"); }
  }
  // mixed sequences: the position after each item is the next byte
  M->part = "mixed";
  int depth = M->thorough() ? 5 : 3;
  const int OPS = 5 * 2 * 2;
  for (int d = 1; d <= depth; d++) {
    if (d == 5) { // restrict to one byte order at depth 5
      mc::sequences(10, d, [&](const vector<int>& s) {
        if (!M->next()) return;
        string t; for (int o : s) t += mc::fmt(" %s%s", KN[o % 5], o / 5 ? "[3]" : "");
        M->begin("big endian:%s", t.c_str());
        ostringstream os; B want; size_t k = 0;
        for (int o : s) { size_t n = o / 5 ? 3 : 1; wr(os, o % 5, k, n, o / 5, true, false); k += n; }
        istringstream is(os.str()); k = 0; M->state(); M->step(2 * d);
        for (int o : s) { size_t n = o / 5 ? 3 : 1; if (!rd(is, o % 5, k, n, o / 5, true, false)) return; k += n; }
        M->check(is.peek() == EOF, "bytes left over");
      });
      continue;
    }
    mc::sequences(OPS, d, [&](const vector<int>& s) {
      if (!M->next()) return;
      string t; for (int o : s) t += mc::fmt(" %s%s%s", KN[o % 5], o / 10 ? "[3]" : "", o / 5 % 2 ? "/BE" : "/LE");
      M->begins(t);
      ostringstream os; size_t k = 0, len = 0;
      for (int o : s) { size_t n = o / 10 ? 3 : 1; wr(os, o % 5, k, n, o / 10, o / 5 % 2, false); k += n; len += n * SZ[o % 5]; M->check(os.str().size() == len, "length"); }
      istringstream is(os.str()); k = 0; M->state(); M->step(2 * d);
      for (int o : s) { size_t n = o / 10 ? 3 : 1; if (!rd(is, o % 5, k, n, !(o / 10), o / 5 % 2, false)) return; k += n; }   // read the other way
      M->check(is.peek() == EOF, "bytes left over");
    });
  }
}

// ---- BigFile against a byte vector ----------------------------------------------------------------
static void bigfile() {
  M->part = "bigfile";
  string fn = M->scratch + "/big.bin";
  // a reading session: every sequence of operations on a 300000-byte file (larger than the buffer)
  const size_t N = 300000;
  B model(N);
  for (size_t i = 0; i < N; i++) model[i] = (unsigned char)((i * 2654435761u) >> 13);
  { ofstream f(fn, ios::binary); f.write((const char*)&model[0], N); }
  struct Op { int k; long long a; int o; const char* n; };
  vector<Op> ops = {{0, 1, 0, "read 1"}, {0, 1000, 0, "read 1000"}, {0, 140000, 0, "read 140000"}, {0, 400000, 0, "read 400000"}, {0, 0, 0, "read 0"},
                    {1, 0, SEEK_SET, "seek start"}, {1, 131072, SEEK_SET, "seek 131072"}, {1, -1, SEEK_END, "seek end-1"}, {1, 0, SEEK_END, "seek end"},
                    {1, 10, SEEK_CUR, "seek +10"}, {1, -70, SEEK_CUR, "seek -70"}, {2, 0, 0, "clear"}};
  int depth = M->thorough() ? 5 : 4;
  vector<char> buf(400010);
  for (int d = 1; d <= depth; d++) mc::sequences(int(ops.size()), d, [&](const vector<int>& s) {
    if (!M->next()) return;
    string t; for (int o : s) t += string(", ") + ops[o].n;
    M->begin("OpenRead%s", t.c_str());
    BigFile f;
    try { f.OpenRead(fn); } catch (std::exception& e) { M->fail(e.what()); return; }
    long long pos = 0; bool eof = false;
    for (int o : s) {
      M->step();
      const Op& op = ops[o];
      if (op.k == 0) {
        size_t got = f.read(&buf[0], size_t(op.a));
        size_t want = pos >= (long long)N ? 0 : size_t(min<long long>(op.a, N - pos));
        if (want < size_t(op.a)) eof = true;
        if (!M->check(got == want && memcmp(&buf[0], want ? &model[size_t(pos)] : &model[0], want) == 0, "after%s: read returned %zu bytes (expected %zu) or wrong bytes", op.n, got, want)) return;
        pos += want;
      } else if (op.k == 1) {
        long long np = (op.o == SEEK_SET ? 0 : op.o == SEEK_END ? (long long)N : pos) + op.a;
        int r = f.seek(op.a, op.o);
        if (np >= 0) { pos = np; eof = false; }
        if (!M->check((r == 0) == (np >= 0), "%s returned %d", op.n, r)) return;
      } else { f.clear(); eof = false; }
      if (!M->check(f.tell() == pos && f.eof() == eof && f.good() == !eof && !f.bad(), "after %s: tell %lld (expected %lld), eof %d (expected %d), good %d", op.n, f.tell(), pos, f.eof(), eof, f.good())) return;
    }
    M->state(mc::hmix(uint64_t(pos), eof));
    M->check(f.FileSize() == (long long)N && f.GetFileName() == fn, "FileSize / GetFileName");
    f.close();
    M->check(!f.good(), "good after close");
  });
  // writing sessions: sizes round the chunk limit, seeks back, re-opening
  struct W { int k; long long a; const char* n; };
  vector<W> wops = {{0, 1, "write 1"}, {0, 1048575, "write 1048575"}, {0, 1048576, "write 1048576"}, {0, 2097153, "write 2097153"}, {0, 0, "write 0"},
                    {1, 0, "seek start"}, {1, 5, "seek 5"}, {2, 0, "seek end"}, {3, 0, "reopen"}};
  vector<char> src(2097153 + 256);
  for (size_t i = 0; i < src.size(); i++) src[i] = char((i * 40503u) >> 7);
  string wn = M->scratch + "/w.bin";
  int wd = M->thorough() ? 4 : 3;
  for (int d = 1; d <= wd; d++) mc::sequences(int(wops.size()), d, [&](const vector<int>& s) {
    if (!M->next()) return;
    string t; for (int o : s) t += string(", ") + wops[o].n;
    M->begin("OpenWrite%s", t.c_str());
    B m; size_t pos = 0; int tag = 0;
    try {
      BigFile f; f.OpenWrite(wn);
      for (int o : s) {
        M->step();
        const W& w = wops[o];
        if (w.k == 0) {
          const char* p = &src[(tag++ * 37) % 256];
          size_t r = f.write(p, size_t(w.a));
          if (!M->check(r == size_t(w.a), "%s returned %zu", w.n, r)) return;
          if (w.a) { if (m.size() < pos + w.a) m.resize(pos + size_t(w.a), 0); memcpy(&m[pos], p, size_t(w.a)); pos += size_t(w.a); }
        } else if (w.k == 1) { if (f.seek(w.a, SEEK_SET)) { M->fail("seek failed"); return; } pos = size_t(w.a); }
        else if (w.k == 2) { if (f.seek(0, SEEK_END)) { M->fail("seek failed"); return; } pos = m.size(); }
        else { f.OpenWrite(wn); m.clear(); pos = 0; }
        if (!M->check(f.tell() == (long long)pos && f.good(), "tell %lld (expected %zu) after %s", f.tell(), pos, w.n)) return;
      }
    } catch (std::exception& e) { M->fail(e.what()); return; }
    ifstream in(wn, ios::binary); stringstream ss; ss << in.rdbuf(); string data = ss.str();
    M->state(mc::hmix(m.size(), pos));
    M->check(data.size() == m.size() && (m.empty() || memcmp(data.data(), &m[0], m.size()) == 0), "the file has %zu bytes (expected %zu) or other contents", data.size(), m.size());
  });
  // failures to open
  M->part = "open";
  string base = M->scratch + "/o";
  mkdir(base.c_str(), 0755);
  auto ex = [](function<void()> g) { try { g(); } catch (IOError&) { return 1; } catch (std::exception&) { return 2; } return 0; };
  if (M->next()) {
    M->begin("opening files that do not exist, directories, and files in missing directories");
    M->state(); M->step(10);
    BigFile f;
    M->check(ex([&] { f.OpenRead(base + "/none"); }) == 1, "BigFile::OpenRead of a missing file");
    M->check(!f.good(), "good after a failed open");
    M->check(ex([&] { f.OpenRead(base); }) == 1, "BigFile::OpenRead of a directory");
    M->check(ex([&] { f.OpenWrite(base); }) == 1, "BigFile::OpenWrite of a directory");
    M->check(ex([&] { f.OpenWrite(base + "/a/b/c", true, false); }) == 1 && !FileExists(base + "/a"), "BigFile::OpenWrite in a missing directory");
    M->check(ex([&] { f.OpenWrite(base + "/a/b/c"); f.write("xyz", 3); f.close(); }) == 0 && FindFileSize(base + "/a/b/c") == 3, "BigFile::OpenWrite creating directories");
    M->check(ex([&] { f.OpenRead(base + "/a/b/c"); }) == 0 && f.good(), "BigFile::OpenRead");
    M->check(ex([&] { f.OpenRead(base + "/none"); }) == 1 && !f.good(), "BigFile::OpenRead of a missing file after a good one");
    M->check(ex([&] { f.OpenWrite(base + "/a/b/c/d"); }) == 1, "BigFile::OpenWrite below a file");
    M->check(FindFileSize(base + "/a/b/c") == 3, "the file changed");
    BigFile g; M->check(!g.good(), "good before open"); g.clear(); g.close();
  }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  M = &m;
  buffers();
  streams();
  bigfile();
  if (!getenv("MC_SKIP_WORDS")) ibm_all();
  m.finish();
}
