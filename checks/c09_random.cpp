// C09: random number generators.  Every interleaving of operations on the process-wide generator and two
// RandomGenerator objects, compared draw by draw with an independent dSFMT-19937 model; seed files.
#include "mc.hpp"
#include "vref.hpp"
#include <nrlib/exception/exception.hpp>
#include <nrlib/random/random.hpp>
#include <nrlib/random/randomgenerator.hpp>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace NRLib;

static double obs_impl(int who, int kind, RandomGenerator* r) {
  if (who == 2) switch (kind) { case 0: return Random::Unif01(); case 1: return Random::Unif01Open(); case 2: return double(Random::DrawUint32()); default: return Random::Norm01(); }
  switch (kind) { case 0: return r[who].Unif01(); case 1: return r[who].Unif01Open(); case 2: return double(r[who].DrawUint32()); default: return r[who].Norm01(); }
}
static double obs_model(vref::Rng& g, int kind) {
  switch (kind) { case 0: return g.unif(); case 1: return g.unif_open(); case 2: return double(g.u32()); default: return g.norm(); }
}
static const char* KIND[] = {"Unif01", "Unif01Open", "DrawUint32", "Norm01"};
static const char* WHO[] = {"A", "B", "global"};

static bool range_ok(int kind, double v) {
  if (kind == 0) return v >= 0 && v < 1;
  if (kind == 1) return v > 0 && v < 1;
  if (kind == 2) return v >= 0 && v <= 4294967295.0 && v == std::floor(v);
  return std::isfinite(v) && std::fabs(v) < 40;
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  const bool th = m.thorough();
  const unsigned long SEEDS[] = {0, 1, 2, 12345, 2147483647ul, 2147483648ul, 4294967294ul, 4294967295ul};

  m.part = "uninitialised";
  for (int k = 0; k < 2; k++) {
    if (!m.next()) continue;
    m.begin("%s.GetStartSeed() before any initialisation", k ? "A" : "global");
    m.state();
    m.step();
    bool threw = false;
    if (k) { RandomGenerator r; try { r.GetStartSeed(); } catch (Exception&) { threw = true; } }
    else {
      int st = 0;
      pid_t pid = fork();
      if (pid == 0) { try { Random::GetStartSeed(); _exit(0); } catch (Exception&) { _exit(7); } }
      waitpid(pid, &st, 0);
      threw = WIFEXITED(st) && WEXITSTATUS(st) == 7;
    }
    m.check(threw, "did not raise");
  }

  // all operation sequences on {A, B, global}
  m.part = "interleavings";
  {
    // ops: 0-11: who x kind; 12-14: init who with seed 7; 15: init A with 4294967295; 16: B = A; 17: A = B
    const int K = 18, depth = th ? 5 : 4;
    for (int n = 1; n <= depth; n++)
      mc::sequences(K, n, [&](const std::vector<int>& s) {
        if (!m.next()) return;
        bool usesg = false;
        (void)usesg;
        m.begin("A(1) B(2) global(3):");
        RandomGenerator r[2] = {RandomGenerator(1), RandomGenerator(2)};
        Random::Initialize(3ul);
        vref::Rng g[3] = {vref::Rng(1), vref::Rng(2), vref::Rng(3)};
        unsigned long seed[3] = {1, 2, 3};
        for (int op : s) {
          m.step();
          if (op < 12) {
            int who = op / 4, kind = op % 4;
            m.note(" %s.%s", WHO[who], KIND[kind]);
            double a = obs_impl(who, kind, r), b = obs_model(g[who], kind);
            if (!m.check(a == b, "drew %.17g, the stream's next is %.17g", a, b)) return;
          } else if (op < 15) {
            int who = op - 12;
            m.note(" %s.Initialize(7)", WHO[who]);
            if (who == 2) Random::Initialize(7ul); else r[who].Initialize(7ul);
            g[who].seed(7);
            seed[who] = 7;
          } else if (op == 15) {
            m.note(" A.Initialize(4294967295)");
            r[0].Initialize(4294967295ul);
            g[0].seed(4294967295u);
            seed[0] = 4294967295ul;
          } else if (op == 16) { m.note(" B=A"); r[1] = r[0]; g[1] = g[0]; seed[1] = seed[0]; }
          else { m.note(" A=B"); r[0] = r[1]; g[0] = g[1]; seed[0] = seed[1]; }
        }
        for (int w = 0; w < 3; w++) {
          m.check((w == 2 ? Random::GetStartSeed() : r[w].GetStartSeed()) == seed[w], "%s reports another start seed", WHO[w]);
          double a = obs_impl(w, 2, r), b = obs_model(g[w], 2);
          m.check(a == b, "%s is at another position of its stream afterwards", WHO[w]);
        }
        uint64_t h = 0;
        for (auto& x : g) h = mc::hmix(h, x.fingerprint());
        m.state(h);
      });
  }

  // long streams: every pattern of three kinds, repeated across several regenerations of the state block
  m.part = "long-streams";
  for (unsigned long sd : SEEDS)
    mc::sequences(4, 3, [&](const std::vector<int>& s) {
      for (int who = 0; who < 3; who += 2) {
        if (!m.next()) continue;
        m.begin("seed %lu, %s repeats %s %s %s", sd, WHO[who], KIND[s[0]], KIND[s[1]], KIND[s[2]]);
        m.state();
        RandomGenerator r[2] = {RandomGenerator(sd), RandomGenerator(sd)};
        Random::Initialize(sd);
        vref::Rng g(sd);
        for (int k = 0; k < (th ? 30000 : 3000); k++) {
          int kind = s[k % 3];
          double a = obs_impl(who, kind, r), b = obs_model(g, kind);
          m.step();
          if (!m.check(a == b && range_ok(kind, a), "draw %d: %.17g, the stream's is %.17g", k, a, b)) break;
        }
      }
    });
  m.part = "seeds";   // every seed of a window round each word boundary, and of 1..N
  for (unsigned long k = 0; k < (th ? 60000ul : 6000ul); k++)
    for (unsigned long sd : {k, 2147483648ul - (th ? 30000ul : 3000ul) + k, 4294967295ul - k, 4294967296ul + k}) {
      if (!m.next()) continue;
      m.begin("seed %lu", sd);
      m.state();
      RandomGenerator a(sd), b;
      b.Initialize(sd);
      vref::Rng g((uint32_t)sd);
      Random::Initialize(sd);
      for (int q = 0; q < 3; q++) {
        double w = g.norm(), x = a.Norm01(), y = b.Norm01(), z = Random::Norm01();
        m.step(3);
        m.check(w == x && w == y && w == z, "first draws differ from the documented stream: %.17g %.17g %.17g, expected %.17g", x, y, z, w);
      }
      m.check(a.GetStartSeed() == sd && b.GetStartSeed() == sd && Random::GetStartSeed() == sd, "start seed not reported back");
    }
  m.part = "normal-moments";
  for (unsigned long sd : SEEDS) {
    if (!m.next()) continue;
    m.begin("seed %lu: 400000 normals", sd);
    m.state();
    RandomGenerator a(sd);
    double s1 = 0, s2 = 0, s3 = 0, s4 = 0;
    int tail = 0;
    const int N = 400000;
    for (int i = 0; i < N; i++) { double x = a.Norm01(); s1 += x; s2 += x * x; s3 += x * x * x; s4 += x * x * x * x; tail += std::fabs(x) > 3; }
    m.step(N);
    m.check(std::fabs(s1 / N) < 0.01 && std::fabs(s2 / N - 1) < 0.015 && std::fabs(s3 / N) < 0.04 && std::fabs(s4 / N - 3) < 0.12
            && std::fabs(tail / double(N) - 0.0027) < 0.0006, "moments %g %g %g %g tail %g", s1 / N, s2 / N, s3 / N, s4 / N, tail / double(N));
  }
  m.part = "clock";
  for (int k = 0; k < 2; k++) {
    if (!m.next()) continue;
    m.begin("%s.Initialize() from the clock", k ? "A" : "global");
    m.state();
    m.step();
    time_t t0 = time(0);
    RandomGenerator r;
    if (k) r.Initialize(); else Random::Initialize();
    time_t t1 = time(0);
    unsigned long sd = k ? r.GetStartSeed() : Random::GetStartSeed();
    bool ok = false;
    for (time_t t = t0; t <= t1; t++) ok |= vref::Rng(uint32_t(t)).u32() == sd;
    m.check(ok, "start seed %lu is not the one derived from the clock", sd);
    vref::Rng g(sd);
    uint32_t u = k ? r.DrawUint32() : Random::DrawUint32();
    m.check(u == g.u32(), "the stream does not start at the reported seed");
  }

  // seed files: every history of loading, re-seeding, drawing and saving
  m.part = "seed-files";
  {
    const char* TEXT[] = {"123\n", "  4294967295 trailing", "", "abc\n", nullptr /* missing */};
    auto path = [&](int k) { return m.scratch + "/seed" + std::to_string(k); };
    const int K = 9;   // 0-4 Initialize(file k); 5 Initialize(9); 6 draw; 7 WriteSeedToFile; 8 Norm01
    for (int n = 1; n <= (th ? 5 : 4); n++)
      mc::sequences(K, n, [&](const std::vector<int>& s) {
        bool written = false;
        for (size_t q = 0; q < s.size(); q++) {   // a save after re-seeding without a file is unspecified
          if (s[q] == 7) written = true;
        }
        (void)written;
        if (!m.next()) return;
        std::vector<std::string> content(5);
        std::vector<bool> exists(5);
        for (int k = 0; k < 5; k++) {
          unlink(path(k).c_str());
          exists[k] = TEXT[k] != nullptr;
          if (TEXT[k]) { content[k] = TEXT[k]; std::ofstream(path(k)) << TEXT[k]; }
        }
        m.begin("seed files '123', '4294967295 trailing', '', 'abc', missing; Initialize(1)");
        m.state(mc::hmix(n, mc::hstr(std::string(s.begin(), s.end()))));
        Random::Initialize(1ul);
        vref::Rng g(1);
        unsigned long seed = 1;
        int file = -2;   // -2: from the explicit seed at start; what an earlier history left is not judged
        for (int op : s) {
          m.step();
          if (op < 5) {
            m.note(" Initialize(file %d)", op);
            unsigned long want = 0;
            bool good = exists[op] && sscanf(content[op].c_str(), "%lu", &want) == 1;
            bool threw = false;
            try { Random::Initialize(path(op)); } catch (Exception&) { threw = true; }
            m.check(threw == !good, good ? "a valid seed file was refused" : "an unreadable seed file was accepted");
            if (good) { seed = want; g.seed(uint32_t(want)); file = op; }
          } else if (op == 5) { m.note(" Initialize(9)"); Random::Initialize(9ul); seed = 9; g.seed(9); file = -2; }
          else if (op == 6) { m.note(" draw"); m.check(uint32_t(Random::DrawUint32()) == g.u32(), "the stream moved or was re-seeded"); }
          else if (op == 8) { m.note(" Norm01"); m.check(Random::Norm01() == g.norm(), "the stream moved or was re-seeded"); }
          else {
            if (file == -2) return;
            m.note(" WriteSeedToFile");
            bool threw = false;
            try { Random::WriteSeedToFile(); } catch (Exception&) { threw = true; }
            m.check(!threw, "writing the seed file failed");
            content[file] = std::to_string(g.u32()) + "\n";
          }
          m.check(Random::GetStartSeed() == seed, "start seed is %lu, should be %lu", Random::GetStartSeed(), seed);
          for (int k = 0; k < 5; k++) {
            std::ifstream f(path(k));
            std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            m.check(bool(f.good() || exists[k] || t.empty()), "file %d", k);
            unsigned long a = 0, b = 0;
            if (k == file && op == 7) m.check(sscanf(t.c_str(), "%lu", &a) == 1 && sscanf(content[k].c_str(), "%lu", &b) == 1 && a == b, "the saved seed is '%s', the stream's next number is '%s'", t.c_str(), content[k].c_str());
            else m.check(t == content[k] || (sscanf(t.c_str(), "%lu", &a) == 1 && sscanf(content[k].c_str(), "%lu", &b) == 1 && a == b), "file %d changed to '%s'", k, t.c_str());
          }
        }
        m.check(uint32_t(Random::DrawUint32()) == g.u32(), "the stream is at another position afterwards");
      });
  }
  m.finish();
}
