// C06 (C++ class): every history of setters, limits, rotations, clones and rejected calls.
#include "mc.hpp"
#include "variogram/variogram.hpp"
#include "variogram/variogramtypes.hpp"
#include "exception/exception.hpp"
#include <memory>
using namespace NRLib;

struct Model {
  int type; double power, r[3], az, dip, sd;
  double dist(double x, double y, double z) const {
    // principal axes: u1 along azimuth and dip, u2 horizontal and perpendicular, u3 = u1 x u2
    double ca = cos(az), sa = sin(az), cd = cos(dip), sdp = sin(dip);
    double a = (ca * cd * x + sa * cd * y + sdp * z) / r[0];
    double b = (-sa * x + ca * y) / r[1];
    double c = (-ca * sdp * x - sa * sdp * y + cd * z) / r[2];
    return std::sqrt(a * a + b * b + c * c);
  }
  double corr(double x, double y, double z) const {
    double d = dist(x, y, z), s;
    switch (type) {
      case Variogram::CONSTANT: return 1.0;
      case Variogram::EXPONENTIAL: return exp(-3 * d);
      case Variogram::SPHERICAL: return d >= 1 ? 0.0 : 1 - 1.5 * d + 0.5 * d * d * d;
      case Variogram::GAUSSIAN: return exp(-3 * d * d);
      case Variogram::GENERAL_EXPONENTIAL: return exp(-3 * std::pow(d, power));
      case Variogram::MATERN32: s = 4.744 * d; return exp(-s) * (1 + s);
      case Variogram::MATERN52: s = 5.918 * d; return exp(-s) * (1 + s + s * s / 3);
      default: s = 6.877 * d; return exp(-s) * (1 + s + 0.4 * s * s + s * s * s / 15);
    }
  }
};

static const double PR[][3] = {{0, 0, 0}, {0.3, 0, 0}, {0, 0.4, 0}, {0, 0, 0.2}, {0.5, -0.3, 0.7}, {-1.2, 0.8, 0.1}, {2.5, 1.5, -3.0}, {-0.01, -0.02, 0.005}};

static void agree(mc::MC& m, const Variogram& v, const Model& w, const char* who) {
  const double T = 1e-11;
  m.near(v.GetRangeX(), w.r[0], 0, "range x"); m.near(v.GetRangeY(), w.r[1], 0, "range y"); m.near(v.GetRangeZ(), w.r[2], 0, "range z");
  m.near(v.GetAzimuthAngle(), w.az, 1e-14, "azimuth"); m.near(v.GetDipAngle(), w.dip, 1e-14, "dip");
  m.near(v.GetStdDev(), std::fabs(w.sd), 1e-13, "standard deviation");
  double var = w.sd * w.sd;
  for (auto& p : PR) {
    double x = p[0], y = p[1], z = p[2];
    double c3 = w.corr(x, y, z), c2 = w.corr(x, y, 0), c1 = w.corr(x, 0, 0);
    bool ok = m.near(v.GetCorr(x, y, z), c3, T, who) && m.near(v.GetCorr(x, y), c2, T, who) && m.near(v.GetCorr(x), c1, T, who)
      && m.near(v.GetCov(x, y, z), var * c3, T, "covariance 3D") && m.near(v.GetCov(x, y), var * c2, T, "covariance 2D") && m.near(v.GetCov(x), var * c1, T, "covariance 1D")
      && m.near(v.GetVariogram(x, y, z), var * (1 - c3), T, "variogram 3D") && m.near(v.GetVariogram(x, y), var * (1 - c2), T, "variogram 2D") && m.near(v.GetVariogram(x), var * (1 - c1), T, "variogram 1D")
      && m.near(v.GetCorrpoint(1, 2, 3, 1 + x, 2 + y, 3 + z), c3, 1e-9, "point correlation 3D") && m.near(v.GetCorrpoint(1, 2, 1 + x, 2 + y), c2, 1e-9, "point correlation 2D") && m.near(v.GetCorrpoint(1, 1 + x), c1, 1e-9, "point correlation 1D")
      && m.near(v.GetCovpoint(1, 2, 3, 1 + x, 2 + y, 3 + z), var * c3, 1e-9, "point covariance 3D") && m.near(v.GetCovpoint(1, 2, 1 + x, 2 + y), var * c2, 1e-9, "point covariance 2D") && m.near(v.GetCovpoint(1, 1 + x), var * c1, 1e-9, "point covariance 1D");
    if (!ok) return;
    m.step();
  }
}

struct Op { const char* name; std::function<void(Variogram&)> impl; std::function<bool(Model&)> model; };   // model: false = rejected

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  auto setr = [](int k, double v) { return [k, v](Model& w) { if (v <= 0) return false; w.r[k] = v; return true; }; };
  auto limr = [](int k, double v) { return [k, v](Model& w) { if (w.r[k] > v) { if (v <= 0) return false; w.r[k] = v; } return true; }; };
  std::vector<Op> ops = {
    {"SetRangeX(2.5)", [](Variogram& v) { v.SetRangeX(2.5); }, setr(0, 2.5)},
    {"SetRangeY(0.4)", [](Variogram& v) { v.SetRangeY(0.4); }, setr(1, 0.4)},
    {"SetRangeZ(3)", [](Variogram& v) { v.SetRangeZ(3); }, setr(2, 3)},
    {"SetRanges(0.5,2,4)", [](Variogram& v) { v.SetRanges(0.5, 2, 4); }, [](Model& w) { w.r[0] = .5; w.r[1] = 2; w.r[2] = 4; return true; }},
    {"LimitRangeX(0.7)", [](Variogram& v) { v.LimitRangeX(0.7); }, limr(0, 0.7)},
    {"LimitRangeY(0.7)", [](Variogram& v) { v.LimitRangeY(0.7); }, limr(1, 0.7)},
    {"LimitRangeZ(0.7)", [](Variogram& v) { v.LimitRangeZ(0.7); }, limr(2, 0.7)},
    {"SetAngles(0.6,0.3)", [](Variogram& v) { v.SetAngles(0.6, 0.3); }, [](Model& w) { w.az = 0.6; w.dip = 0.3; return true; }},
    {"SetAngles(-2)", [](Variogram& v) { v.SetAngles(-2.0); }, [](Model& w) { w.az = -2; w.dip = 0; return true; }},
    {"RotateAngles(0.9)", [](Variogram& v) { v.RotateAngles(0.9); }, [](Model& w) { w.az += 0.9; return true; }},
    {"RotateAngles(-0.2,1.1)", [](Variogram& v) { v.RotateAngles(-0.2, 1.1); }, [](Model& w) { w.az += -0.2; w.dip += 1.1; return true; }},
    {"SetStdDev(3)", [](Variogram& v) { v.SetStdDev(3); }, [](Model& w) { w.sd = 3; return true; }},
    {"SetStdDev(-0.5)", [](Variogram& v) { v.SetStdDev(-0.5); }, [](Model& w) { w.sd = -0.5; return true; }},
    {"SetRangeX(0)", [](Variogram& v) { v.SetRangeX(0); }, setr(0, 0)},
    {"SetRangeY(-1)", [](Variogram& v) { v.SetRangeY(-1); }, setr(1, -1)},
    {"SetRangeZ(0)", [](Variogram& v) { v.SetRangeZ(0); }, setr(2, 0)},
    {"SetRanges(1,-1,2)", [](Variogram& v) { v.SetRanges(1, -1, 2); }, [](Model&) { return false; }},
    {"SetRanges(9,9,0)", [](Variogram& v) { v.SetRanges(9, 9, 0); }, [](Model&) { return false; }},
    {"LimitRangeX(-1)", [](Variogram& v) { v.LimitRangeX(-1); }, limr(0, -1)},
    {"clone", nullptr, nullptr},
  };
  const int main_ops = int(ops.size());
  // more rejections, in histories up to 2 only
  for (double bad : {0.0, -1.0, -0.25}) {
    ops.push_back({"SetRangeX(<=0)", [bad](Variogram& v) { v.SetRangeX(bad); }, setr(0, bad)});
    ops.push_back({"SetRangeY(<=0)", [bad](Variogram& v) { v.SetRangeY(bad); }, setr(1, bad)});
    ops.push_back({"SetRangeZ(<=0)", [bad](Variogram& v) { v.SetRangeZ(bad); }, setr(2, bad)});
    ops.push_back({"SetRanges(<=0,2,2)", [bad](Variogram& v) { v.SetRanges(bad, 2, 2); }, [](Model&) { return false; }});
    ops.push_back({"SetRanges(2,<=0,2)", [bad](Variogram& v) { v.SetRanges(2, bad, 2); }, [](Model&) { return false; }});
    ops.push_back({"SetRanges(2,2,<=0)", [bad](Variogram& v) { v.SetRanges(2, 2, bad); }, [](Model&) { return false; }});
    ops.push_back({"LimitRangeX(<=0)", [bad](Variogram& v) { v.LimitRangeX(bad); }, limr(0, bad)});
    ops.push_back({"LimitRangeY(<=0)", [bad](Variogram& v) { v.LimitRangeY(bad); }, limr(1, bad)});
    ops.push_back({"LimitRangeZ(<=0)", [bad](Variogram& v) { v.LimitRangeZ(bad); }, limr(2, bad)});
  }
  auto plain = [](int t) -> Variogram* {
    switch (t) {
      case Variogram::CONSTANT: return new NRLib::ConstVario(); case Variogram::EXPONENTIAL: return new NRLib::ExpVario(); case Variogram::SPHERICAL: return new NRLib::SphVario();
      case Variogram::GAUSSIAN: return new NRLib::GauVario(); case Variogram::GENERAL_EXPONENTIAL: return new NRLib::GenExpVario(); case Variogram::MATERN32: return new NRLib::Matern32Vario();
      case Variogram::MATERN52: return new NRLib::Matern52Vario(); default: return new NRLib::Matern72Vario();
    }
  };
  int maxd = m.thorough() ? 4 : 3;
  for (int d = 0; d <= maxd; d++) {
    m.part = mc::fmt("class-depth%d", d);
    for (int t = 0; t < Variogram::N_TYPES; t++)
      for (int start = 0; start < 3; start++)
        mc::sequences(d <= 2 ? int(ops.size()) : main_ops, d, [&](const std::vector<int>& s) {
          if (start == 2 && d > 2) return;
          if (!m.next()) return;
          m.begin("type %d start %d:", t, start);
          Model w = start == 1 ? Model{t, 1.2, {1.5, 0.8, 2.0}, 0.5, -0.4, 2.0} : Model{t, start ? 1.0 : 1.5, {1, 1, 1}, 0, 0, 1};
          std::unique_ptr<Variogram> v(start == 2 ? plain(t) : start ? Variogram::Create(Variogram::Type(t), 1.2, 1.5, 0.8, 2.0, 0.5, -0.4, 2.0)
                                             : Variogram::Create(Variogram::Type(t)));
          std::vector<std::pair<std::unique_ptr<Variogram>, Model>> old;
          for (int i : s) {
            m.note(" %s", ops[i].name);
            if (!ops[i].impl) {
              std::unique_ptr<Variogram> c(v->Clone());
              m.check(c->GetName() == v->GetName(), "a clone has another name");
              old.emplace_back(std::move(v), w);
              v = std::move(c);
            } else {
              bool threw = false;
              try { ops[i].impl(*v); } catch (NRLib::Exception&) { threw = true; } catch (...) { m.fail("an exception that is not NRLib::Exception"); }
              bool ok = ops[i].model(w);
              m.check(threw == !ok, "accepted/rejected: the model says %s", ok ? "accept" : "reject");
            }
            m.step();
          }
          if (d == 0) m.near(v->GetMinimumRangeToGridRatio() > 0, 1, 0, "minimum range to grid ratio is positive");
          uint64_t h = t;
          for (double x : {w.r[0], w.r[1], w.r[2], w.az, w.dip, w.sd}) h = mc::hmix(h, mc::dbits(x));
          m.state(h);
          agree(m, *v, w, "correlation");
          for (auto& o : old) agree(m, *o.first, o.second, "correlation of the object that was cloned earlier");
          m.outcome(mc::dbits(v->GetCov(0.3, 0.1, 0.2)));
        });
  }
  m.part = "factory";
  if (m.next()) {
    m.begin("Create(N_TYPES)");
    bool threw = false;
    try { delete Variogram::Create(Variogram::N_TYPES); } catch (NRLib::Exception&) { threw = true; }
    m.check(threw, "an unknown type was accepted");
    m.state();
  }
  m.finish();
}
