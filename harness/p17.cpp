// P17 - setting a voltage reaches it or reports failure.
#include "common.hpp"
using namespace H;

static void laws(Ctx &ctx, SU *u, const std::string &what)
{
  for (auto n : nodes(u)) {
    auto m = asModule(n);
    if (!m) continue;
    const auto &k = m->getSUs();
    if (asSeries(n))
      for (auto &c : k) ctx.near(c->I(), m->I(), "P17/string", what + ": current of a member of a series string", 1e-9, 1e-7);
    else
      for (auto &c : k) ctx.near(c->V(), k[0]->V(), "P17/branch", what + ": voltages of parallel branches", 0, 1e-7);
  }
  for (auto c : leaves(u)) { // the voltage belongs to the new current
    std::unique_ptr<SU> x(c->copy());
    x->setParent(nullptr);
    x->setCurrent(0, false, false);
    x->setCurrent(c->I(), false, false);
    ctx.near(safeV(c), safeV(x.get()), "P17/cell", what + ": voltage of a cell against a fresh copy with that current", 1e-12, 1e-12);
  }
}
// everything except currents and voltages
static std::vector<double> still(SU *u)
{
  std::vector<double> v;
  for (auto n : nodes(u)) {
    v.push_back(n->T());
    if (auto c = asCell(n)) {
      v.push_back(c->SOC());
      const auto t = c->getThroughputs();
      v.push_back(t.time()), v.push_back(t.Ah()), v.push_back(t.Wh());
      if (auto m = dynamic_cast<Cell_SPM *>(c)) {
        auto &s = m->getStateObj();
        for (size_t i = 0; i < 10; i++) v.push_back(s.z(i));
        v.push_back(s.delta()), v.push_back(s.CS()), v.push_back(s.LLI()), v.push_back(s.Dn()), v.push_back(s.ep()), v.push_back(s.en());
      } else { // states other than the current
        auto vs = c->viewStates();
        for (size_t i = 0; i < vs.size(); i++)
          if (i != 2) v.push_back(vs[i]);
      }
    }
  }
  return v;
}

static const std::vector<std::string> &units()
{
  static std::vector<std::string> u{ "B50", "E50", "F50", "M50", "B98", "M95", "B3", "M6", "s(B50,E60,F40)", "s(M50,M70)", "p(B50,B50)", "p(M50,M50)", "p(B50,B55x8)", "s(p(B50,B50),B50)", "p(s(B50,B52),s(B50,B50))", "D50", "s(M50,B50x8)~2", "s(p(M50,M52),p(M50,M50))", "s(36*B50)", "p(20*B50)", "s(2*p(2*s(2*B50)))" };
  return u;
}

static void targets(Ctx &ctx)
{
  const auto &us = units();
  const auto e = us[static_cast<size_t>(ctx.choose(static_cast<int>(us.size()), "unit"))];
  auto u = build(e);
  blockAll(u.get(), true);
  const double cap = u->Cap();
  u->setCurrent(0, true, false); // balances parallel members
  double nser = 1;
  {
    double v = u->getOCV();
    nser = std::max(1.0, std::round(v / 3.7));
  }
  // history
  const int pre = ctx.choose(ctx.thorough ? 5 : 4, "history");
  try {
    if (pre == 1) u->setCurrent(0.5 * cap, true, false);
    if (pre == 2) u->setCurrent(-0.5 * cap, true, false), u->timeStep_CC(10, 6);
    if (pre == 3) u->setCurrent(1 * cap, true, false), u->timeStep_CC(5, 20), u->setCurrent(-0.2 * cap, true, false);
    if (pre == 4) u->setCurrent(0.05 * cap, true, false), u->timeStep_CC(5, 20), u->timeStep_CC(5, 20);
  } catch (int) {
    ctx.prune();
  }
  const int n = ctx.thorough ? 3 : 2;
  for (int k = 0; k < n; k++) {
    double V;
    const int t = ctx.choose(ctx.thorough ? 28 : 20, "target");
    bool reachable = false;
    if (t < 7) { // a voltage that an accepted current produces
      Deep_ptr<SU> x(u->copy());
      const double I = std::vector<double>{ 0.3, -0.3, 1.5, -1.5, 0, 4, -4 }[static_cast<size_t>(t)] * cap;
      const auto st = x->setCurrent(I, true, false);
      if (isStatusBad(st)) {
        ctx.cover("no such current");
        return;
      }
      V = x->V();
      reachable = true;
    } else {
      static const std::vector<double> g{ 0.0, 1.0, 1.99, 2.0, 2.69, 2.7, 3.4, 3.9, 4.2, 4.21, 4.3, 4.35, NAN, 3.0, 3.2, 3.6, 3.75, 4.0, 4.1, -1.0, 100.0 };
      V = g[static_cast<size_t>(t - 7)] * nser;
    }
    const auto before = still(u.get());
    const auto cur = [&] {
      std::vector<double> v;
      for (auto c : leaves(u.get())) v.push_back(c->I());
      return v;
    };
    const auto I0 = cur();
    const bool ordinary = u->V() >= u->Vmin() && u->V() <= u->Vmax() && std::abs(u->I()) <= 1.001 * cap;
    Status st;
    try {
      st = u->setVoltage(V, true, false);
    } catch (int x) {
      ctx.check(false, "P17/exception", fmt("%s: setVoltage(%g) throws %d", e.c_str(), V, x));
      return;
    }
    const auto w = fmt("%s setVoltage(%.6g) -> %d", e.c_str(), V, static_cast<int>(st));
    ctx.step("%s: V %g I %g", w.c_str(), u->V(), u->I());
    const auto after = still(u.get());
    for (size_t i = 0; i < before.size(); i++) ctx.near(after[i], before[i], "P17/moved", w + fmt(": state %zu changed", i), 0, 0);
    if (isStatusBad(st)) {
      ctx.cover("failure reported");
      // the solver of parallel modules is not promised to converge within its iterations
      ctx.check(!reachable || !ordinary || (asParallel(u.get()) && e.find('M') != std::string::npos), "P17/reach", w + " although an accepted current gives this voltage");
      const auto I1 = cur();
      for (size_t i = 0; i < I0.size(); i++) ctx.near(I1[i], I0[i], "P17/finite", w + fmt(": current of cell %zu after a failure", i), 1e-6, 1e-5);
    } else {
      ctx.check(std::isfinite(V), "P17/nan", w + ": a target which is not a number is reached");
      ctx.cover("voltage reached");
      ctx.near(u->V(), V, "P17/voltage", w + ": voltage afterwards", 0, 2e-6);
      double v;
      ctx.check(!isStatusBad(u->checkVoltage(v, false)), "P17/limits", w + ": accepted although a cell is beyond what it tolerates");
      laws(ctx, u.get(), w);
    }
    ctx.state({ u->V(), u->I(), V });
  }
}

int main(int argc, char **argv)
{
  return main_(argc, argv, { { "targets", targets } });
}
