// P05 - equivalent circuit cells against an independent model of the circuit.
#include "common.hpp"
using namespace H;

template <size_t N>
struct Ref
{
  double cap, Rdc, T, SOC, I, t, Ah, Wh;
  std::array<double, N> Rp, it, Ir{};
  bool in() const { return SOC >= 0 && SOC <= 1; }
  double ocv() const { return SOC <= 0.5 ? 2.0 + (SOC - 0) / 0.5 * (3.15 - 2.0) : 3.15 + (SOC - 0.5) / 0.5 * (4.3 - 3.15); }
  double vrc() const
  {
    double v = 0;
    for (size_t i = 0; i < N; i++) v += Rp[i] * Ir[i];
    return v;
  }
  double V() const { return in() ? ocv() - I * Rdc - vrc() : 0; }
  void step(double dt)
  {
    const double dAh = I * dt / 3600;
    SOC -= dAh / cap;
    for (size_t i = 0; i < N; i++) Ir[i] += dt * it[i] * (I - Ir[i]);
    t += dt;
    Ah += std::abs(dAh);
    Wh += std::abs(dAh * V());
  }
};

template <size_t N>
static void compare(Ctx &ctx, Cell_ECM<N> &c, Ref<N> &r, const char *after)
{
  auto k = [&](const char *q) { return std::string("P05/") + q + "-after-" + after; };
  const std::string nm = fmt("ECM<%zu> after %s: ", N, after);
  ctx.near(c.I(), r.I, k("current"), nm + "I", 1e-11, 1e-13);
  ctx.near(c.SOC(), r.SOC, k("soc"), nm + "SOC", 1e-11, 1e-13);
  ctx.near(c.T(), r.T, k("temperature"), nm + "T", 0, 0);
  for (size_t i = 0; i < N; i++) ctx.near(c.getStateObj().Ir(i), r.Ir[i], k("rc-current"), nm + fmt("Ir%zu", i), 1e-11, 1e-13);
  const auto th = c.getThroughputs();
  ctx.near(th.time(), r.t, k("time"), nm + "time", 1e-11, 1e-13);
  ctx.near(th.Ah(), r.Ah, k("Ah"), nm + "Ah", 1e-10, 1e-13);
  const bool edge = std::abs(r.SOC) < 1e-9 || std::abs(r.SOC - 1) < 1e-9;
  ctx.near(th.Wh(), r.Wh, k("Wh"), nm + "Wh", 1e-10, 1e-12);
  if (!edge) {
    ctx.near(safeV(&c), r.V(), k("voltage"), nm + "V", 1e-10, 1e-12);
    if (r.in()) ctx.near(safeOCV(&c), r.ocv(), k("ocv"), nm + "OCV", 1e-11, 1e-12);
  }
  ctx.near(c.getRtot(), r.Rdc, k("R"), nm + "R", 0, 0);
  ctx.near(c.Cap(), r.cap, k("capacity"), nm + "Cap", 0, 0);
  ctx.near(c.getThotSpot(), r.T, k("hotspot"), nm + "T hot spot", 0, 0);
  std::vector<double> v{ r.SOC, r.I, r.T, r.t };
  for (auto x : r.Ir) v.push_back(x);
  ctx.state(v, N);
}

template <size_t N>
static void family(Ctx &ctx, int depth)
{
  const int pset = ctx.choose(N == 0 ? 2 : 4, "parameters");
  Ref<N> r{};
  r.T = settings::T_ENV;
  r.SOC = ctx.pick({ 0.5, 0.9993, 0.0006, 0.3 }, "soc");
  std::unique_ptr<Cell_ECM<N>> c;
  if (pset == 0 || pset == 2) { // explicit parameters
    r.cap = pset ? 3.2 : 16;
    r.Rdc = pset ? 7e-3 : 1e-3;
    for (size_t i = 0; i < N; i++) {
      r.Rp[i] = pset ? 0.011 / (1.0 + static_cast<double>(i)) : 3e-3 * (1.0 + static_cast<double>(i));
      r.it[i] = pset ? 1.0 / (15 + 200.0 * static_cast<double>(i)) : 1.0 / (500.0 - 190 * static_cast<double>(i));
    }
    c.reset(new Cell_ECM<N>("ecm", r.cap, r.SOC, r.Rdc, r.Rp, r.it));
  } else { // documented defaults
    r.cap = pset == 3 ? 5 : 16;
    r.Rdc = 2e-3;
    if (N > 0) r.Rp[0] = 15.8e-3, r.it[0] = 1 / (15.8e-3 * 38e3);
    if (N == 2) r.Rp[1] = 2.5e-3, r.it[1] = 0.01;
    if (pset == 1) {
      c.reset(new Cell_ECM<N>());
      ctx.near(c->SOC(), 0.5, "P05/default-soc", "default SOC", 0, 0);
      c->setSOC(r.SOC, false, false);
    } else
      c.reset(new Cell_ECM<N>("ecm", r.cap, r.SOC));
  }
  compare(ctx, *c, r, "construction");

  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(ctx.thorough ? 13 : 11, "operation");
    const Ref<N> old = r;
    const char *what = "";
    switch (op) {
    case 0:
    case 1:
    case 2: {
      const double I = op == 0 ? 0.7 * r.cap : op == 1 ? -1.3 * r.cap : 0;
      what = "setCurrent";
      c->setCurrent(I, false, false);
      r.I = I;
      break;
    }
    case 3:
    case 4:
    case 5:
    case 6: {
      const double dt = op == 3 ? 1 : op == 4 ? 0.25 : op == 5 ? 10 : 0;
      const int n = op == 3 ? 3 : op == 4 ? 5 : op == 5 ? (d == 1 ? 137 : 1) : 4;
      what = "timeStep";
      Cell_ECM<N> one(*c);
      c->timeStep_CC(dt, n);
      for (int i = 0; i < n; i++) {
        r.step(dt);
        one.timeStep_CC(dt, 1);
      }
      const auto df = diff(observe(&one), observe(c.get()), 1e-13, 1e-14);
      ctx.check(df.empty(), "P05/n-steps-at-once", fmt("ECM<%zu>: %d steps of %g one by one vs at once: ", N, n, dt) + df);
      break;
    }
    case 7: {
      const double s = ctx.pick({ 0.25, 1.0, 0.0 }, "SOC");
      what = "setSOC";
      const auto st = c->setSOC(s, false, false);
      ctx.check(isStatusSuccessful(st), "P05/soc-refused", fmt("setSOC(%g) unchecked -> %s", s, getStatusMessage(st)));
      r.SOC = s;
      break;
    }
    case 8: {
      const double v = ctx.pick({ 3.3, 2.9, 4.0 }, "V");
      what = "setVoltage";
      if (!r.in() || std::abs(r.SOC) < 1e-12) continue;
      const auto st = c->setVoltage(v, true, false);
      ctx.check(isStatusSuccessful(st), "P05/voltage-refused", fmt("setVoltage(%g) -> %s", v, getStatusMessage(st)));
      r.I = (r.ocv() - r.vrc() - v) / r.Rdc;
      ctx.near(c->V(), v, "P05/setvoltage-reached", "voltage after setVoltage", 1e-9);
      // re-anchor the model current to the cell's to avoid amplifying rounding
      ctx.near(c->I(), r.I, "P05/setvoltage-current", "current after setVoltage", 1e-9, 1e-9);
      r.I = c->I();
      break;
    }
    case 9: {
      what = "setT";
      r.T = 300 + d;
      c->setT(r.T);
      break;
    }
    case 10: {
      what = "setStates";
      std::vector<double> s;
      c->getStates(s);
      const size_t n = s.size();
      ctx.check(n == c->viewStates().size(), "P05/state-count", "number of states");
      Cell_ECM<N> src(*c);
      src.setCurrent(0.31 * r.cap, false, false);
      if (src.SOC() >= 0.01 && src.SOC() <= 0.99) src.timeStep_CC(2, 3), r.I = 0.31 * r.cap, r.step(2), r.step(2), r.step(2);
      else
        r.I = 0.31 * r.cap;
      s.clear();
      src.getStates(s);
      std::span<double> sp{ s };
      const auto st = c->setStates(sp, false, false);
      if (src.SOC() < 0 || src.SOC() > 1) {
        ctx.check(isStatusBad(st), "P05/states-accepted", "setStates with SOC outside 0..1 accepted");
        r = old;
      } else
        ctx.check(isStatusSuccessful(st) && sp.empty(), "P05/states-refused", fmt("setStates of valid states -> %s, %zu left", getStatusMessage(st), sp.size()));
      break;
    }
    case 11: {
      what = "checked setCurrent";
      const double I = 0.05 * r.cap;
      const auto st = c->setCurrent(I, true, false);
      if (!isStatusBad(st)) r.I = I;
      break;
    }
    case 12: {
      what = "checked setSOC";
      const double s = 0.6;
      const auto st = c->setSOC(s, true, false);
      if (!isStatusBad(st)) r.SOC = s;
      break;
    }
    }
    ctx.step("%s", what);
    compare(ctx, *c, r, what);
  }
}

static void circuit(Ctx &ctx)
{
  const int n = ctx.choose(4, "RC pairs");
  const int depth = ctx.thorough ? 5 : 4;
  if (n == 0) family<0>(ctx, depth);
  if (n == 1) family<1>(ctx, depth);
  if (n == 2) family<2>(ctx, depth);
  if (n == 3) family<3>(ctx, depth - 1);
  ctx.cover(fmt("RC pairs %d", n));
}

// the OCV over the whole range, and beyond
static void ocv(Ctx &ctx)
{
  Cell_ECM<1> c("c", 16, 0.5);
  Ref<1> r{};
  r.SOC = ctx.choose(2001, "soc") / 1000.0 - 0.5;
  c.getStateObj().SOC() = r.SOC;
  if (r.SOC < 0 || r.SOC > 1) {
    ctx.near(c.V(), 0, "P05/voltage-outside", fmt("voltage at SOC %g", r.SOC), 0, 0);
    bool threw = false;
    try {
      c.getOCV();
    } catch (int) {
      threw = true;
    }
    ctx.check(threw, "P05/ocv-outside", fmt("open circuit voltage at SOC %g", r.SOC));
    ctx.cover("charge outside the range");
  } else {
    ctx.near(c.getOCV(), r.ocv(), "P05/ocv-curve", fmt("open circuit voltage at SOC %g", r.SOC), 1e-12);
    ctx.near(c.V(), r.ocv(), "P05/ocv-curve", fmt("voltage at SOC %g", r.SOC), 1e-12);
  }
  ctx.step("ocv");
  ctx.state({ r.SOC });
  for (double bad : { -0.001, 1.001 }) {
    bool threw = false;
    try {
      Cell_ECM<1> b("b", 16, bad);
    } catch (int e) {
      threw = e == 10;
    }
    ctx.check(threw, "P05/constructor-accepts", fmt("constructor accepted SOC %g", bad));
  }
}

// calls of many steps, tiny and enormous currents
template <size_t N>
static void manySteps(Ctx &ctx)
{
  Ref<N> r{};
  r.T = settings::T_ENV;
  r.SOC = ctx.pick({ 0.5, 0.9, 0.1 }, "soc");
  r.cap = ctx.pick({ 16.0, 0.05, 4000.0 }, "capacity");
  r.Rdc = 1e-3 * 16 / r.cap;
  for (size_t i = 0; i < N; i++) r.Rp[i] = 2e-3 * 16 / r.cap * (1 + static_cast<double>(i)), r.it[i] = 1 / (20.0 + 300.0 * static_cast<double>(i));
  Cell_ECM<N> c("ecm", r.cap, r.SOC, r.Rdc, r.Rp, r.it);
  for (int part = 0; part < 2; part++) {
    const double I = part ? -0.4 * r.I : ctx.pick({ 1e-9, 1e-5, 1.0 / 300, -1.0 / 300, 0.0, 30.0, -30.0 }, "rate") * r.cap;
    const int n = part ? 17 : ctx.pick({ 1, 101, 1009, 3607, 20011 }, "steps");
    const double dt = part ? 0.7 : ctx.pick({ 1.0, 0.13, 1e-3 }, "dt");
    if (std::abs(I) / r.cap * n * dt / 3600 > 0.09) ctx.prune();
    c.setCurrent(I, false, false);
    r.I = I;
    compare(ctx, c, r, "a current");
    c.timeStep_CC(dt, n);
    for (int i = 0; i < n; i++) r.step(dt);
    ctx.step("%d steps of %g at %g A", n, dt, I);
    compare(ctx, c, r, "many steps");
    if (n > 20000) ctx.cover("many steps");
  }
}
static void longCalls(Ctx &ctx)
{
  const int n = ctx.choose(4, "RC pairs");
  if (n == 0) manySteps<0>(ctx);
  if (n == 1) manySteps<1>(ctx);
  if (n == 2) manySteps<2>(ctx);
  if (n == 3) manySteps<3>(ctx);
}

int main(int argc, char **argv) { return main_(argc, argv, { { "circuit", circuit }, { "ocv", ocv }, { "long", longCalls } }); }
