// P12 - every cell of a pack advances by exactly the requested time.
#include "common.hpp"
using namespace H;

static std::vector<std::string> packs(bool deep)
{
  std::vector<std::string> p{ "B50", "E60", "F40", "M50", "D50", "s(B50,E60x8)", "s(M50,D60)", "p(B50,B50x8)", "p(M50,M52)", "s(p(B50,B52),E40)~1", "p(s(B50,E50),s(F50,B51))~1", "s(s(D50,B50),s(M50))", "s(B50,E60,M50)!", "s(p(B50,B52)!,s(E40,M50)!)!", "b2x3:s(B50,E50)", "p(D50,B50,E50)!", "s(36*B50)", "p(34*B50)", "s(3*p(2*s(2*B50)))" };
  if (deep)
    for (auto x : { "p(p(B50,M50),p(E50,B51))", "s(s(s(s(B50),M40)))", "b1x2:p(M50,s(B50))", "p(B50,B50,B50,B50,B50)!", "s(B10,B20,B30,B40,B50,B60,B70,B80,B90)!" }) p.push_back(x);
  return p;
}
static bool onlySeries(SU *u)
{
  for (auto n : nodes(u))
    if (asParallel(n)) return false;
  return true;
}

static void advance(Ctx &ctx)
{
  const auto ps = packs(ctx.thorough);
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "unit"))];
  const bool blocked = ctx.flag("blocked");
  auto u = build(e);
  blockAll(u.get(), blocked);
  u->setCurrent(0, false, false); // balances parallel members
  const auto ls = leaves(u.get());
  ctx.note("unit %s", e.c_str());
  const int depth = (ctx.thorough ? 5 : 4) - 2 * wide(e);
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(8, "operation");
    try {
      if (op < 3) {
        u->setCurrent(std::vector<double>{ 8, -12, 0 }[static_cast<size_t>(op)], true, false);
        ctx.step("current %d", op);
        continue;
      }
      const double dt = std::vector<double>{ 1, 0.1, 60, 0, 7 }[static_cast<size_t>(op - 3)];
      const int n = std::vector<int>{ 1, 7, 2, 3, 0 }[static_cast<size_t>(op - 3)];
      struct C
      {
        double t, soc, I, ah, wh;
      };
      std::vector<C> b;
      for (auto c : ls) {
        const auto th = c->getThroughputs();
        b.push_back({ th.time(), c->SOC(), c->I(), th.Ah(), th.Wh() });
      }
      const auto w = fmt("%s: timeStep(%g,%d)", e.c_str(), dt, n);
      const auto before = observe(u.get());
      u->timeStep_CC(dt, n);
      ctx.step("%s", w.c_str());
      const double T = dt * n;
      if (T == 0) {
        ctx.cover("zero-length step");
        // parallel modules may rebalance within their tolerance
        const auto x = onlySeries(u.get()) ? diff(observe(u.get()), before) : diff(observe(u.get()), before, 1e-6, 1e-6);
        ctx.check(x.empty(), "P12/zero", w + " changed " + x);
      }
      for (size_t i = 0; i < ls.size(); i++) {
        const auto th = ls[i]->getThroughputs();
        const auto q = w + fmt(": cell %zu: ", i);
        ctx.near(th.time(), b[i].t + T, "P12/time", q + "clock", 1e-12, 1e-12);
        ctx.near(ls[i]->SOC(), b[i].soc - b[i].I * T / 3600 / ls[i]->Cap(), "P12/soc", q + "state of charge", 1e-11, 1e-13);
        ctx.near(th.Ah(), b[i].ah + std::abs(b[i].I) * T / 3600, "P12/ah", q + "charge throughput", 1e-11, 1e-13);
        ctx.check(th.Wh() >= b[i].wh, "P12/wh", q + "energy throughput decreased");
        ctx.state({ static_cast<double>(i), th.time(), ls[i]->SOC(), b[i].I });
      }
    } catch (int x) {
      ctx.step("throws %d", x);
      ctx.cover("failed step");
      return; // out of charge or out of balance
    }
  }
  ctx.cover("stepped");
}

// long calls: many steps and long steps, twice with different currents
static void longCalls(Ctx &ctx)
{
  const auto ps = packs(true);
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "unit"))];
  auto u = build(e);
  blockAll(u.get(), ctx.flag("blocked"));
  u->setCurrent(0, false, false);
  const auto ls = leaves(u.get());
  for (int k = 0; k < 2; k++) {
    const double I = k ? -3.3 : ctx.pick({ 5.7, -1.1, 0.0 }, "current");
    const double dt = ctx.pick({ 0.1, 0.777, 3.7, 31.0, 240.0 }, "dt");
    const int n = ctx.pick({ 1, 24, 101, 1000 }, "steps");
    const double T = dt * n;
    const auto w = fmt("%s: timeStep(%g,%d) at %g A", e.c_str(), dt, n, I);
    try {
      u->setCurrent(I, true, false);
      std::vector<std::array<double, 5>> b;
      for (auto c : ls) {
        const auto th = c->getThroughputs();
        b.push_back({ th.time(), c->SOC(), c->I(), th.Ah(), th.Wh() });
      }
      u->timeStep_CC(dt, n);
      ctx.step("%s", w.c_str());
      for (size_t i = 0; i < ls.size(); i++) {
        const auto th = ls[i]->getThroughputs();
        const auto q = w + fmt(": cell %zu: ", i);
        ctx.near(th.time(), b[i][0] + T, "P12/time", q + "clock", 1e-10, 1e-9);
        ctx.near(ls[i]->SOC(), b[i][1] - b[i][2] * T / 3600 / ls[i]->Cap(), "P12/soc", q + "state of charge", 1e-10, 1e-10);
        ctx.near(th.Ah(), b[i][3] + std::abs(b[i][2]) * T / 3600, "P12/ah", q + "charge throughput", 1e-10, 1e-10);
        ctx.check(th.Wh() >= b[i][4], "P12/wh", q + "energy throughput decreased");
        ctx.state({ static_cast<double>(i), th.time(), ls[i]->SOC(), b[i][2] });
      }
      if (n > 100) ctx.cover("many steps in one call");
    } catch (int x) {
      ctx.step("%s throws %d", w.c_str(), x);
      return; // out of charge, balance or too hot
    }
  }
}

// very long calls (hours and days in one call) with small currents
static void veryLong(Ctx &ctx)
{
  static const std::vector<std::string> es{ "B50", "E50", "M50", "s(B50,E50)", "p(E50,E50)", "s(p(B50,B50),M50)", "b1x3:s(B50,B50)" };
  const auto e = ctx.pick(es, "unit");
  auto u = build(e);
  blockAll(u.get(), true);
  u->setCurrent(0, false, false);
  const double C = ctx.pick({ 1.0 / 400, -1.0 / 400, 0.0 }, "rate");
  const int n = ctx.pick({ 3601, 20011, 86401 }, "steps");
  const double dt = ctx.pick({ 1.0, 0.37 }, "dt");
  if (isStatusBad(u->setCurrent(C * u->Cap(), true, false))) ctx.prune();
  const auto ls = leaves(u.get());
  std::vector<std::array<double, 4>> b;
  for (auto c : ls) {
    const auto th = c->getThroughputs();
    b.push_back({ th.time(), c->SOC(), c->I(), th.Ah() });
  }
  try {
    u->timeStep_CC(dt, n);
  } catch (int x) { // cells in a warm pack
    ctx.step("%s throws %d", e.c_str(), x);
    return;
  }
  const double T = dt * n;
  const auto w = fmt("%s: timeStep(%g,%d) at %g C", e.c_str(), dt, n, C);
  ctx.step("%s", w.c_str());
  for (size_t i = 0; i < ls.size(); i++) {
    const auto th = ls[i]->getThroughputs();
    const auto q = w + fmt(": cell %zu: ", i);
    ctx.near(th.time(), b[i][0] + T, "P12/time", q + "clock", 1e-9, 1e-9);
    // within a parallel module the current is redistributed between the steps of its members only
    ctx.near(ls[i]->SOC(), b[i][1] - b[i][2] * T / 3600 / ls[i]->Cap(), "P12/soc", q + "state of charge", 1e-9, 1e-9);
    ctx.near(th.Ah(), b[i][3] + std::abs(b[i][2]) * T / 3600, "P12/ah", q + "charge throughput", 1e-9, 1e-9);
  }
  ctx.cover("a day in one call");
  ctx.state({ T, C, ls[0]->SOC() }, std::hash<std::string>{}(e));
}

// all compositions of n steps
static void splits(Ctx &ctx)
{
  const auto ps = packs(ctx.thorough);
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "unit"))];
  auto a = build(e), b = build(e);
  if (!onlySeries(a.get())) ctx.prune();
  blockAll(a.get(), true);
  blockAll(b.get(), true);
  const double I = ctx.pick({ 10.0, -7.0 }, "current");
  const double dt = ctx.pick({ 1.0, 0.3, 20.0 }, "dt");
  const int pre = ctx.choose(3, "pre");
  for (auto u : { a.get(), b.get() }) {
    if (pre) u->setCurrent(-I, false, false), u->timeStep_CC(5, 4);
    if (pre == 2) u->setCurrent(0, false, false), u->timeStep_CC(2, 3);
    u->setCurrent(I, false, false);
  }
  const int n = ctx.thorough ? 8 : 6;
  a->timeStep_CC(dt, n);
  int left = n;
  std::string s;
  while (left > 0) {
    const int k = 1 + ctx.choose(left, "part");
    b->timeStep_CC(dt, k);
    left -= k;
    s += fmt("%d ", k);
  }
  ctx.step("%s: %d steps as %s", e.c_str(), n, s.c_str());
  const auto x = diff(observe(a.get()), observe(b.get()), 1e-12, 1e-14);
  ctx.check(x.empty(), "P12/split", fmt("%s: %d steps of %g at once and as %s differ: ", e.c_str(), n, dt, s.c_str()) + x);
  ctx.cover("split");
}

// steps of every size, few and many of them
static void durations(Ctx &ctx)
{
  const auto ps = packs(false);
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "unit"))];
  auto u = build(e), v = build(e);
  const bool blocked = ctx.flag("blocked");
  const double I = ctx.pick({ 0.25, -0.25, 0.0 }, "current") * u->Cap();
  const double dt = ctx.pick({ 1e-7, 1e-4, 0.02, 0.5, 2.0 }, "dt");
  const int n = ctx.pick({ 1, 2, 40, 101, 1000, 3001 }, "steps");
  for (auto x : { u.get(), v.get() }) {
    blockAll(x, blocked);
    x->setCurrent(0, false, false);
    if (isStatusBad(x->setCurrent(I, true, false))) ctx.prune();
  }
  const auto ls = leaves(u.get());
  const auto w = fmt("%s at %g A: timeStep(%g,%d)", e.c_str(), I, dt, n);
  const double T = dt * n;
  for (int call = 0; call < 2; call++) {
    std::vector<std::array<double, 5>> b;
    for (auto c : ls) {
      if (!(safeV(c) > 0)) return; // charged or discharged beyond its range
      const auto th = c->getThroughputs();
      b.push_back({ th.time(), c->SOC(), c->I(), th.Ah(), th.Wh() });
    }
    try {
      u->timeStep_CC(dt, n);
    } catch (int x) {
      ctx.step("throws %d", x);
      return;
    }
    ctx.step("%s", w.c_str());
    for (size_t i = 0; i < ls.size(); i++) {
      const auto th = ls[i]->getThroughputs();
      const auto q = w + fmt(": cell %zu: ", i);
      // what one step adds must not get lost, however short it is
      ctx.near(th.time() - b[i][0], T, "P12/time", q + "clock", 1e-9, 1e-15 * n * (1 + b[i][0]));
      ctx.near(ls[i]->SOC() - b[i][1], -b[i][2] * T / 3600 / ls[i]->Cap(), "P12/soc", q + "state of charge", 1e-9, 3e-16 * n);
      ctx.near(th.Ah() - b[i][3], std::abs(b[i][2]) * T / 3600, "P12/ah", q + "charge throughput", 1e-9, 3e-16 * n * (1 + b[i][3]));
      if (b[i][2] != 0) ctx.check(th.Wh() > b[i][4], "P12/wh", q + "no energy throughput");
    }
    ctx.state({ dt, double(n), I, ls[0]->SOC() });
  }
  ctx.cover(n > 100 ? "many steps" : T < 1e-3 ? "short step" : "some steps");
  if (blocked && onlySeries(u.get())) { // cut in two anywhere
    const int k = ctx.pick({ 0, 1, 100, n / 2, n - 1 }, "cut");
    if (k > n) ctx.prune();
    try {
      for (int part : { k, n - k, n - k, k }) v->timeStep_CC(dt, part);
    } catch (int x) {
      ctx.check(false, "P12/split", w + fmt(": cut at %d throws %d", k, x));
    }
    const auto x = diff(observe(u.get()), observe(v.get()), 1e-12, 1e-14);
    ctx.check(x.empty(), "P12/split", w + fmt(" twice, and cut at %d, differ: ", k) + x);
    ctx.cover("long split");
  }
}

int main(int argc, char **argv) { return main_(argc, argv, { { "advance", advance }, { "long", longCalls }, { "veryLong", veryLong }, { "splits", splits }, { "durations", durations } }); }
