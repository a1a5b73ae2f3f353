// P14, P15 - constant current and rest: the cycler stops at the first limit, keeps exact books.
// The real Cycler runs against (a) an environment whose every reaction the explorer decides,
// (b) real cells and packs with every call recorded and, as a reference, an independent
// simulation that takes the same steps one by one.
#include "cycenv.hpp"
using namespace H;

struct Par
{
  double I, vlim, tlim, dt;
  int ndt;
  bool diag;
  std::string str() const { return fmt("CC(I=%g, vlim=%g, tlim=%.17g, dt=%.17g, ndt=%d, diagnostic=%d)", I, vlim, tlim, dt, ndt, diag); }
};
static bool past(double I, double V, double vlim) { return (I < 0 && V > vlim) || (I > 0 && V < vlim); }
static bool atSafety(double I, double V, const StorageUnit &u) { return (I < 0 && V > 1.01 * u.VMAX()) || (I > 0 && V < 0.99 * u.VMIN()); }

// stores: first at 0, gaps at most ndt*dt, last at the end
static void checkStores(Ctx &ctx, const LogSU &u, int ndt, double dt, double t0, bool endNeeded, const std::string &w)
{
  double last = -1;
  int n = 0;
  bool first = true;
  for (auto &e : u.log) {
    if (e.k == Ev::Store) {
      n++;
      if (first) ctx.check(e.t == t0, "P18/data", w + ": the first data point is not at the start");
      else
        ctx.check(e.t - last <= ndt * dt * (1 + 1e-9), "P18/data", w + fmt(": no data point for %.17g s, every %d steps of %g s were asked for", e.t - last, ndt, dt));
      last = e.t;
      first = false;
    } else if (first && ndt > 0 && e.k != Ev::Write)
      ctx.fail("P18/data", w + ": no data point at the start");
  }
  if (ndt <= 0)
    ctx.check(n == 0, "P18/data", w + fmt(": %d data points were stored although none were asked for", n));
  else {
    if (endNeeded) ctx.check(last == u.clock, "P18/data", w + fmt(": the last data point is at %.17g s, the end at %.17g s", last - t0, u.clock - t0));
    ctx.check(u.clock - last <= ndt * dt * (1 + 1e-9), "P18/data", w + ": data points missing at the end");
    ctx.cover("data points");
  }
}

static Status runCC(Ctx &ctx, LogSU &u, const Par &p)
{
  const std::string w = p.str();
  Cycler cyc(&u, "mc");
  cyc.setDiagnostic(p.diag);
  ThroughputData th{};
  th.time() = 1000;
  th.Ah() = 7;
  th.Wh() = 21;
  const double I0 = u.I(), Ah0 = u.Ah, lo0 = u.WhLo, hi0 = u.WhHi, t0 = u.clock;
  const double Vb = u.V();
  u.log.clear();
  ctx.step("%s from I=%g V=%g", w.c_str(), I0, Vb);
  const Status s = cyc.CC(p.I, p.vlim, p.tlim, p.dt, p.ndt, th);
  ctx.note("-> %s, t=%.17g", stName(s), u.clock - t0);
  // the books
  const double T = u.clock - t0;
  ctx.near(th.time() - 1000, T, "P15/time", w + fmt(" (%s): reported time against the time the unit lived through", stName(s)), 1e-9, 1e-7);
  ctx.near(th.Ah() - 7, u.Ah - Ah0, "P15/charge", w + fmt(" (%s): reported charge against the charge through the unit", stName(s)), 1e-7, 1e-9);
  ctx.check(th.Wh() - 21 >= (u.WhLo - lo0) - 1e-7 * (1 + std::abs(u.WhLo)) && th.Wh() - 21 <= (u.WhHi - hi0) + 1e-7 * (1 + std::abs(u.WhHi)), "P15/energy",
            w + fmt(" (%s): reported energy %.12g Wh, the unit delivered between %.12g and %.12g", stName(s), th.Wh() - 21, u.WhLo - lo0, u.WhHi - hi0));
  ctx.check(T <= p.tlim * (1 + 1e-12) + 1e-9, "P14/timelimit", w + fmt(": went on for %.17g s", T));
  // the course of events
  bool set = false;
  const Ev *lastStep = nullptr;
  for (auto &e : u.log) {
    if (e.k == Ev::SetI && !set) {
      set = true;
      ctx.check(e.a == p.I, "P14/current", w + fmt(": set a current of %.17g", e.a));
      const bool refused = isStatusVoltageLimitsViolated(e.st) || isStatusBad(e.st);
      if (refused) {
        ctx.check(s == e.st, "P14/refused", w + fmt(": the current was refused (%s) but the result is %s", stName(e.st), stName(s)));
        ctx.check(T == 0, "P14/refused", w + ": the current was refused but time went on");
        ctx.check(u.I() == I0, "P14/refused", w + fmt(": the current was refused, and %g A is left instead of %g A", u.I(), I0));
        ctx.cover("refused");
        return s;
      }
      if (past(p.I, e.V1, p.vlim)) {
        ctx.check(s == Status::ReachedVoltageLimit, "P14/stop", w + fmt(": the voltage %g is past the limit at once, the result is %s", e.V1, stName(s)));
        ctx.check(T == 0, "P14/stop", w + ": the voltage is past the limit at once but time went on");
        ctx.cover("limit at once");
        return s;
      }
    }
    if (e.k == Ev::Step) {
      ctx.check(set, "P14/current", w + ": time went on before the current was set");
      ctx.check(ctx.close(e.I0, p.I, 1e-9, 1e-9), "P14/current", w + fmt(": a step was taken at %.17g A", e.I0));
      ctx.check(e.a > 0 && e.a <= p.dt * (1 + 1e-12), "P14/step", w + fmt(": a step of %.17g s", e.a));
      ctx.check(e.n >= 1 && e.n <= 10, "P14/step", w + fmt(": %d steps at once", e.n));
      if (lastStep) {
        const auto &l = *lastStep;
        ctx.check(!l.threw, "P14/fault", w + ": went on after a failed time step");
        ctx.check(!past(p.I, l.V1, p.vlim), "P14/stop", w + fmt(": went on at %.17g V, after %.17g s", l.V1, l.t - t0));
        ctx.check(l.V1 > 0, "P14/stop", w + fmt(": went on although the voltage is %g", l.V1));
        ctx.check(!atSafety(p.I, l.V1, u), "P14/safety", w + fmt(": went on at %.17g V, outside the safety limits", l.V1));
      }
      lastStep = &e;
    }
  }
  ctx.check(set, "P14/current", w + ": no current was set");
  if (!lastStep && p.I == 0 && s == Status::ReachedVoltageLimit) return s; // limits of a zero current: not specified
  if (!lastStep) {
    ctx.check(p.tlim <= 0, "P14/stop", w + fmt(": nothing happened, %s with V=%.17g", stName(s), u.V()));
    ctx.check(s == Status::ReachedTimeLimit, "P14/status", w + fmt(": no time was allowed, the result is %s", stName(s)));
    checkStores(ctx, u, p.ndt, p.dt, t0, true, w);
    ctx.cover("no time");
    return s;
  }
  const auto &l = *lastStep;
  const bool tl = T >= p.tlim * (1 - 1e-12) - 1e-9;
  if (l.threw) {
    ctx.check(s == Status::timeStep_CC_failed, "P14/fault", w + fmt(": a time step failed, the result is %s", stName(s)));
    ctx.cover("failed step");
    return s;
  }
  double vv;
  const Status cv = u.checkVoltage(vv, false);
  std::set<Status> ok;
  bool end = false;
  if (tl) ok.insert(Status::ReachedTimeLimit), end = true;
  if (past(p.I, l.V1, p.vlim)) ok.insert(Status::ReachedVoltageLimit), end = true;
  if (l.V1 <= 0) ok = { Status::V_not_calculated }, end = false;
  else {
    if (p.diag && cv != Status::Success) {
      ok = { cv };
      end = false;
      ctx.cover("cell limit");
    }
    if (atSafety(p.I, l.V1, u)) {
      ok.insert(p.I > 0 ? Status::VMINsafety_violation : Status::VMAXsafety_violation);
      if (!p.diag) ok.erase(Status::ReachedTimeLimit); // a breach of the safety limits is not reported as a normal end
      if (!past(p.I, l.V1, p.vlim)) end = false;
      ctx.cover("safety");
    }
  }
  ctx.check(ok.count(s) > 0, "P14/status", w + fmt(": stopped after %.17g s at V=%.17g (cells: %s), the result is %s", T, l.V1, stName(cv), stName(s)));
  if (end && (s == Status::ReachedTimeLimit || s == Status::ReachedVoltageLimit)) {
    ctx.near(u.I(), p.I, "P14/current", w + ": current at the end", 1e-9, 1e-9);
    checkStores(ctx, u, p.ndt, p.dt, t0, true, w);
  } else
    checkStores(ctx, u, p.ndt, p.dt, t0, s != Status::V_not_calculated, w);
  ctx.cover(stName(s));
  return s;
}

// ---- nondeterministic environment ------------------------------------------------------
static Par pickPar(Ctx &ctx, bool small)
{
  Par p;
  p.I = ctx.pick({ -1.0, 1.0, 0.0 }, "I");
  p.vlim = p.I > 0 ? 3.0 : 4.0;
  p.dt = small ? 2.0 : ctx.pick({ 1.0, 0.1, 2.5 }, "dt");
  const double k = small ? ctx.pick({ 1.0, 2.5, 4.0, 6.0 }, "steps") : ctx.pick({ 0.0, 0.5, 1.0, 2.5, 3.0, 5.0 }, "steps");
  p.tlim = k * p.dt;
  p.ndt = small ? ctx.pick({ 0, 2 }, "ndt") : ctx.pick({ 0, 1, 2, 3, 7 }, "ndt");
  p.diag = ctx.flag("diagnostic");
  return p;
}
static void levelsFor(EnvSU &u, const Par &p, bool extremes)
{
  if (p.I < 0) u.levels = { 3.5, 3.98, 4.0, 4.05 };
  else if (p.I > 0) u.levels = { 3.6, 3.02, 3.0, 2.95 };
  else u.levels = { 3.5, 4.05 };
  if (extremes) {
    if (p.I < 0) u.levels.insert(u.levels.end(), { 4.35 });
    else if (p.I > 0) u.levels.insert(u.levels.end(), { 1.9, -1.0 });
  }
}
static void envCC(Ctx &ctx)
{
  const Par p = pickPar(ctx, false);
  EnvSU u(ctx);
  levelsFor(u, p, false);
  u.cur = ctx.pick({ 0.0, p.I < 0 ? -3.0 : 3.0 }, "I before");
  u.v = ctx.pick({ u.levels[0], u.levels[u.levels.size() - 2], u.levels.back() }, "V before");
  runCC(ctx, u, p);
  ctx.state({ u.clock, u.v, u.cur });
}
static void envFaults(Ctx &ctx)
{
  Par p = pickPar(ctx, true);
  EnvSU u(ctx);
  levelsFor(u, p, false);
  if (p.I < 0) u.levels = { 3.5, 4.35 };
  else if (p.I > 0) u.levels = { 3.6, 1.9, -1 };
  u.levelsSet = { u.levels[0] };
  if (ctx.flag("limit beyond the safety limit")) p.vlim = p.I > 0 ? 0.5 : 9;
  u.mayThrow = u.mayRefuse = u.cellLimits = true;
  u.cur = ctx.pick({ 0.0, p.I < 0 ? -3.0 : 3.0 }, "I before");
  runCC(ctx, u, p);
  ctx.state({ u.clock, u.v, u.cur });
}
// several phases one after another with the same cycler and unit: a staged charge / discharge
static void envStages(Ctx &ctx)
{
  EnvSU u(ctx);
  u.levels = { 3.5, 3.9, 4.05 };
  double last = 0;
  const int n = ctx.thorough ? 3 : 2;
  for (int i = 0; i < n; i++) {
    Par p;
    p.I = ctx.pick({ -2.0, -1.0, 1.0, 2.0 }, "I");
    p.vlim = ctx.pick({ 4.0, 3.7 }, "vlim");
    p.dt = 1;
    p.tlim = 2;
    p.ndt = ctx.pick({ 0, 1 }, "ndt");
    p.diag = false;
    runCC(ctx, u, p);
    if (last * p.I > 0 && std::abs(p.I) < std::abs(last)) ctx.cover("lower stage");
    last = p.I;
  }
}
// lengths of time steps and limits that are not exact in binary
static void clocks(Ctx &ctx)
{
  EnvSU u(ctx);
  u.levels = { 3.5 };
  Par p;
  p.I = ctx.pick({ -1.0, 1.0 }, "I");
  p.vlim = p.I < 0 ? 4 : 3;
  p.dt = ctx.pick({ 0.1, 0.2, 0.3, 0.7, 1.0, 1.0 / 3, 2.5, 5.0, 0.01 }, "dt");
  const int k = ctx.choose(ctx.thorough ? 400 : 120, "tlim") + 1;
  p.tlim = k * ctx.pick({ 0.1, 1.0, 0.37 }, "unit");
  p.ndt = ctx.pick({ 0, 1, 3 }, "ndt");
  p.diag = false;
  if (p.tlim / p.dt > 2000) ctx.prune();
  const auto s = runCC(ctx, u, p);
  ctx.check(s == Status::ReachedTimeLimit, "P14/status", p.str() + fmt(": %s", stName(s)));
  ctx.near(u.clock, p.tlim, "P15/time", p.str() + ": the time that was asked for", 1e-12, 1e-9);
  ctx.cover("odd clocks");
}

// ---- rest ---------------------------------------------------------------------------
static void checkRest(Ctx &ctx, LogSU &u, double tlim, double dt, int ndt, bool fault)
{
  const std::string w = fmt("rest(tlim=%.17g, dt=%.17g, ndt=%d)", tlim, dt, ndt);
  Cycler cyc(&u, "mc");
  ThroughputData th{};
  th.time() = 500;
  th.Ah() = 7;
  th.Wh() = 21;
  const double t0 = u.clock;
  u.log.clear();
  ctx.step("%s from I=%g", w.c_str(), u.I());
  Status s{};
  bool threw = false;
  try {
    s = cyc.rest(tlim, dt, ndt, th);
  } catch (int) {
    threw = true;
  }
  const double T = u.clock - t0;
  ctx.near(th.time() - 500, T, "P15/rest-time", w + ": reported time against the time the unit lived through", 1e-9, 1e-7);
  ctx.check(th.Ah() == 7 && th.Wh() == 21, "P15/rest-charge", w + ": charge or energy throughput during a rest");
  bool bad = false;
  for (auto &e : u.log) {
    if (e.k == Ev::SetI) {
      if (isStatusBad(e.st)) bad = true;
    } else if (e.k == Ev::Step) {
      ctx.check(!bad, "P14/rest-refused", w + ": went on after the current of zero was refused");
      ctx.near(e.I0, 0, "P14/rest-current", w + ": current during a rest", 0, 1e-9);
      ctx.check(e.a > 0 && e.a <= dt * (1 + 1e-12) && e.n >= 1 && e.n <= 10, "P14/step", w + fmt(": %d steps of %.17g s", e.n, e.a));
      if (e.threw) {
        ctx.check(threw || isStatusBad(s), "P14/rest-fault", w + ": a failed time step goes unnoticed");
        ctx.cover("rest failed step");
        return;
      }
    }
  }
  ctx.check(!threw, "P14/rest-fault", w + ": an exception although no time step failed");
  if (bad && T < tlim) {
    ctx.check(isStatusBad(s), "P14/rest-refused", w + fmt(": the current of zero was refused, the result is %s", stName(s)));
    checkStores(ctx, u, ndt, dt, t0, true, w);
    ctx.cover("rest refused");
    return;
  }
  ctx.check(s == Status::ReachedTimeLimit, "P14/rest-status", w + fmt(": the result is %s", stName(s)));
  ctx.near(T, tlim, "P15/rest-time", w + ": the time that was asked for", 1e-12, 1e-9);
  if (!bad) ctx.near(u.I(), tlim > 0 ? 0 : u.I(), "P14/rest-current", w + ": current after a rest", 0, 1e-9);
  checkStores(ctx, u, ndt, dt, t0, true, w);
  ctx.cover("rest");
  (void)fault;
}
static void envRest(Ctx &ctx)
{
  EnvSU u(ctx);
  const double dt = ctx.pick({ 1.0, 0.1, 2.5, 1.0 / 3, 10.0 }, "dt");
  const double k = ctx.choose(ctx.thorough ? 300 : 90, "steps") * 0.75;
  const int ndt = ctx.pick({ 0, 1, 2, 3, 5, 7, 12 }, "ndt");
  u.cur = ctx.pick({ 0.0, 2.0, -2.0 }, "I before");
  u.levels = { 3.5 };
  checkRest(ctx, u, k * dt, dt, ndt, false);
  ctx.state({ u.clock, dt });
}
// hours and days
static void longRuns(Ctx &ctx)
{
  EnvSU u(ctx);
  u.levels = { 3.5 };
  const double dt = ctx.pick({ 1.0, 0.7, 7.3, 60.0 }, "dt");
  const double tlim = ctx.pick({ 3600.0, 10800.5, 86400.0, 200000.0 }, "tlim");
  const int ndt = ctx.pick({ 0, 2, 13, 60, 1000, 100000 }, "ndt");
  if (tlim / dt > (ctx.thorough ? 300000 : 30000)) ctx.prune();
  const int what = ctx.choose(3, "what");
  if (what == 0) {
    u.cur = 2;
    checkRest(ctx, u, tlim, dt, ndt, false);
  } else {
    Par p;
    p.I = what == 1 ? -1.0 : 1.0;
    p.vlim = p.I < 0 ? 4 : 3;
    p.dt = dt, p.tlim = tlim, p.ndt = ndt, p.diag = false;
    const auto s = runCC(ctx, u, p);
    ctx.check(s == Status::ReachedTimeLimit, "P14/status", p.str() + fmt(": %s", stName(s)));
    ctx.near(u.clock, tlim, "P15/time", p.str() + ": the time that was asked for", 1e-11, 1e-8);
  }
  ctx.state({ u.clock, dt, double(ndt) });
  ctx.cover("hours and days");
}
static void restFaults(Ctx &ctx)
{
  auto c = build(ctx.pick<std::string>({ "B50", "p(B50,B60)", "s(E40,E60)" }, "unit"));
  blockAll(c.get(), true);
  SpySU u(c.get());
  const int where = ctx.choose(40, "fault at");
  if (ctx.flag("refuse")) u.failCurAt = where;
  else u.failStepAt = where;
  checkRest(ctx, u, ctx.pick({ 5.0, 60.0, 200.0 }, "tlim"), ctx.pick({ 1.0, 3.0 }, "dt"), ctx.pick({ 0, 4 }, "ndt"), true);
}

// ---- real units ---------------------------------------------------------------------
static void realCC(Ctx &ctx)
{
  static const std::vector<std::string> q{ "B50", "E50", "F30", "M50", "s(B50,B50)", "s(E40,E60)", "p(B50,B60)", "p(E50,E50x8)", "s(p(E50,E50),E50)", "s(M50,M60)", "p(s(B40,B50),s(B60,B50))~1" };
  static const std::vector<std::string> t{ "p(M50,M55)", "b2x3:s(E50,E50)", "s(p(M50,M50),M50)", "p(s(E50,E55),s(E60,E50))", "F90", "M95", "M5", "E3", "E98" };
  std::vector<std::string> L = q;
  if (ctx.thorough) L.insert(L.end(), t.begin(), t.end());
  const auto ex = ctx.pick(L, "unit");
  auto c = build(ex);
  blockAll(c.get(), true);
  c->setCurrent(0, false, false);
  const double cap = c->Cap(), vmax = c->Vmax(), vmin = c->Vmin();
  Par p;
  p.I = cap * ctx.pick({ -1.0, 1.0, -0.3, 2.0, 0.0, -2.0 }, "C-rate");
  const int kv = ctx.choose(5, "vlim");
  const double v0 = c->V();
  // a limit close by (reached soon), the unit's own limit, one beyond it, one on the wrong side
  p.vlim = kv == 0 ? v0 + (p.I < 0 ? 0.05 : -0.05) * vmax / 4.2 : kv == 1 ? (p.I < 0 ? vmax : vmin) : kv == 2 ? (p.I < 0 ? vmax + 100 : vmin - 100) : kv == 3 ? v0 + (p.I < 0 ? -0.5 : 0.5) : v0 + (p.I < 0 ? 0.15 : -0.15) * vmax / 4.2;
  p.dt = ctx.pick({ 2.0, 5.0, 0.7 }, "dt");
  p.tlim = ctx.pick(ctx.thorough ? std::vector<double>{ 0.0, 7.0, 31.3, 600.0, 3600.0 } : std::vector<double>{ 7.0, 101.3 }, "tlim");
  p.ndt = ctx.pick({ 0, 3 }, "ndt");
  p.diag = ctx.flag("diagnostic");
  std::unique_ptr<StorageUnit> ref(c->copy());
  SpySU u(c.get());
  auto lv = leaves(c.get());
  std::vector<double> t0;
  for (auto x : lv) t0.push_back(x->getThroughputs().time());
  const Status s = runCC(ctx, u, p);
  const double T = u.clock;
  for (size_t i = 0; i < lv.size(); i++)
    ctx.near(lv[i]->getThroughputs().time() - t0[i], T, "P15/cell-time", p.str() + " on " + ex + ": the clock of a cell", 1e-9, 1e-7);
  // reference: the same time in single steps
  if (T == 0 || isStatusBad(s)) return;
  std::vector<double> steps;
  for (auto &e : u.log)
    if (e.k == Ev::Step)
      for (int i = 0; i < e.n; i++) steps.push_back(e.a);
  ref->setCurrent(p.I, false, false);
  double worst = 0;
  for (size_t i = 0; i < steps.size(); i++) {
    if (i) ref->setCurrent(p.I, false, false);
    ref->timeStep_CC(steps[i], 1);
    (void)worst;
  }
  const bool par = ex.find('p') != std::string::npos;
  ctx.near(c->V(), ref->V(), "P14/course", p.str() + " on " + ex + ": the voltage at the end against an independent simulation in single steps", par ? 2e-3 : 1e-7, 1e-9);
  ctx.state({ c->V(), T, c->I() });
  ctx.cover("real course");
}
// a staged charge of a real unit: the second, lower stage charges on until the limit is reached again
static void realStages(Ctx &ctx)
{
  const auto ex = ctx.pick<std::string>({ "E50", "F60", "M80", "s(E50,E60)", "p(E50,E50)" }, "unit");
  auto c = build(ex);
  blockAll(c.get(), true);
  c->setCurrent(0, false, false);
  SpySU u(c.get());
  const double cap = c->Cap(), v = c->V();
  const int sg = ctx.pick({ -1, 1 }, "direction");
  const double vl = v - sg * ctx.pick({ 0.06, 0.1 }, "limit") * c->Vmax() / 4.2;
  const double dt = ctx.pick({ 2.0, 1.0 }, "dt");
  double prev = 9;
  for (double f : { 2.0, 1.0, 0.5, 0.1 }) {
    Par p{ sg * cap * f, vl, 3000, dt, ctx.choose(2, "ndt"), false };
    runCC(ctx, u, p);
    prev = f;
  }
  (void)prev;
  ctx.cover("real stages");
}

int main(int argc, char **argv)
{
  return H::main_(argc, argv, { { "environment", envCC }, { "faults", envFaults }, { "stages", envStages }, { "clocks", clocks }, { "long", longRuns }, { "rest", envRest }, { "rest-faults", restFaults }, { "real", realCC }, { "real-stages", realStages } });
}
