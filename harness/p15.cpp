// P14, P15 - constant voltage and CCCV: the voltage is held, the phase ends at the first limit,
// the books are exact.  Real Cycler against a nondeterministic environment, with faults, and on
// real units.
#include "cycenv.hpp"
using namespace H;

struct Par
{
  double V, Ilim, tlim, dt;
  int ndt;
  std::string str() const { return fmt("CV(Vset=%g, Ilim=%g, tlim=%.17g, dt=%.17g, ndt=%d)", V, Ilim, tlim, dt, ndt); }
};
static bool near_(double v, double vset)
{
  const double d = std::abs(v - vset);
  return d < settings::MODULE_P_V_ABSTOL || d / vset < settings::MODULE_P_V_RELTOL;
}
static bool unsafe(double V, const StorageUnit &u) { return V > 1.01 * u.VMAX() || V < 0.99 * u.VMIN(); }

struct Books
{
  double t0, Ah0, lo0, hi0;
  Books(LogSU &u) : t0(u.clock), Ah0(u.Ah), lo0(u.WhLo), hi0(u.WhHi) {}
  void check(Ctx &ctx, LogSU &u, const ThroughputData &th_, double a, double b, double c, const std::string &w)
  {
    auto th = th_;
    ctx.near(th.time() - a, u.clock - t0, "P15/time", w + ": reported time against the time the unit lived through", 1e-9, 1e-7);
    ctx.near(th.Ah() - b, u.Ah - Ah0, "P15/charge", w + ": reported charge against the charge through the unit", 1e-6, 1e-9);
    const double lo = u.WhLo - lo0, hi = u.WhHi - hi0, g = th.Wh() - c;
    ctx.check(g >= lo - 1e-6 * (std::abs(lo) + 1e-3) && g <= hi + 1e-6 * (std::abs(hi) + 1e-3), "P15/energy", w + fmt(": reported energy %.12g Wh, the unit delivered between %.12g and %.12g", g, lo, hi));
  }
};

static void stores(Ctx &ctx, LogSU &u, size_t from, int ndt, double dt, double t0, bool endNeeded, const std::string &w)
{
  double last = -1;
  int n = 0;
  for (size_t i = from; i < u.log.size(); i++)
    if (u.log[i].k == Ev::Store) {
      if (n == 0) ctx.check(u.log[i].t == t0, "P18/data", w + ": the first data point is not at the start");
      else
        ctx.check(u.log[i].t - last <= ndt * dt * (1 + 1e-9), "P18/data", w + ": a gap between data points");
      last = u.log[i].t;
      n++;
    }
  if (ndt <= 0) {
    ctx.check(n == 0, "P18/data", w + ": data points were stored although none were asked for");
    return;
  }
  ctx.check(n > 0, "P18/data", w + ": no data point");
  ctx.check(u.clock - last <= ndt * dt * (1 + 1e-9), "P18/data", w + ": data points are missing at the end");
  if (endNeeded) ctx.check(last == u.clock, "P18/data", w + ": no data point at the end");
}

// what a CV phase which starts at log position `from` has to do; returns the acceptable results
static void checkCV(Ctx &ctx, LogSU &u, size_t from, const Par &p, double Vb, double Ib, double t0, Status s, bool threw, const std::string &w)
{
  ctx.check(!threw, "P14/throw", w + fmt(": an exception after %.17g s", u.clock - t0));
  const double T = u.clock - t0;
  ctx.check(T <= p.tlim * (1 + 1e-12) + 1e-9, "P14/timelimit", w + fmt(": went on for %.17g s", T));
  const Ev *lastStep = nullptr, *lastSet = nullptr;
  bool fresh = false;
  bool acts = false;
  for (size_t i = from; i < u.log.size(); i++) {
    auto &e = u.log[i];
    if (e.k == Ev::SetV) {
      acts = true;
      ctx.check(e.a == p.V, "P14/voltage", w + fmt(": asked for %.17g V", e.a));
      if (lastSet) ctx.check(!isStatusBad(lastSet->st), "P14/refused", w + ": went on after the voltage could not be set");
      lastSet = &e;
      fresh = true;
    }
    if (e.k == Ev::Step) {
      acts = true;
      ctx.check(fresh, "P14/voltage", w + fmt(": a step at %.17g s without setting the voltage", e.t - t0));
      ctx.check(!isStatusBad(lastSet->st), "P14/refused", w + fmt(": the voltage could not be set (%s), and the simulation goes on at %.6g V instead of %.6g V", stName(lastSet->st), e.V0, p.V));
      ctx.check(near_(e.V0, p.V), "P14/voltage", w + fmt(": a step was started at %.17g V", e.V0));
      fresh = false;
      ctx.check(e.a * e.n > 0 && e.a * e.n <= p.dt * (1 + 1e-9), "P14/step", w + fmt(": %d steps of %.17g s", e.n, e.a));
      if (lastStep) {
        auto &l = *lastStep;
        ctx.check(!l.threw, "P14/fault", w + ": went on after a failed time step");
        ctx.check(!(std::abs(l.I1) < p.Ilim && near_(l.V1, p.V)), "P14/stop", w + fmt(": went on at %.6g A, %.6g V", l.I1, l.V1));
        ctx.check(std::abs(l.I1) >= 1e-6, "P14/stop", w + fmt(": went on at a current of %.3g A", l.I1));
        ctx.check(!unsafe(l.V1, u), "P14/safety", w + fmt(": went on at %.6g V", l.V1));
      }
      lastStep = &e;
    }
  }
  const bool already = std::abs(Ib) < p.Ilim && near_(Vb, p.V);
  if (already) {
    ctx.check(s == Status::ReachedCurrentLimit && T == 0, "P14/already", w + fmt(": at the limit from the start, but %s after %.6g s", stName(s), T));
    stores(ctx, u, from, p.ndt, p.dt, t0, false, w);
    ctx.cover("already there");
    return;
  }
  if (lastSet && isStatusBad(lastSet->st)) {
    ctx.check(isStatusBad(s), "P14/refused", w + fmt(": the voltage could not be set (%s), the result is %s", stName(lastSet->st), stName(s)));
    stores(ctx, u, from, p.ndt, p.dt, t0, true, w);
    ctx.cover("voltage refused");
    return;
  }
  if (!lastStep) {
    ctx.check(p.tlim <= 0, "P14/stop", w + fmt(": nothing happened, %s", stName(s)));
    ctx.check(s == Status::ReachedTimeLimit, "P14/status", w + fmt(": no time allowed, %s", stName(s)));
    ctx.cover("no time");
    (void)acts;
    return;
  }
  auto &l = *lastStep;
  if (l.threw) {
    ctx.check(s == Status::timeStep_CC_failed, "P14/fault", w + fmt(": a time step failed, the result is %s", stName(s)));
    ctx.cover("failed step");
    return;
  }
  std::set<Status> ok;
  if (T >= p.tlim * (1 - 1e-12) - 1e-9) ok.insert(Status::ReachedTimeLimit);
  if (std::abs(l.I1) < p.Ilim && near_(l.V1, p.V)) ok.insert(Status::ReachedCurrentLimit);
  else if (std::abs(l.I1) < p.Ilim / 10 * (1 + 1e-12) || std::abs(l.I1) < 1e-6)
    ok.insert(Status::ReachedSmallCurrent);
  if (unsafe(l.V1, u)) {
    ok = { l.V1 > u.VMAX() ? Status::VMAXsafety_violation : Status::VMINsafety_violation };
    ctx.cover("safety");
  }
  ctx.check(ok.count(s) > 0, "P14/status", w + fmt(": stopped after %.17g s at %.9g V, %.9g A; the result is %s", T, l.V1, l.I1, stName(s)));
  stores(ctx, u, from, p.ndt, p.dt, t0, true, w);
  ctx.cover(stName(s));
}

static Status runCV(Ctx &ctx, LogSU &u, const Par &p)
{
  Cycler cyc(&u, "mc");
  ThroughputData th{};
  th.time() = 1000;
  th.Ah() = 7;
  th.Wh() = 21;
  u.log.clear();
  Books b(u);
  const double Vb = u.V(), Ib = u.I(), t0 = u.clock;
  ctx.step("%s from V=%g I=%g", p.str().c_str(), Vb, Ib);
  Status s{};
  bool threw = false;
  try {
    s = cyc.CV(p.V, p.Ilim, p.tlim, p.dt, p.ndt, th);
  } catch (int) {
    threw = true;
  }
  ctx.note("-> %s t=%.17g", stName(s), u.clock - t0);
  checkCV(ctx, u, 0, p, Vb, Ib, t0, s, threw, p.str());
  b.check(ctx, u, th, 1000, 7, 21, p.str());
  return s;
}

static void envCV(Ctx &ctx)
{
  EnvSU u(ctx);
  Par p;
  p.V = 4.0;
  p.Ilim = 0.5;
  p.dt = ctx.pick({ 1.0, 2.5 }, "dt");
  p.tlim = p.dt * ctx.pick({ 0.0, 0.5, 1.0, 2.5, 3.0 }, "steps");
  p.ndt = ctx.pick({ 0, 1, 2 }, "ndt");
  u.levels = { 4.0, 4.005, 3.7, 4.35, 1.9 };
  u.cvCurrents = { -2, -0.3, -0.04, -1e-7, 1.5 };
  u.v = ctx.pick({ 4.0, 3.5 }, "V before");
  u.cur = ctx.pick({ 0.0, -3.0 }, "I before");
  runCV(ctx, u, p);
  ctx.state({ u.clock, u.cur, u.v });
}
static void envFaults(Ctx &ctx)
{
  EnvSU u(ctx);
  Par p;
  p.V = ctx.pick({ 4.0, 3.0 }, "Vset");
  p.Ilim = 0.5;
  p.dt = 2;
  p.tlim = p.dt * ctx.pick({ 1.0, 3.5, 6.0 }, "steps");
  p.ndt = ctx.pick({ 0, 2 }, "ndt");
  u.levels = { p.V, p.V - 0.3 };
  u.cvCurrents = { -2, 1 };
  u.mayThrow = u.mayRefuse = true;
  runCV(ctx, u, p);
  ctx.state({ u.clock, u.cur, u.v });
}
static void clocks(Ctx &ctx)
{
  EnvSU u(ctx);
  Par p;
  p.V = 4;
  p.Ilim = 0.5;
  p.dt = ctx.pick({ 0.1, 0.2, 0.3, 0.7, 1.0, 1.0 / 3, 2.5, 5.0, 0.01, 0.05 }, "dt");
  const int k = ctx.choose(ctx.thorough ? 500 : 200, "tlim") + 1;
  p.tlim = k * ctx.pick({ 0.1, 1.0, 0.37, 1.0 / 7 }, "unit");
  p.ndt = ctx.pick({ 0, 3 }, "ndt");
  if (p.tlim / p.dt > 3000) ctx.prune();
  u.levels = { 4.0 };
  u.cvCurrents = { -2 };
  const auto s = runCV(ctx, u, p);
  ctx.check(s == Status::ReachedTimeLimit, "P14/status", p.str() + fmt(": %s", stName(s)));
  ctx.near(u.clock, p.tlim, "P15/time", p.str() + ": the time that was asked for", 1e-12, 1e-9);
  ctx.cover("odd clocks");
}

static void longHolds(Ctx &ctx) // hours and days
{
  EnvSU u(ctx);
  Par p;
  p.V = 4;
  p.Ilim = 0.5;
  p.dt = ctx.pick({ 1.0, 0.7, 7.3, 60.0 }, "dt");
  p.tlim = ctx.pick({ 3600.0, 10800.5, 86400.0, 200000.0 }, "tlim");
  p.ndt = ctx.pick({ 0, 2, 13, 1000, 100000 }, "ndt");
  if (p.tlim / p.dt > (ctx.thorough ? 300000 : 30000)) ctx.prune();
  u.levels = { 4.0 };
  u.cvCurrents = { -2 };
  const auto s = runCV(ctx, u, p);
  ctx.check(s == Status::ReachedTimeLimit, "P14/status", p.str() + fmt(": %s", stName(s)));
  ctx.near(u.clock, p.tlim, "P15/time", p.str() + ": the time that was asked for", 1e-11, 1e-8);
  ctx.cover("hours and days");
}

// ---- CCCV on the environment ---------------------------------------------------------
static void runCCCV(Ctx &ctx, LogSU &u, double I, double Vset, double Ilim, double tlim, double dt, int ndt, bool env)
{
  const std::string w = fmt("CCCV(I=%g, Vset=%g, Ilim=%g, tlim=%g, dt=%g, ndt=%d)", I, Vset, Ilim, tlim, dt, ndt);
  Cycler cyc(&u, "mc");
  ThroughputData th{};
  u.log.clear();
  Books b(u);
  const double Ib = u.I(), t0 = u.clock;
  ctx.step("%s from V=%g I=%g", w.c_str(), u.V(), Ib);
  Status s{};
  bool threw = false;
  try {
    s = tlim < 0 ? cyc.CCCV(I, Vset, Ilim, dt, ndt, th) : cyc.CCCV_with_tlim(I, Vset, Ilim, tlim, dt, ndt, th);
  } catch (int) {
    threw = true;
  }
  ctx.note("-> %s t=%.17g", stName(s), u.clock - t0);
  ctx.check(!threw, "P14/throw", w + ": an exception");
  const double T = u.clock - t0;
  if (Vset < u.Vmin() || Vset > u.Vmax()) {
    ctx.check(s == Status::Invalid_Vset && T == 0 && u.I() == Ib, "P14/vset", w + fmt(": a voltage outside the range; %s, %g s, %g A", stName(s), T, u.I()));
    ctx.cover("invalid voltage");
    return;
  }
  if (tlim >= 0) ctx.check(T <= tlim * (1 + 1e-12) + 1e-9, "P14/timelimit", w + fmt(": went on for %.17g s", T));
  b.check(ctx, u, th, 0, 0, 0, w);
  // phases: rest voltage, then constant current of the right sign, then constant voltage
  size_t i = 0;
  double voc = -1;
  while (i < u.log.size() && !(u.log[i].k == Ev::SetI)) i++;
  if (i < u.log.size()) {
    ctx.check(u.log[i].a == 0, "P14/cccv", w + ": does not start from the voltage without current");
    voc = u.log[i].V1;
    if (isStatusFailed(u.log[i].st)) {
      ctx.check(T == 0 && isStatusFailed(s), "P14/cccv", w + fmt(": no voltage without current, but %s after %g s", stName(s), T));
      return;
    }
  }
  const double want = (voc > Vset ? 1.0 : -1.0) * std::abs(I);
  size_t cv = u.log.size();
  bool ccDone = false;
  const Ev *last = nullptr;
  for (size_t j = i + 1; j < u.log.size(); j++) {
    auto &e = u.log[j];
    if (e.k == Ev::SetV) {
      if (cv == u.log.size()) cv = j;
    } else if (e.k == Ev::SetI && cv == u.log.size()) {
      if (!(e.a == want)) ctx.check(e.a == e.I0 || e.a == 0, "P14/cccv", w + fmt(": a constant current of %.17g A, expected %.17g A", e.a, want));
    } else if (e.k == Ev::Step && cv == u.log.size()) {
      ctx.near(e.I0, want, "P14/cccv", w + ": current of the constant current phase", 1e-9, 1e-9);
      last = &e;
    } else if (cv != u.log.size() && e.k == Ev::SetI)
      ctx.fail("P14/cccv", w + ": back to constant current");
  }
  (void)ccDone;
  if (last && cv != u.log.size()) ctx.cover("both phases");
  // the voltage-hold phase
  std::set<Status> ok{ Status::ReachedCurrentLimit, Status::ReachedTimeLimit, Status::ReachedSmallCurrent };
  const double lim = std::abs(Ilim);
  if (s == Status::ReachedCurrentLimit) {
    ctx.check(std::abs(u.I()) < lim, "P14/status", w + fmt(": the current limit is reported at %.9g A", u.I()));
    ctx.check(near_(u.V(), Vset), "P14/status", w + fmt(": the current limit is reported at %.9g V", u.V()));
    ctx.cover("cccv complete");
  } else if (s == Status::ReachedTimeLimit) {
    ctx.near(T, tlim, "P14/status", w + ": the time limit is reported", 1e-9, 1e-6);
    ctx.cover("cccv time");
  } else if (!env && s == Status::ReachedSmallCurrent)
    ctx.check(std::abs(u.I()) < std::max(lim / 10, 1e-6) * (1 + 1e-9), "P14/status", w + fmt(": small current is reported at %.9g A", u.I()));
  if (cv != u.log.size()) {
    // every step in the hold phase starts at the set voltage
    bool fresh = false, bad = false;
    for (size_t j = cv; j < u.log.size(); j++) {
      auto &e = u.log[j];
      if (e.k == Ev::SetV) {
        ctx.check(e.a == Vset, "P14/voltage", w + ": another voltage");
        fresh = true;
        bad = isStatusBad(e.st);
      } else if (e.k == Ev::Step) {
        ctx.check(fresh && !bad, "P14/refused", w + ": a step of the hold phase although the voltage was not set");
        ctx.check(near_(e.V0, Vset), "P14/voltage", w + fmt(": a step of the hold phase started at %.9g V", e.V0));
        fresh = false;
      }
    }
    if (bad) ctx.check(isStatusBad(s), "P14/refused", w + fmt(": the voltage could not be set, the result is %s", stName(s)));
  }
}
static void envCCCV(Ctx &ctx)
{
  EnvSU u(ctx);
  const double Vset = ctx.pick({ 4.0, 3.0, 4.25, 2.6, 4.2, 2.7 }, "Vset");
  const double I = ctx.pick({ 1.0, -1.0 }, "I"), Ilim = ctx.pick({ 0.5, -0.5 }, "Ilim");
  const double dt = 2, tlim = dt * ctx.pick({ 0.0, 1.0, 2.5, 4.0 }, "steps");
  const int ndt = ctx.pick({ 0, 2 }, "ndt");
  u.levels = { 3.5, Vset, Vset + 0.05, Vset - 0.05 };
  u.levelsSet = { 3.5, Vset + 0.3, Vset - 0.3 };
  u.cvCurrents = { -2, 0.3, 0.01 };
  u.v = 3.5;
  u.cur = ctx.pick({ 0.0, 2.0 }, "I before");
  runCCCV(ctx, u, I, Vset, Ilim, tlim, dt, ndt, true);
  ctx.state({ u.clock, u.cur, u.v });
}

// ---- real units ------------------------------------------------------------------------
static std::vector<std::string> units(Ctx &ctx)
{
  std::vector<std::string> L{ "B50", "E50", "F30", "M50", "E95", "E5", "s(E50,E50)", "p(E50,E60)", "p(E50,E50x8)", "s(p(E50,E50),E50)", "s(M50,M50)", "p(s(E40,E45),s(E50,E50))~1" };
  if (ctx.thorough) L.insert(L.end(), { "p(M50,M55)", "b2x3:s(E50,E50)", "s(p(M50,M50),M50)", "M95", "M5", "F90", "s(E50,E50x12)", "s(E40,E50)" });
  return L;
}
static void realCV(Ctx &ctx)
{
  const auto ex = ctx.pick(units(ctx), "unit");
  auto c = build(ex);
  blockAll(c.get(), true);
  c->setCurrent(0, false, false);
  SpySU u(c.get());
  const double v = c->V(), vm = c->Vmax() / 4.2, cap = c->Cap();
  Par p;
  p.V = v + vm * ctx.pick({ 0.0, 0.02, -0.02, 0.1, -0.1, 0.4, -0.4, 2.0 }, "Vset");
  p.Ilim = cap * ctx.pick({ 0.01, 0.2 }, "Ilim");
  p.dt = ctx.pick({ 5.0, 1.3 }, "dt");
  p.tlim = ctx.pick(ctx.thorough ? std::vector<double>{ 21.7, 900, 7200 } : std::vector<double>{ 21.7, 600 }, "tlim");
  p.ndt = ctx.pick({ 0, 3 }, "ndt");
  runCV(ctx, u, p);
  ctx.state({ c->V(), c->I(), u.clock });
  ctx.cover("real hold");
}
static void realCCCV(Ctx &ctx)
{
  const auto ex = ctx.pick(units(ctx), "unit");
  auto c = build(ex);
  blockAll(c.get(), true);
  c->setCurrent(0, false, false);
  SpySU u(c.get());
  const double v = c->V(), vm = c->Vmax() / 4.2, cap = c->Cap();
  const int kv = ctx.choose(6, "Vset");
  const double Vset = kv == 0 ? v + 0.05 * vm : kv == 1 ? v - 0.05 * vm : kv == 2 ? c->Vmax() : kv == 3 ? c->Vmin() : kv == 4 ? c->Vmax() + 0.01 : c->Vmin() - 0.01;
  const double I = cap * ctx.pick({ 1.0, -0.5 }, "C-rate"), Ilim = cap * ctx.pick({ 0.05, -0.3 }, "Ilim");
  const double tl = ctx.pick({ 60.0, 4000.0, -1.0 }, "tlim");
  if (ctx.flag("from a running current")) c->setCurrent(cap * 0.2, false, false);
  if (tl < 0 && kv >= 4) ctx.prune();
  runCCCV(ctx, u, I, Vset, Ilim, tl, 5, ctx.pick({ 0, 4 }, "ndt"), false);
  // a full CCCV of a single cell completes
  if (tl < 0 && ex.find('(') == std::string::npos && Vset >= c->Vmin() && Vset <= c->Vmax()) {
    ctx.near(c->V(), Vset, "P14/complete", ex + ": the voltage after a complete CCCV", 0, 0.011);
    ctx.check(std::abs(c->I()) < std::abs(Ilim), "P14/complete", ex + ": the current after a complete CCCV");
    ctx.cover("complete");
  }
  ctx.state({ c->V(), c->I(), u.clock });
}
// faults at every call of a CCCV of a real unit
static void realFaults(Ctx &ctx)
{
  const auto ex = ctx.pick<std::string>({ "E50", "p(E50,E60)", "s(E50,E60)" }, "unit");
  auto c = build(ex);
  blockAll(c.get(), true);
  c->setCurrent(0, false, false);
  SpySU u(c.get());
  const int k = ctx.choose(ctx.thorough ? 120 : 60, "fault at");
  if (ctx.flag("step")) u.failStepAt = k;
  else u.failCurAt = k;
  Par p{ c->V() + 0.05, c->Cap() * 0.05, 200, 5, ctx.pick({ 0, 3 }, "ndt") };
  runCV(ctx, u, p);
}

int main(int argc, char **argv)
{
  return H::main_(argc, argv, { { "environment", envCV }, { "faults", envFaults }, { "clocks", clocks }, { "long", longHolds }, { "cccv", envCCCV }, { "real-hold", realCV }, { "real-cccv", realCCCV }, { "real-faults", realFaults } });
}
