// P27 - ageing procedures run the documented schedule and report it truthfully.
// The procedure runs on one of two identical units; the documented schedule is carried out on
// the other one phase by phase with the cycler (which P14 and P15 decide).  What was done to the
// units, the states they end in and every file are compared.
#include "cycenv.hpp"
#include "procedures/Procedure.hpp"
#include <dirent.h>
#include <sstream>
using namespace H;

static bool TIMEDATA = settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData;
static bool same(double a, double b, double abs_ = 0) { return a == b || (std::isfinite(a - b) && std::abs(a - b) <= 1.2e-5 * std::max(std::abs(a), std::abs(b)) + abs_ + 1e-300) || (std::isnan(a) && std::isnan(b)); }

static std::vector<std::string> listDir(const std::string &d)
{
  std::vector<std::string> v;
  if (auto h = opendir(d.c_str())) {
    while (auto e = readdir(h))
      if (e->d_name[0] != '.') v.push_back(e->d_name);
    closedir(h);
  }
  std::sort(v.begin(), v.end());
  return v;
}
static std::string resDir() { return workerDir + "/results"; }
static void clean()
{
  for (auto &d : { resDir(), workerDir + "/a/b" })
    for (auto &f : listDir(d)) unlink((d + "/" + f).c_str());
}
static std::vector<std::string> lines(const std::string &name, bool &there)
{
  std::vector<std::string> v;
  std::ifstream in(resDir() + "/" + name);
  there = static_cast<bool>(in);
  std::string l;
  while (std::getline(in, l)) v.push_back(l);
  return v;
}
static std::vector<std::string> fields(const std::string &l)
{
  std::vector<std::string> v;
  std::stringstream s(l);
  std::string f;
  while (std::getline(s, f, ',')) v.push_back(f);
  return v;
}
static bool isNumber(const std::string &s)
{
  char *e;
  strtod(s.c_str(), &e);
  return !s.empty() && *e == 0;
}

// ------------------------------------------------------------- the schedule ----
struct Action
{
  int ID;
  double Ah, Wh, cool, loss;
};
struct CellRow
{
  std::string ID;
  std::vector<double> v; // variations, Ah, cycle, time, Ah, Wh, capacity, states without the concentrations
};
struct ModRow
{
  std::string ID;
  std::array<double, 4> v;
};
struct Report
{
  std::vector<Action> acts;
  std::vector<CellRow> ups;
  int nups{ 0 };
  std::vector<ModRow> mods;
  std::vector<double> lastStates; // at the start of the last cycle
  int lastCycle{ -1 };
  double Ah{ 0 };
  int cycles{ 0 };
};
struct Plan
{
  int N{ 1 }, check{ 1 }, bal{ 1 };
  bool balance{ false }, CV{ false };
  double Ccha{ 1 }, Cdis{ 1 }, Vmax{ 4.1 }, Vmin{ 3.0 }, Vbal{ 3.65 };
  int ndata{ 0 };
};

static SU *inner(SU *u)
{
  if (auto s = dynamic_cast<SpySU *>(u)) return s->u;
  return u;
}
static void refRebalance(SU *u)
{
  if (auto m = asModule(u)) {
    for (auto k : children(m)) refRebalance(k);
    return;
  }
  if (!u || typeid(*u) != typeid(Cell_SPM)) return;
}
static std::vector<CellRow> rowsOf(SU *u, double Ah, int nr)
{
  std::vector<CellRow> r;
  for (auto c : leaves(u)) {
    CellRow x;
    x.ID = c->getFullID();
    for (auto v : c->getVariations()) x.v.push_back(v);
    x.v.push_back(Ah);
    x.v.push_back(nr);
    const auto t = c->getThroughputs();
    x.v.push_back(t.time()), x.v.push_back(t.Ah()), x.v.push_back(t.Wh());
    {
      std::unique_ptr<SU> y(c->copy());
      x.v.push_back(Cycler(y.get()).testCapacity());
    }
    std::vector<double> s;
    {
      std::unique_ptr<Cell> y(static_cast<Cell *>(c->copy()));
      const auto vs = y->viewStates();
      s.assign(vs.begin(), vs.end());
    }
    if (dynamic_cast<Cell_SPM *>(c)) s.erase(s.begin() + State_SPM::i_zp, s.begin() + State_SPM::i_rDCp);
    x.v.insert(x.v.end(), s.begin(), s.end());
    r.push_back(x);
  }
  return r;
}
static void modsOf(SU *u, std::vector<ModRow> &r)
{
  auto add = [&](auto *m) {
    auto c = m->getCoolSystem();
    r.push_back({ m->getFullID(), { static_cast<double>(leaves(m).size()), c->getTotalTime(), c->getHeatEvac(), c->getHeatabsorbed() } });
  };
  if (auto b = dynamic_cast<Battery *>(u)) {
    add(b);
    // what the battery counts as its cells is what is multiplied with it
    r.back().v[0] = static_cast<double>(b->getNcells());
    modsOf(b->getCells(), r);
  } else if (auto m = asModule(u)) {
    add(m);
    for (auto k : children(m)) modsOf(k, r);
  }
}
static void refPrep(SU *su)
{
  ThroughputData th{};
  Cycler(su, "pre-checkUp").setDiagnostic(true).CC(-su->Cap() / 25, 0.75 * su->Vmax() + 0.25 * su->Vmin(), TIME_INF, 2, 0, th);
}
static void refCheckUp(SU *su, Report &r, int nr)
{
  refPrep(su);
  if (inner(su) == su) {
    auto x = rowsOf(su, r.Ah, nr);
    r.ups.insert(r.ups.end(), x.begin(), x.end());
  }
  r.nups++;
}
static void loads(SU *su, double &cool, double &loss)
{
  cool = loss = 0;
  if (auto m = asModule(su)) cool = m->getCoolingLoad() / 3600;
  else if (auto b = dynamic_cast<Battery *>(su)) {
    cool = b->getCoolingLoad() / 3600;
    loss = b->getAndResetConvLosses() / 3600;
  }
}
// balancing of the twin: the same function; what it has to achieve is scenario 'rebalance'
static void balanceTwin(SU *su, const Plan &p, bool open)
{
  Procedure q(true, p.Vbal, p.ndata, true);
  su->setBlockDegAndTherm(true);
  q.rebalance(su);
  su->setBlockDegAndTherm(false);
  (void)open;
}
// the documented ageing experiment; lim is true when it has to go on after a phase that was ended
// by the voltage limit of one of the cells
static Report refCycleAge(SU *su, const Plan &p, bool lim)
{
  Report r;
  Cycler cyc(su, "cycleAge");
  cyc.setDiagnostic(true);
  const double dt = 2, Ilim = 0.1, Icha = -p.Ccha * su->Cap(), Idis = p.Cdis * su->Cap();
  auto act = [&](int ID, const std::function<Status(ThroughputData &)> &f, bool storeFailed, const std::function<bool(Status)> &ok) {
    ThroughputData th{};
    const auto st = f(th);
    r.Ah += th.Ah();
    if (ok(st) || storeFailed) {
      Action a{ ID, th.Ah(), th.Wh(), 0, 0 };
      loads(su, a.cool, a.loss);
      r.acts.push_back(a);
    }
    return std::pair<bool, double>{ ok(st), th.Ah() };
  };
  auto volt = [&](Status want) { return [=](Status s) { return s == Status::ReachedVoltageLimit || (lim && s == want); }; };
  auto curr = [](Status s) { return s == Status::ReachedCurrentLimit; };
  int i = 0;
  for (; i < p.N; i++) {
    r.lastCycle = i;
    for (auto c : leaves(inner(su))) c->V(); // the cached voltage is a state
    r.lastStates = statesOf(su);
    if (p.balance && i % p.bal == 0) balanceTwin(su, p, false);
    if (i % p.check == 0) {
      if (TIMEDATA && r.Ah > 0) su->writeData("cycleAge");
      refCheckUp(su, r, i);
    }
    auto a = act(1, [&](auto &th) { return cyc.CC(Icha, p.Vmax, TIME_INF, dt, p.ndata, th); }, false, volt(Status::Vmax_violation));
    if (!a.first || a.second < 1e-5) break;
    if (p.CV && !act(2, [&](auto &th) { return cyc.CV(p.Vmax, Ilim, TIME_INF, dt, p.ndata, th); }, false, curr).first) break;
    if (!act(3, [&](auto &th) { return cyc.CC(Idis, p.Vmin, TIME_INF, dt, p.ndata, th); }, true, volt(Status::Vmin_violation)).first) break;
    if (p.CV && !act(4, [&](auto &th) { return cyc.CV(p.Vmin, Ilim, TIME_INF, dt, p.ndata, th); }, false, curr).first) break;
  }
  r.cycles = i;
  refCheckUp(su, r, i);
  if (inner(su) == su) modsOf(su, r.mods);
  if (TIMEDATA) su->writeData("cycleAge");
  return r;
}

// ---------------------------------------------------------------- the files ----
static void cmpLog(Ctx &ctx, const SpySU &a, const SpySU &b, const std::string &w)
{
  const size_t n = std::min(a.log.size(), b.log.size());
  for (size_t i = 0; i < n; i++) {
    const auto &x = a.log[i], &y = b.log[i];
    if (x.k != y.k || x.n != y.n || x.st != y.st || x.threw != y.threw || !same(x.a, y.a) || !same(x.t, y.t) || !same(x.I1, y.I1, 1e-9) || !same(x.V1, y.V1))
      ctx.fail("P27/schedule", w + fmt(": step %zu differs from the schedule: kind %d value %g x%d -> %s at %g s (%g A), scheduled kind %d value %g x%d -> %s at %g s (%g A)", i, x.k, x.a, x.n, stName(x.st), x.t, x.I1, y.k, y.a, y.n, stName(y.st), y.t, y.I1));
  }
  ctx.check(a.log.size() == b.log.size(), "P27/schedule", w + fmt(": %zu steps instead of the scheduled %zu", a.log.size(), b.log.size()));
}
static void cmpThroughput(Ctx &ctx, const std::string &id, const Report &r, const std::string &w)
{
  bool there;
  auto l = lines(id + "_throughput.csv", there);
  ctx.check(there && !l.empty(), "P27/throughput", w + ": no throughput file");
  const auto head = fields(l[0]);
  ctx.check(head.size() == 5 && !isNumber(head[0]), "P27/throughput", w + ": header of the throughput file is " + l[0]);
  ctx.check(l.size() - 1 == r.acts.size(), "P27/throughput", w + fmt(": %zu actions in the throughput file, %zu were done", l.size() - 1, r.acts.size()));
  for (size_t i = 0; i < r.acts.size(); i++) {
    const auto f = fields(l[i + 1]);
    const auto &a = r.acts[i];
    const double v[] = { static_cast<double>(a.ID), a.Ah, a.Wh, a.cool, a.loss };
    if (f.size() != 5) ctx.fail("P27/throughput", w + fmt(": row %zu of the throughput file has %zu columns", i, f.size()));
    for (size_t k = 0; k < 5; k++)
      if (!same(std::stod(f[k]), v[k], k == 1 || k == 2 ? 1e-9 * (1 + r.Ah) : 1e-12)) ctx.fail("P27/throughput", w + fmt(": row %zu column %zu of the throughput file is %s, action %d had %.9g", i, k, f[k].c_str(), a.ID, v[k]));
  }
}
static void cmpCheckUps(Ctx &ctx, const std::string &id, const Report &r, const std::string &w)
{
  bool there;
  auto l = lines(id + "_checkUp.csv", there);
  ctx.check(there, "P27/checkup", w + ": no check-up file in the results");
  int heads = 0;
  size_t row = 0;
  for (auto &x : l) {
    if (x.empty()) continue;
    const auto f = fields(x);
    if (f[0] == "ID") {
      heads++;
      ctx.check(f.size() == 12 && f[6] == "CycleNumber", "P27/checkup", w + ": columns of the check-up file: " + x);
      continue;
    }
    if (row >= r.ups.size()) ctx.fail("P27/checkup", w + fmt(": more rows than the %zu check-ups of cells", r.ups.size()));
    const auto &c = r.ups[row];
    if (f[0] != c.ID) ctx.fail("P27/checkup", w + fmt(": row %zu is about ", row) + f[0] + " instead of " + c.ID);
    if (f.size() != c.v.size() + 1) ctx.fail("P27/checkup", w + fmt(": row %zu has %zu columns instead of %zu", row, f.size(), c.v.size() + 1));
    static const char *names[] = { "capacity variation", "resistance variation", "SEI variation", "LAM variation", "total Ah", "cycle number", "time", "Ah", "Wh", "measured capacity" };
    for (size_t k = 0; k < c.v.size(); k++)
      if (!same(std::stod(f[k + 1]), c.v[k], 1e-12)) ctx.fail("P27/checkup", w + fmt(": row %zu (%s): %s is %s instead of %.9g", row, c.ID.c_str(), k < 10 ? names[k] : fmt("state %zu", k - 10).c_str(), f[k + 1].c_str(), c.v[k]));
    row++;
  }
  ctx.check(row == r.ups.size(), "P27/checkup", w + fmt(": %zu rows, %zu cells were checked", row, r.ups.size()));
  ctx.check(heads >= 1 && heads <= r.nups, "P27/checkup", w + fmt(": %d headers for %d check-ups", heads, r.nups));
}
static void cmpMods(Ctx &ctx, const std::string &id, const Report &r, const std::string &w)
{
  bool there;
  auto l = lines(id + "_checkModules_overall.csv", there);
  ctx.check(there && l.size() == r.mods.size() + 1, "P27/modules", w + fmt(": %zu lines about %zu modules", l.size(), r.mods.size()));
  ctx.check(fields(l[0]).size() == 5, "P27/modules", w + ": header " + l[0]);
  for (size_t i = 0; i < r.mods.size(); i++) {
    const auto f = fields(l[i + 1]);
    if (f.size() != 5 || f[0] != r.mods[i].ID) ctx.fail("P27/modules", w + ": " + l[i + 1]);
    for (size_t k = 0; k < 4; k++)
      if (!same(std::stod(f[k + 1]), r.mods[i].v[k], 1e-9)) ctx.fail("P27/modules", w + fmt(": column %zu of %s is %s instead of %.9g", k + 1, f[0].c_str(), f[k + 1].c_str(), r.mods[i].v[k]));
  }
}
static void cmpState(Ctx &ctx, const std::string &id, const Report &r, const std::string &w)
{
  bool there;
  auto l = lines(id + "_state.csv", there);
  ctx.check(there == (r.lastCycle >= 0), "P27/state-file", w + ": state file");
  if (!there) return;
  ctx.check(l.size() == r.lastStates.size() + 1 && std::stoi(l[0]) == r.lastCycle, "P27/state-file", w + fmt(": %zu states of cycle ", l.size() - 1) + l[0] + fmt(" instead of %zu of cycle %d", r.lastStates.size(), r.lastCycle));
  // a voltage which is not known is stored as 0, whether it is known is not part of the experiment
  auto unknownV = [](double a, double b) { return a == 0 && b > 2 && b < 4.5; };
  for (size_t i = 0; i < r.lastStates.size(); i++)
    if (const double x = std::stod(l[i + 1]), y = r.lastStates[i]; !same(x, y, 1e-12) && !unknownV(x, y) && !unknownV(y, x)) ctx.fail("P27/state-file", w + fmt(": state %zu is %s instead of %.9g", i, l[i + 1].c_str(), r.lastStates[i]));
}
static void cmpUnits(Ctx &ctx, SU *a, SU *b, const std::string &w)
{
  for (auto c : leaves(a)) c->V();
  for (auto c : leaves(b)) c->V();
  const auto x = statesOf(a), y = statesOf(b);
  ctx.check(x.size() == y.size(), "P27/unit", w + ": number of states");
  for (size_t i = 0; i < x.size(); i++)
    if (!same(x[i], y[i], 1e-9)) ctx.fail("P27/unit", w + fmt(": state %zu of the unit is %.12g, following the schedule it is %.12g", i, x[i], y[i]));
  const auto la = leaves(a), lb = leaves(b);
  for (size_t i = 0; i < la.size(); i++) {
    auto s = dynamic_cast<Cell_SPM *>(la[i]), t = dynamic_cast<Cell_SPM *>(lb[i]);
    if (s && !same(s->getThroughputs().Ah(), t->getThroughputs().Ah())) ctx.fail("P27/unit", w + ": throughput of " + s->getFullID());
  }
}
// whether it ages (only cells with degradation models do)
static bool ages(Cell_SPM *c)
{
  std::unique_ptr<Cell_SPM> y(static_cast<Cell_SPM *>(c->copy()));
  const double d = y->getStateObj().delta();
  y->setCurrent(-0.5 * y->Cap(), false, false);
  for (int i = 0; i < 5; i++) y->timeStep_CC(2, 5);
  return y->getStateObj().delta() > d;
}
static std::vector<std::string> cellFiles()
{
  std::vector<std::string> v;
  for (auto &f : listDir(resDir()))
    if (f.find("cellData") != std::string::npos) v.push_back(f);
  return v;
}

// ------------------------------------------------------------ scenario: schedule ----
// the sequence of actions, for every combination of settings, with and without faults
static void schedule(Ctx &ctx)
{
  clean();
  Plan p;
  p.N = ctx.choose(ctx.thorough ? 6 : 5, "cycles");
  p.check = ctx.pick({ 1, 2, 3, 7 }, "check-up every");
  p.CV = ctx.flag("CV");
  p.Ccha = ctx.pick({ 1.0, 0.5 }, "C rate of the charge");
  p.Cdis = ctx.pick({ 1.0, 2.0 }, "C rate of the discharge");
  const std::string e = ctx.pick({ std::string("M50"), std::string("E60"), std::string("s(M50,M60)") }, "unit");
  const double k = e[0] == 's' ? 2 : 1;
  p.Vmax = k * ctx.pick({ 4.1, 4.0 }, "upper voltage");
  p.Vmin = k * 3.1;
  p.ndata = ctx.pick({ 0, 400 }, "record every");
  if (k == 2 && p.CV) ctx.prune(); // a voltage is held by single cells only
  if (!ctx.thorough && e != "M50" && (p.check == 3 || p.ndata || p.Ccha != 1)) ctx.prune();
  if (!ctx.thorough && p.N == 4 && (p.Vmax / k < 4.05 || p.Cdis != 1)) ctx.prune();
  auto u1 = build(e), u2 = build(e);
  SpySU a(u1.get()), b(u2.get());
  const auto w = e + fmt(" N %d check %d CV %d %g/%gC to %g V ndata %d", p.N, p.check, p.CV, p.Ccha, p.Cdis, p.Vmax, p.ndata);
  const auto r = refCycleAge(&b, p, false);
  const bool loud = ctx.flag("not a unit test");
  Procedure q(false, p.Vbal, p.ndata, !loud);
  q.cycleAge(&a, p.N, p.check, 1, p.CV, p.Ccha, p.Cdis, p.Vmax, p.Vmin);
  ctx.step("%s: %d cycles, %zu actions, %d check-ups, %g Ah", w.c_str(), r.cycles, r.acts.size(), r.nups, r.Ah);
  if (r.cycles == p.N) ctx.cover("all cycles done");
  cmpLog(ctx, a, b, w);
  cmpThroughput(ctx, a.getFullID(), r, w);
  cmpCheckUps(ctx, a.getFullID(), r, w);
  if (loud) cmpState(ctx, a.getFullID(), r, w);
  else ctx.check(access((resDir() + "/" + a.getFullID() + "_state.csv").c_str(), F_OK) != 0, "P27/state-file", w + ": state file in a unit test");
  ctx.state({ a.clock, a.Ah, a.V(), static_cast<double>(p.N), static_cast<double>(p.check) }, std::hash<std::string>{}(w));
  ctx.cover(p.CV ? "schedule with CV" : "schedule");
  if (p.N > p.check) ctx.cover("check-ups in between");

  // a second experiment with the same procedure starts from scratch
  if (p.N == 2 && p.check == 2 && !p.ndata) {
    Plan p2 = p;
    p2.N = 1;
    const auto r2 = refCycleAge(&b, p2, false);
    q.cycleAge(&a, p2.N, p2.check, 1, p2.CV, p2.Ccha, p2.Cdis, p2.Vmax, p2.Vmin);
    cmpLog(ctx, a, b, w + " again");
    cmpThroughput(ctx, a.getFullID(), r2, w + " again");
    ctx.cover("second experiment");
  }
}

// an action fails, at any of the actions
static void failing(Ctx &ctx)
{
  clean();
  Plan p;
  p.N = 3;
  p.check = ctx.pick({ 1, 2 }, "check-up every");
  p.CV = ctx.flag("CV");
  p.ndata = ctx.pick({ 0, 300 }, "record every");
  const bool cur = ctx.flag("the current is refused, not the time step");
  // where the actions start, found in a run without faults
  std::vector<int> at;
  {
    auto u = build("M50");
    SpySU s(u.get());
    refCycleAge(&s, p, false);
    int ic = 0, is = 0;
    double last = NAN;
    bool lastV = false;
    for (auto &ev : s.log) {
      if (ev.k == Ev::SetI || ev.k == Ev::SetV) {
        const bool v = ev.k == Ev::SetV;
        if (v != lastV || (!v && ev.a != last)) at.push_back(cur ? ic : is);
        last = ev.a;
        lastV = v;
        ic++;
      } else if (ev.k == Ev::Step)
        is++;
    }
  }
  const int k = at[static_cast<size_t>(ctx.choose(static_cast<int>(at.size()), "action"))] + ctx.pick({ 0, 1, 25 }, "steps into it");
  auto u1 = build("M50"), u2 = build("M50");
  SpySU a(u1.get()), b(u2.get());
  (cur ? a.failCurAt : a.failStepAt) = k;
  (cur ? b.failCurAt : b.failStepAt) = k;
  const auto r = refCycleAge(&b, p, false);
  Procedure q(false, p.Vbal, p.ndata, true);
  const auto w = fmt("check %d CV %d ndata %d, %s %d fails", p.check, p.CV, p.ndata, cur ? "current" : "step", k);
  try {
    q.cycleAge(&a, p.N, p.check, 1, p.CV, p.Ccha, p.Cdis, p.Vmax, p.Vmin);
  } catch (...) {
    ctx.fail("P27/throws", w + ": the experiment does not survive a failing action");
  }
  ctx.step("%s: %d cycles, %zu actions, %d check-ups", w.c_str(), r.cycles, r.acts.size(), r.nups);
  cmpLog(ctx, a, b, w);
  cmpThroughput(ctx, a.getFullID(), r, w);
  cmpCheckUps(ctx, a.getFullID(), r, w);
  ctx.state({ a.clock, a.Ah, a.V(), static_cast<double>(k) });
  ctx.cover(r.cycles < p.N ? "stopped early" : "went on");
}

// ------------------------------------------------------------ scenario: packs ----
static void packs(Ctx &ctx)
{
  clean();
  Plan p;
  p.N = ctx.choose(3, "cycles");
  p.check = ctx.pick({ 1, 2 }, "check-up every");
  p.balance = ctx.flag("balance");
  p.bal = ctx.pick({ 1, 2 }, "balance every");
  p.Vbal = ctx.pick({ 3.65, 3.5 }, "balancing voltage");
  if (!p.balance && (p.bal != 1 || p.Vbal != 3.65)) ctx.prune();
  if (p.bal > p.N && p.bal != 1) ctx.prune();
  static const std::vector<std::string> es{ "M50", "G50", "s(M50,G40)~1", "p(M50,M50)~0.5", "b2x3:s(M50,M60)", "s(E50,M55)", "s(p(M50,M50),M50)~0.2^o", "D50", "b1x1:p(M45,M45)" };
  const auto e = ctx.pick(es, "unit");
  const bool single = e[0] != 's' && e[0] != 'p' && e[0] != 'b';
  p.CV = single && ctx.flag("CV");
  p.ndata = ctx.pick({ 0, 500 }, "record every");
  if (!ctx.thorough && p.ndata && (p.N != 2 || p.balance)) ctx.prune();
  if (!ctx.thorough && p.Vbal != 3.65 && (p.N != 1 || p.bal != 1)) ctx.prune();
  auto u1 = build(e), u2 = build(e);
  const double k = u1->Vmax() / 4.2;
  const double lo = 3.2 * k, hi = 4.0 * k;
  p.Vmax = hi;
  p.Vmin = lo;
  p.Ccha = p.Cdis = 0.5;
  const auto w = e + fmt(" N %d check %d balance %d/%d to %g CV %d ndata %d", p.N, p.check, p.balance, p.bal, p.Vbal, p.CV, p.ndata);
  const bool loud = ctx.flag("not a unit test");
  if (loud && !ctx.thorough && p.N != 1) ctx.prune();
  Procedure q(p.balance, p.Vbal, p.ndata, !loud);
  q.cycleAge(u1.get(), p.N, p.check, p.bal, p.CV, p.Ccha, p.Cdis, p.Vmax, p.Vmin);
  std::map<std::string, std::vector<std::string>> written;
  bool th;
  for (auto &f : cellFiles()) written[f] = lines(f, th), unlink((resDir() + "/" + f).c_str());
  const auto r = refCycleAge(u2.get(), p, false);
  ctx.step("%s: %d cycles, %zu actions, %d check-ups, %g Ah", w.c_str(), r.cycles, r.acts.size(), r.nups, r.Ah);
  if (r.cycles == p.N) ctx.cover("all cycles of a " + std::string(e[0] == 'b' ? "battery" : single ? "cell" : "pack"));
  cmpThroughput(ctx, u1->getFullID(), r, w);
  cmpCheckUps(ctx, u1->getFullID(), r, w);
  cmpMods(ctx, u1->getFullID(), r, w);
  if (loud) cmpState(ctx, u1->getFullID(), r, w);
  cmpUnits(ctx, u1.get(), u2.get(), w);
  // the recorded data of the cells
  auto files = cellFiles();
  ctx.check(files.size() == written.size(), "P27/cell-data", w + fmt(": %zu files with data of cells instead of %zu", written.size(), files.size()));
  for (auto &f : files) ctx.check(written.count(f) && lines(f, th) == written[f], "P27/cell-data", w + ": " + f + " differs");
  for (auto &f : listDir(workerDir + "/a/b")) ctx.fail("P27/elsewhere", w + ": " + f + " is not written in the results");
  for (auto c : leaves(u1.get()))
    if (auto s = dynamic_cast<Cell_SPM *>(c)) if (c->getID()[0] == 'g') ctx.check(ages(s), "P27/degradation", w + ": degradation stays off in " + c->getFullID());
  ctx.state({ r.Ah, u1->V(), static_cast<double>(r.nups) }, std::hash<std::string>{}(w));
  ctx.cover(e[0] == 'b' ? "battery" : single ? "cell" : "pack");
  if (p.balance && p.N) ctx.cover("balanced in between");
}

// ------------------------------------------------------------ scenario: rebalance ----
static void rebalance(Ctx &ctx)
{
  clean();
  static const std::vector<std::string> es{ "M%d", "G%d", "s(M%d,M%d)", "p(M%d,M%d)~1", "s(p(M%d,M%d),M%d)", "p(s(M%d,G%d),s(M%d,M%d))~2", "s(E%d,M%d,B%d)", "p(M%d)" };
  const auto e0 = ctx.pick(es, "unit");
  std::string e;
  const std::vector<int> socs{ 20, 50, 80 };
  for (size_t i = 0; i < e0.size(); i++)
    if (e0.compare(i, 2, "%d") == 0) {
      e += std::to_string(ctx.pick(socs, "soc"));
      i++;
    } else
      e += e0[i];
  const double V = ctx.pick({ 3.65, 3.3, 4.0 }, "balancing voltage");
  if (!ctx.thorough && V == 4.0 && e.size() > 12) ctx.prune();
  auto u = build(e);
  const auto whole = ctx.flag("through balanceCheckup");
  std::vector<std::vector<double>> before;
  std::vector<double> li;
  for (auto c : leaves(u.get())) {
    if (auto s = dynamic_cast<Cell_SPM *>(c)) li.push_back(s->getStateObj().LLI() + s->getStateObj().delta());
    before.push_back(statesOf(c));
  }
  Procedure q(true, V, 0, true);
  if (whole) q.balanceCheckup(u.get(), true, false, 0, 0, "x");
  else {
    u->setBlockDegAndTherm(true);
    const auto st = q.rebalance(u.get());
    ctx.check(isStatusSuccessful(st), "P27/balance", e + fmt(" to %g V: %s", V, stName(st)));
  }
  size_t k = 0, m = 0;
  double worst = 0;
  for (auto c : leaves(u.get())) {
    if (auto s = dynamic_cast<Cell_SPM *>(c)) {
      if (s->I() != 0) ctx.fail("P27/balance", e + fmt(" to %g V: %s carries %g A", V, c->getID().c_str(), s->I()));
      worst = std::max(worst, std::abs(s->V() - V));
      if (!(std::abs(s->V() - V) <= 2e-3)) ctx.fail("P27/balance", e + fmt(" to %g V: %s is at %g V", V, c->getID().c_str(), s->V()));
      if (s->getStateObj().LLI() + s->getStateObj().delta() != li[m++]) ctx.fail("P27/balance", e + ": balancing ages " + c->getID());
      if (whole && c->getID()[0] == 'g') ctx.check(ages(s), "P27/degradation", e + ": degradation stays off");
    } else
      ctx.check(statesOf(c) == before[k], "P27/balance", e + ": balancing touches " + c->getID());
    k++;
  }
  ctx.step("%s to %g V: within %g V", e.c_str(), V, worst);
  for (auto &f : listDir(resDir())) ctx.fail("P27/elsewhere", e + ": balancing writes " + f);
  ctx.state({ V }, std::hash<std::string>{}(e));
  ctx.cover("balanced");
}

// ------------------------------------------------------------ scenario: checkup ----
// one check-up of a unit in any situation, after every short history
static void checkup(Ctx &ctx)
{
  clean();
  static const std::vector<std::string> es{ "M50", "E50", "B50", "s(M50,B60,F40)~1", "p(s(M60,M60),s(M60,M60))~1", "b3x2:s(M50)" };
  const auto e = ctx.pick(es, "unit");
  auto u1 = build(e), u2 = build(e);
  const int n = ctx.choose(3, "steps");
  for (int i = 0; i < n; i++) {
    const double c = ctx.pick({ 0.7, -1.0, 0.0 }, "current");
    for (SU *u : { u1.get(), u2.get() }) {
      u->setCurrent(c * u->Cap(), false, false);
      for (int j = 0; j < 30; j++) u->timeStep_CC(2, 5);
    }
  }
  const double Ah = ctx.pick({ 0.0, 12.5 }, "throughput");
  const int nr = ctx.pick({ 0, 17 }, "cycle number");
  const int how = ctx.choose(2, "function");
  if (!ctx.thorough && (Ah > 0) != (nr > 0) && n == 2) ctx.prune();
  const auto w = e + fmt(" after %d steps, Ah %g, cycle %d, by %s", n, Ah, nr, how ? "balanceCheckup" : "checkUp");
  Procedure q(false, 3.65, 0, true);
  Report r;
  r.Ah = Ah;
  if (how) {
    q.balanceCheckup(u1.get(), false, true, Ah, nr, "pre");
    modsOf(u2.get(), r.mods);
    cmpMods(ctx, u1->getFullID(), r, w);
    ctx.check(Ah > 0 || cellFiles().empty(), "P27/cell-data", w + ": cycling data are written before there are any");
    if (TIMEDATA && Ah > 0) ctx.check(cellFiles().size() == leaves(u1.get()).size(), "P27/cell-data", w + ": cycling data are not written");
  } else
    q.checkUp(u1.get(), Ah, nr);
  refCheckUp(u2.get(), r, nr);
  cmpCheckUps(ctx, u1->getFullID(), r, w);
  cmpUnits(ctx, u1.get(), u2.get(), w);
  ctx.step("%s", w.c_str());
  ctx.state(statesOf(u2.get()), std::hash<std::string>{}(e));
  // again: the rows are added
  if (nr == 17) {
    r.Ah = Ah + 1;
    q.checkUp(u1.get(), Ah + 1, nr + 1);
    refCheckUp(u2.get(), r, nr + 1);
    cmpCheckUps(ctx, u1->getFullID(), r, w + ", twice");
    ctx.cover("twice");
  }
  ctx.cover("checked up");
}

// ------------------------------------------------------------ scenario: module figures ----
// the report on the modules has the figures of every cooling system, each in its own column
static void moduleFigures(Ctx &ctx)
{
  clean();
  const auto e = ctx.pick({ std::string("s(M50,M50)"), std::string("s(p(B50,B50),B50)"), std::string("b1x1:s(E50,E50)"), std::string("b2x1:p(s(E50,E50),s(E50,E50))") }, "unit");
  auto u = build(e, ctx.pick({ 1, 3, 5 }, "control"));
  const double Q = ctx.pick({ 40.0, -25.0, 0.0 }, "heat");
  const int n = 1 + ctx.choose(3, "rounds");
  int k = 0;
  std::function<void(SU *)> heat = [&](SU *x) {
    auto use = [&](auto *m) {
      auto c = m->getCoolSystem();
      for (int i = 0; i < n; i++) {
        k++;
        c->control(settings::T_ENV + k, settings::T_ENV + k);
        const double q = Q * (1 + 0.25 * k), own = dynamic_cast<CoolSystem_HVAC *>(c) ? 0 : 3.5 * k; // (an HVAC system has no neighbours)
        c->dstate(q + own, q, 2.0 + k);
      }
    };
    if (auto b = dynamic_cast<Battery *>(x)) {
      use(b);
      heat(b->getCells());
    } else if (auto m = asModule(x)) {
      use(m);
      for (auto c : children(m)) heat(c);
    }
  };
  heat(u.get());
  Procedure q(false, 3.65, 0, true);
  q.checkMod(u.get());
  Report r;
  modsOf(u.get(), r.mods);
  const auto w = e + fmt(": %d rounds with %g J", n, Q);
  cmpMods(ctx, u->getFullID(), r, w);
  size_t different = 0;
  for (auto &m : r.mods) different += m.v[2] != m.v[3];
  if (different) ctx.cover("evacuated is not absorbed");
  ctx.step("%s", w.c_str());
  ctx.state({ Q, double(n), double(k) }, std::hash<std::string>{}(e));
}

// ------------------------------------------------------------ scenario: histograms ----
static void coolHist(Ctx &ctx)
{
#ifdef SLIDE_VERIF_DATASTORE_COOL
  {
    clean();
    const auto e = ctx.pick({ std::string("s(M50,M50)"), std::string("s(p(M50,M50),M50)"), std::string("b1x1:s(M50,M50)")}, "unit");
    auto u = build(e, ctx.pick({ 1, 2, 5 }, "control"));
    const int n = 1 + ctx.choose(4, "rounds");
    for (int i = 0; i < n; i++) {
      u->setCurrent((i % 2 ? -1 : 1) * u->Cap(), false, false);
      for (int j = 0; j < 20; j++) u->timeStep_CC(2, 5);
      u->storeData();
    }
    Procedure q(false, 3.65, 0, true);
    q.checkMod(u.get());
    // sections: name, edges, bins
    std::ostringstream want;
    std::function<void(SU *)> rec = [&](SU *x) {
      auto add = [&](auto *m) {
        auto c = m->getCoolSystem();
        auto &d = c->coolData.tData;
        want << m->getFullID() << '\n' << d.T << d.Q << d.flr << d.E;
        if (auto h = dynamic_cast<CoolSystem_HVAC *>(c)) want << h->HVACdata.tData.Qac << h->HVACdata.tData.Eac;
      };
      if (auto b = dynamic_cast<Battery *>(x)) {
        add(b);
        rec(b->getCells());
      } else if (auto m = asModule(x)) {
        add(m);
        for (auto k : children(m)) rec(k);
      }
    };
    rec(u.get());
    bool there;
    std::vector<std::string> got, exp;
    for (auto &l : lines(u->getFullID() + "_checkModules_histograms.csv", there)) {
      if (l.rfind("Temperature statistics:,", 0) == 0) got.push_back(l.substr(24));
      else if (l.find_first_of("0123456789") == 0 || l[0] == '-')
        got.push_back(l);
    }
    std::istringstream in(want.str());
    for (std::string l; std::getline(in, l);)
      if (l != "Edges:" && l != "Bins:" && !l.empty()) exp.push_back(l);
    ctx.check(there && got.size() == exp.size(), "P27/histograms", e + fmt(": %zu lines of histograms instead of %zu", got.size(), exp.size()));
    for (size_t i = 0; i < exp.size(); i++)
      if (got[i] != exp[i]) ctx.fail("P27/histograms", e + fmt(": line %zu is '", i) + got[i].substr(0, 60) + "' instead of '" + exp[i].substr(0, 60) + "'");
    ctx.step("%s, %d rounds: %zu lines", e.c_str(), n, exp.size());
    ctx.state({ u->V(), u->T() }, std::hash<std::string>{}(e));
    ctx.cover("histograms");
  }
#else
  (void)ctx;
#endif
}

// ------------------------------------------------------------ scenario: cell limits ----
// the default experiment goes to the voltage limits of the cells; a cell that reaches its limit
// first ends the (dis)charge, not the experiment
static void cellLimits(Ctx &ctx)
{
  clean();
  const auto e = ctx.pick({ std::string("M50"), std::string("s(M50,M47)"), std::string("E50") }, "unit");
  const bool up = ctx.flag("upper limit"), low = ctx.flag("lower limit");
  auto u1 = build(e), u2 = build(e);
  Plan p;
  p.N = 2;
  p.check = 5;
  p.Vmin = low ? u1->Vmin() : u1->Vmax() / 4.2 * 3.1;
  p.Vmax = up ? u1->Vmax() : u1->Vmax() / 4.2 * 3.9;
  const auto w = e + fmt(" between %g and %g V", p.Vmin, p.Vmax);
  const auto strict = refCycleAge(u2.get(), p, false);
  u2 = build(e);
  const auto r = refCycleAge(u2.get(), p, true);
  Procedure q(false, 3.65, 0, true);
  clean();
  q.cycleAge(u1.get(), p.N, p.check, 1, false, 1, 1, p.Vmax, p.Vmin);
  bool there;
  const auto rows = lines(u1->getFullID() + "_throughput.csv", there).size();
  ctx.step("%s: %zu actions are possible, %zu when a limit of a cell counts as failure; %zu were done", w.c_str(), r.acts.size(), strict.acts.size(), rows ? rows - 1 : 0);
  ctx.state({ u1->V(), u2->V() }, std::hash<std::string>{}(e));
  ctx.cover("limits");
  if (strict.acts.size() < r.acts.size() && rows == strict.acts.size() + 1) {
    cmpThroughput(ctx, u1->getFullID(), strict, w);
    ctx.fail("P27/cell-limit-stops-ageing", w + fmt(": the experiment stops in cycle %d because a cell reached its voltage limit", strict.cycles));
  }
  cmpThroughput(ctx, u1->getFullID(), r, w);
  cmpUnits(ctx, u1.get(), u2.get(), w);
}

// ------------------------------------------------------------ scenario: use case ----
struct Bounded : public SpySU // its voltage window lies within that of its cells; consecutive steps are merged
{
  double lo, hi;
  Bounded(SU *u, double l, double h) : SpySU(u), lo(l), hi(h) {}
  double Vmin() const override { return lo; }
  double Vmax() const override { return hi; }
  void merge()
  {
    while (log.size() > 1) {
      auto &x = log[log.size() - 2];
      auto &y = log.back();
      if (y.k == Ev::Step && x.k == Ev::Step && x.I0 == y.I0 && x.a == y.a && !x.threw && !y.threw) {
        x.n += y.n;
        x.t = y.t;
        x.V1 = y.V1;
        x.I1 = y.I1;
        log.pop_back();
      } else if (y.k == Ev::SetI && y.st == Status::Success && y.a == y.I0 && y.I1 == y.I0) // the current that flows already
        log.pop_back();
      else
        break;
    }
  }
  Status setCurrent(double In, bool c = true, bool p = true) override
  {
    auto s = SpySU::setCurrent(In, c, p);
    merge();
    return s;
  }
  void timeStep_CC(double dt, int n = 1) override
  {
    SpySU::timeStep_CC(dt, n);
    merge();
  }
};
static void useCase(Ctx &ctx)
{
  clean();
  const auto e = ctx.pick({ std::string("E60"), std::string("M50") }, "unit");
  const double hi = ctx.pick({ 4.0, 4.1 }, "upper voltage");
  if (!ctx.thorough && e == "M50" && hi != 4.0) ctx.prune();
  auto u1 = build(e), u2 = build(e);
  Bounded a(u1.get(), 3.2, hi), b(u2.get(), 3.2, hi);
  Procedure q(false, 3.65, 0, true);
  const int rounds = (e == "E60" && hi == 4.0) ? 2 : 1; // a second use case with the same procedure starts from scratch
  for (int round = 0; round < rounds; round++) {
  q.useCaseAge(&a, 1);
  Report r;
  const double C = b.Cap();
  Cycler cyc(&b, "useAge");
  cyc.setDiagnostic(true);
  ThroughputData t0{};
  cyc.CC(C / 2, 3.2, TIME_INF, 1, 0, t0);
  auto row = [&](int ID, const ThroughputData &th) {
    r.acts.push_back({ ID, th.Ah(), th.Wh(), 0, 0 });
    r.Ah += th.Ah();
  };
  for (int i = 0; i < 20; i++) {
    if (i % 10 == 0) {
      if (TIMEDATA && r.Ah > 0) b.writeData("useAge");
      refCheckUp(&b, r, i);
    }
    struct S
    {
      double h, c;
    };
    const S day[] = { { 4, 0 }, { 0, -1 }, { 1, 0 }, { 0, 1 }, { 4, 0 }, { 0, -0.5 }, { 4, 0 }, { 0, 0.5 }, { 5, 0 } };
    int id = 1;
    for (auto &s : day) {
      ThroughputData th{};
      Status st = s.c == 0 ? cyc.rest(s.h * 3600, 1, 0, th) : cyc.CC(s.c * C, s.c < 0 ? hi : 3.2, TIME_INF, 1, 0, th);
      ctx.check(st == (s.c == 0 ? Status::ReachedTimeLimit : Status::ReachedVoltageLimit), "P27/harness", std::string("use case step: ") + stName(st));
      row(id++, th);
    }
  }
  refCheckUp(&b, r, 20);
  if (TIMEDATA) b.writeData("useAge");
  const auto w = "use case on " + e + fmt(" up to %g V", hi) + (round ? " again" : "");
  ctx.step("%s: %zu actions, %d check-ups, %g Ah, %g days", w.c_str(), r.acts.size(), r.nups, r.Ah, b.clock / 86400);
  cmpLog(ctx, a, b, w);
  cmpThroughput(ctx, a.getFullID(), r, w);
  if (!round) cmpCheckUps(ctx, a.getFullID(), r, w);
  }
  ctx.state({ a.clock, a.Ah, a.V() });
  ctx.cover("use case");
}

// ------------------------------------------------- scenario: standard experiment ----
// the experiment without settings: 15 cycles at 1C between the limits of the unit, a check-up before and after, balanced every 10
static void standard(Ctx &ctx)
{
  clean();
  const auto e = ctx.pick({ std::string("M50"), std::string("E60"), std::string("s(M50,M52)"), std::string("p(M50,M50)") }, "unit");
  const double k = e[0] == 's' ? 2 : 1;
  Plan p;
  p.CV = k == 1 && e[0] != 'p' && ctx.flag("CV");
  p.balance = ctx.flag("balance");
  p.Vmin = k * ctx.pick({ 3.3, 3.45 }, "lower limit");
  p.Vmax = k * ctx.pick({ 4.0, 3.9 }, "upper limit");
  p.N = 15, p.check = 250, p.bal = 10;
  p.ndata = ctx.pick({ 0, 400 }, "record every");
  if (!ctx.thorough && ((p.Vmin / k > 3.4) != (p.Vmax / k < 3.95) || (p.ndata && e != "M50"))) ctx.prune();
  auto u1 = build(e), u2 = build(e);
  Bounded a(u1.get(), p.Vmin, p.Vmax), b(u2.get(), p.Vmin, p.Vmax);
  const auto w = "standard experiment on " + e + fmt(" from %g to %g V, CV %d balance %d ndata %d", p.Vmin, p.Vmax, p.CV, p.balance, p.ndata);
  const auto r = refCycleAge(&b, p, false);
  Procedure q(p.balance, p.Vbal, p.ndata, true);
  q.cycleAge(&a, p.CV);
  ctx.step("%s: %d cycles, %zu actions, %d check-ups, %g Ah", w.c_str(), r.cycles, r.acts.size(), r.nups, r.Ah);
  if (r.cycles == 15) ctx.cover("standard experiment");
  cmpLog(ctx, a, b, w);
  cmpThroughput(ctx, a.getFullID(), r, w);
  cmpCheckUps(ctx, a.getFullID(), r, w);
  ctx.state({ a.clock, a.Ah, a.V() }, std::hash<std::string>{}(w));
}

int main(int argc, char **argv)
{
  std::vector<mc::Scenario> s;
  if constexpr (settings::DATASTORE_COOL == 1) {
    s.push_back({ "coolHist", coolHist });
    return main_(argc, argv, s);
  }
  s.push_back({ "schedule", schedule });
  s.push_back({ "failing", failing });
  s.push_back({ "packs", packs });
  s.push_back({ "rebalance", rebalance });
  s.push_back({ "checkup", checkup });
  s.push_back({ "moduleFigures", moduleFigures });
  s.push_back({ "cellLimits", cellLimits });
  s.push_back({ "useCase", useCase });
  s.push_back({ "standard", standard });
  return main_(argc, argv, s);
}
