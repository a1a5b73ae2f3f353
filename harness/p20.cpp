// P20 - cooling controllers follow their documented strategy.
#include "common.hpp"
using namespace H;

static double KE(double c) { return PhyConst::Kelvin + c; }

// ------------------------------------------------------------------ reference model ----
// An explicit automaton of the documented cooling systems, written from the documentation.
struct Ref
{
  enum Kind { REGULAR, HVAC, OPEN } kind;
  double N;
  int strat;
  double Q0;
  // state
  double T{ settings::T_ENV }, flow{}, qac{};
  // totals
  double evac{}, absorbed{}, time{}, Eop{}, qacTot{};
  // since the last recording
  double iEvac{}, iTime{}, iE{}, iEac{};
  // parameters
  double rho{ 1.225 }, cp{ 1.005e3 }, A, Vol, full, Qfull{}, Ton{ KE(35) }, Toff, aTon{ KE(25) }, aT{ KE(20) };
  Ref(Kind k, double N_, int s, double Q0_) : kind(k), N(N_), strat(s), Q0(Q0_)
  {
    A = 25e-6 * N;
    full = 5e-4 * N;
    Vol = N;
    flow = k == OPEN ? 0 : full; // a new system is on
    Toff = std::max(KE(25), settings::T_ENV + 5);
    if (k == HVAC) {
      Qfull = qac = 7.5 * N + Q0;
      Vol = N * Qfull / (7.5 * N);
      if (s == 3) aTon = KE(30);
      if (s == 5) aT = KE(25), aTon = KE(30);
    }
  }
  void control(double local, double global)
  {
    if (kind == OPEN) {
      flow = 0;
      return;
    }
    const double hot = (strat == 2 || strat == 4) ? local : global;
    if (strat == 2 || strat == 3) {
      if (hot >= Ton) flow = full;
      else if (hot <= Toff) flow = 0;
    } else if (strat == 4 || strat == 5) {
      const double frac = std::max(0.0, hot - KE(25)) / 10;
      flow = frac > 0.2 ? full * frac : 0;
    }
    if (kind != HVAC) return;
    const double ref = (strat == 3 || strat == 5) ? global : T; // the air conditioning looks at the container
    if (strat == 1) qac = T < KE(20) ? 0 : Qfull;
    if (strat == 2 || strat == 3) {
      if (T <= KE(20)) qac = 0;
      else if (ref >= aTon) qac = Qfull;
    } else if (strat == 4 || strat == 5) {
      const double frac = std::max(0.0, ref - aT) / (aTon - aT);
      qac = T <= KE(20) || frac <= 0.2 ? 0 : Qfull * std::min(1.0, frac);
    }
  }
  double h() const
  {
    if (kind == OPEN) return 90;
    if (flow == 0) return 0;
    const double v = flow / A;
    return 12.12 - 1.16 * v + 11.6 * std::sqrt(v);
  }
  double exchange(double Qtot, double Qch, double t) // returns the new temperature, does not set it
  {
    const double v = flow / A, E = rho * A * v * v * v / 2 / 0.5 * t;
    double Eac = 0;
    if (qac != 0 && t != 0) {
      if (settings::T_ENV > T - 5)
        Eac = 3 * qac * t;
      else {
        const double f = qac / (rho * cp * (T - settings::T_ENV)), va = f / (2 * A);
        Eac = rho * 2 * A * va * va * va / 2 / 0.5 * t;
      }
    }
    const double Q = Qtot - qac * t;
    evac += Qch, absorbed += Q, time += t, Eop += E + Eac, qacTot += qac * t;
    iEvac += Qch, iTime += t, iE += E, iEac += Eac;
    return T + Q / (rho * cp * Vol);
  }
};

struct Sys
{
  Ref::Kind kind;
  std::unique_ptr<CoolSystem> c;
  CoolSystem_HVAC *hvac() { return dynamic_cast<CoolSystem_HVAC *>(c.get()); }
};
static Sys make(Ref::Kind k, size_t N, int s, double Q0)
{
  Sys y{ k, nullptr };
  if (k == Ref::HVAC) y.c = std::make_unique<CoolSystem_HVAC>(N, s, Q0);
  else if (k == Ref::OPEN) y.c = std::make_unique<CoolSystem_open>(static_cast<int>(N), s);
  else y.c = std::make_unique<CoolSystem>(N, s);
  return y;
}
static const char *kname[] = { "regular", "hvac", "open" };

static void same(Ctx &ctx, Sys &y, const Ref &r, const std::string &w)
{
  ctx.near(y.c->T(), r.T, "P20/temperature", w + ": coolant temperature", 1e-13, 0);
  ctx.near(y.c->getFlr(), r.flow, "P20/flow", w + ": flow rate", 1e-11, 0);
  ctx.near(y.c->getH(), r.h(), "P20/cooling-constant", w + ": cooling constant", 1e-11, 0);
  ctx.near(y.c->getHeatEvac(), r.evac, "P20/heat-evacuated", w + ": total heat taken from the children", 1e-10, 1e-9);
  ctx.near(y.c->getHeatabsorbed(), r.absorbed, "P20/heat-absorbed", w + ": total heat absorbed by the coolant", 1e-10, 1e-7);
  ctx.near(y.c->getTotalTime(), r.time, "P20/time", w + ": total time", 1e-12, 0);
  ctx.near(y.c->getEoperation(), r.Eop, "P20/energy", w + ": operating energy", 1e-10, 1e-12);
  if (auto h = y.hvac()) ctx.near(h->getQcoolAC_tot(), r.qacTot, "P20/air-conditioning", w + ": heat removed by the air conditioning", 1e-10, 0);
  ctx.state({ y.c->T(), y.c->getFlr(), y.c->getEoperation(), y.c->getHeatEvac(), y.c->getTotalTime() }, static_cast<uint64_t>(r.kind) * 64 + static_cast<uint64_t>(r.strat));
}
// heat exchange in both and compare
static void exchange(Ctx &ctx, Sys &y, Ref &r, double Q, double t, const std::string &w, bool apply)
{
  const double Qc = r.kind == Ref::HVAC ? Q : Q * 0.75;
  const double got = y.c->dstate(Q, Qc, t), want = r.exchange(Q, Qc, t);
  ctx.near(got, want, "P20/coolant-balance", w + ": new coolant temperature", 1e-13, 0);
  ctx.near(y.c->T(), r.T, "P20/temperature", w + ": the temperature is only changed by the caller", 0, 0);
  if (apply && want >= KE(0) && want <= KE(75)) y.c->setT(want), r.T = want;
}

// ------------------------------------------------------------------ control sequences ----
// every sequence of (hottest child, hottest cell, coolant) temperatures on, below and above
// every threshold of every strategy
static void strategies(Ctx &ctx)
{
  const auto k = static_cast<Ref::Kind>(ctx.choose(3, "kind"));
  const int s = ctx.pick({ 1, 2, 3, 4, 5 }, "strategy");
  const size_t N = ctx.pick({ size_t(1), size_t(20), size_t(2700) }, "cells");
  const double Q0 = k == Ref::HVAC ? ctx.pick({ 0.0, 3000.0 }, "ancillary") : 0;
  auto y = make(k, N, s, Q0);
  Ref r(k, static_cast<double>(N), s, Q0);
  const auto base = fmt("%s strategy %d, %zu cells, Q0 %g", kname[k], s, N, Q0);
  same(ctx, y, r, base + " (new)");
  const double eps = 1e-3;
  // the temperatures around the fan thresholds 25, 27 (20 % of the gain) and 35
  static const std::vector<double> hot{ 15, 25 - eps, 25, 25 + eps, 26, 27 - eps, 27 + eps, 30, 35 - eps, 35, 35 + eps, 36, 60 };
  static const std::vector<double> hotq{ 20, 25, 25 + eps, 27 - eps, 27 + eps, 30, 35 - eps, 35, 50 };
  static const std::vector<double> cool{ 15, 20 - eps, 20, 20 + eps, 21 - eps, 21 + eps, 22.5, 25 - eps, 25, 25 + eps, 30, 40 };
  static const std::vector<double> coolq{ 15, 20, 20 + eps, 21 - eps, 21 + eps, 22.5, 25, 31 };
  static const std::vector<double> hotac{ 15, 25, 26 - eps, 26 + eps, 28, 30 - eps, 30, 30 + eps, 36 };
  const int depth = k == Ref::HVAC ? 2 : (ctx.thorough ? 4 : 3);
  const int D = k == Ref::HVAC && ctx.thorough ? 3 : depth;
  for (int d = 0; d < D; d++) {
    double lo, gl;
    if (k == Ref::HVAC) { // coolant temperature and the hottest cell matter
      const double tc = KE(ctx.pick(d == 0 || ctx.thorough ? cool : coolq, "coolant"));
      y.c->setT(tc), r.T = tc;
      gl = KE(ctx.pick(hotac, "hottest cell"));
      lo = (s == 2 || s == 4) ? KE(ctx.pick({ 20.0, 30.0, 40.0 }, "hottest child")) : std::min(gl, KE(24));
    } else {
      const double a = KE(ctx.pick(ctx.thorough ? hot : hotq, "hot"));
      const double b = KE(ctx.pick({ 15.0, 30.0, 45.0 }, "other")); // the temperature this strategy must ignore
      const bool useLocal = s == 2 || s == 4;
      lo = useLocal ? a : b, gl = useLocal ? b : a;
    }
    y.c->control(lo, gl);
    r.control(lo, gl);
    const auto w = base + fmt(", control(%.3f, %.3f) with coolant at %.3f (step %d)", lo - KE(0), gl - KE(0), r.T - KE(0), d);
    ctx.step("%s: flow %g", w.c_str(), y.c->getFlr());
    same(ctx, y, r, w);
    const double e0 = y.c->getEoperation();
    exchange(ctx, y, r, 10.0 * static_cast<double>(d), 5, w, false);
    same(ctx, y, r, w + " after 5 s");
    if (r.flow == 0 && r.qac == 0) {
      ctx.cover("off");
      ctx.check(y.c->getEoperation() == e0, "P20/off-is-free", w + ": a system that is off uses energy");
    } else
      ctx.cover("on");
    if (r.flow != 0 && r.flow != r.full) ctx.cover("proportional");
    if (k == Ref::HVAC && r.qac != 0 && r.qac != r.Qfull) ctx.cover("proportional air conditioning");
  }
}

// ------------------------------------------------------------------ histories ----
// every sequence of control, heat exchange, temperature changes, readings, copies
static void histories(Ctx &ctx)
{
  const auto k = static_cast<Ref::Kind>(ctx.choose(3, "kind"));
  const int s = ctx.pick({ 1, 2, 3, 4, 5 }, "strategy");
  const size_t N = ctx.pick({ size_t(4), size_t(60) }, "cells");
  const double Q0 = 0;
  auto y = make(k, N, s, Q0);
  Ref r(k, static_cast<double>(N), s, Q0);
  const auto base = fmt("%s strategy %d, %zu cells", kname[k], s, N);
  auto at = [&](double c) { y.c->setT(KE(c)), r.T = KE(c); };
  at(22);
  const int depth = ctx.thorough ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(10, "op");
    auto w = base + fmt(", op %d (step %d)", op, d);
    const double n = static_cast<double>(N);
    switch (op) {
    case 0: exchange(ctx, y, r, 40 * n, 10, w, true); break;
    case 1: exchange(ctx, y, r, -15 * n, 2.5, w, true); break;
    case 2: exchange(ctx, y, r, 0, 0, w, true); break;
    case 3: y.c->control(KE(31), KE(38)), r.control(KE(31), KE(38)); break;
    case 4: y.c->control(KE(38), KE(31)), r.control(KE(38), KE(31)); break;
    case 5: y.c->control(KE(20), KE(20)), r.control(KE(20), KE(20)); break;
    case 6: at(21.5); break;
    case 7: at(18); break;
    case 8: {
      y.c->reset_Eoperation();
      r.Eop = 0;
      break;
    }
    case 9: { // a copy continues on its own, the original is not affected
      Sys z{ k, std::unique_ptr<CoolSystem>(y.c->copy()) };
      same(ctx, z, r, w + " (copy)");
      y.c->setT(KE(60));
      y.c->dstate(7, 7, 1);
      y = std::move(z);
      break;
    }
    }
    ctx.step("%s: T %g flow %g E %g", w.c_str(), y.c->T(), y.c->getFlr(), y.c->getEoperation());
    same(ctx, y, r, w);
  }
}

// temperatures that are not permitted, and heat that does not come from the children of an
// outermost system, are refused and change nothing
static void refused(Ctx &ctx)
{
  const auto k = static_cast<Ref::Kind>(ctx.choose(3, "kind"));
  auto y = make(k, 10, 1, 0);
  Ref r(k, 10, 1, 0);
  const double t = ctx.pick({ -1e-6, -300.0, 75.0 + 1e-6, 1e9, std::nan(""), HUGE_VAL, -HUGE_VAL, 0.0, 75.0, 33.0 }, "T");
  const bool bad = !(KE(t) >= KE(0) && KE(t) <= KE(75));
  int e = 0;
  try {
    y.c->setT(KE(t));
  } catch (int x) {
    e = x;
  }
  ctx.step("setT(%g): %d", t, e);
  ctx.check((e == 99) == bad, "P20/temperature-refused", fmt("%s: setT(%g degC) %s", kname[k], t, e ? "refused" : "accepted"));
  if (!bad) r.T = KE(t);
  same(ctx, y, r, fmt("%s after setT(%g)", kname[k], t));
  if (k == Ref::HVAC) {
    e = 0;
    try {
      y.c->dstate(5, 4, 1);
    } catch (int x) {
      e = x;
    }
    ctx.check(e == 10, "P20/outermost", "an outermost system accepts heat that does not come from its children");
    same(ctx, y, r, "after refused heat");
  }
  ctx.cover(bad ? "temperature refused" : "temperature accepted");
}

// ------------------------------------------------------------------ recording ----
// Every recorded point describes the interval since the previous one
static std::vector<std::vector<double>> rows(const std::string &f)
{
  std::vector<std::vector<double>> v;
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) {
    std::vector<double> x;
    std::stringstream ss(l);
    std::string t;
    while (std::getline(ss, t, ',')) {
      try {
        x.push_back(std::stod(t));
      } catch (...) {
        x.push_back(std::nan(""));
      }
    }
    v.push_back(x);
  }
  return v;
}
struct Rec
{
  double time, Q, E, flow, T, qac, Eac;
};
[[maybe_unused]] static size_t binOf(double x, double lo, double hi)
{
  const int n = settings::DATASTORE_NHIST;
  const double p = 1 + (x - lo) / ((hi - lo) / n);
  return static_cast<size_t>(std::max(0.0, std::min(p, static_cast<double>(n + 1))));
}
static void recording(Ctx &ctx)
{
  const auto k = static_cast<Ref::Kind>(ctx.choose(3, "kind"));
  const int s = ctx.pick({ 1, 5 }, "strategy");
  auto y = make(k, 8, s, 0);
  Ref r(k, 8, s, 0);
  y.c->setT(KE(24)), r.T = KE(24);
  std::vector<Rec> recs;
  const int depth = ctx.thorough ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(5, "op");
    auto w = fmt("%s op %d (step %d)", kname[k], op, d);
    if (op == 0) exchange(ctx, y, r, 8 * 37.0, 10, w, true);
    if (op == 1) exchange(ctx, y, r, -8 * 3.0, 20, w, true);
    if (op == 2) y.c->control(KE(29), KE(29)), r.control(KE(29), KE(29));
    if (op == 3) y.c->control(KE(24), KE(24)), r.control(KE(24), KE(24));
    if (op == 4) {
      y.c->storeData(8);
      if (r.iTime != 0) {
        recs.push_back({ r.time, r.iEvac / r.iTime, r.iE / r.iTime, r.flow, r.T, r.qac, r.iEac / r.iTime });
        r.iEvac = r.iTime = r.iE = r.iEac = 0;
      }
    }
    ctx.step("%s", w.c_str());
    same(ctx, y, r, w); // recording changes nothing
  }
  if (recs.size() > 1) ctx.cover("several records");
  if constexpr (settings::DATASTORE_COOL == 2) {
    unlink("c_coolSystemStats.csv"), unlink("c_coolSystemData.csv");
    y.c->writeData("c");
    auto v = rows("c_coolSystemStats.csv");
    ctx.check(v.size() == recs.size(), "P20/records", fmt("%zu rows written for %zu records", v.size(), recs.size()));
    for (size_t i = 0; i < recs.size(); i++) {
      ctx.check(v[i].size() == 4, "P20/records", "columns");
      ctx.near(v[i][0], recs[i].time, "P20/record-time", fmt("time of record %zu", i), 1e-5, 1e-9);
      ctx.near(v[i][1], recs[i].Q, "P20/record-heat", fmt("cooling power of record %zu", i), 1e-5, 1e-9);
      ctx.near(v[i][2], recs[i].E, "P20/record-fan", fmt("fan power of record %zu", i), 1e-5, 1e-9);
      ctx.near(v[i][3], recs[i].flow, "P20/record-flow", fmt("flow rate of record %zu", i), 1e-5, 1e-9);
    }
    if (k == Ref::HVAC) {
      auto a = rows("c_coolSystemData.csv");
      ctx.check(a.size() == recs.size(), "P20/records", fmt("%zu air-conditioning rows for %zu records", a.size(), recs.size()));
      for (size_t i = 0; i < recs.size(); i++) {
        ctx.near(a[i][0], recs[i].qac, "P20/record-ac", fmt("cooling power of the air conditioning in record %zu", i), 1e-5, 1e-9);
        ctx.near(a[i][1], recs[i].Eac, "P20/record-ac-power", fmt("power of the air conditioning in record %zu", i), 1e-5, 1e-9);
      }
    }
    y.c->writeData("c"); // everything was written already
    ctx.check(rows("c_coolSystemStats.csv").size() == recs.size(), "P20/records", "records written twice");
  }
#if defined(SLIDE_VERIF_DATASTORE_COOL) && SLIDE_VERIF_DATASTORE_COOL == 1
  {
    int e = 0;
    const auto bad = ctx.pick({ size_t(0), size_t(7), size_t(9) }, "wrong size");
    try {
      y.c->storeData(bad);
    } catch (int x) {
      e = x;
    }
    ctx.check(e == 10, "P20/record-size", "recording for a wrong number of cells is refused");
    same(ctx, y, r, "refused recording");
    // the file: sizes, then edges and bins of T, Q, flow, E (and AC cooling and power)
    unlink("c_coolSystemStats.csv");
    y.c->writeData("c");
    std::vector<std::vector<size_t>> hists;
    {
      std::ifstream in("c_coolSystemStats.csv");
      std::string l;
      while (std::getline(in, l))
        if (l.rfind("Bins:", 0) == 0 && std::getline(in, l)) {
          hists.emplace_back();
          std::stringstream ss(l);
          std::string t;
          while (std::getline(ss, t, ',')) hists.back().push_back(std::stoul(t));
        }
    }
    ctx.check(hists.size() == (y.hvac() ? 6u : 4u), "P20/histogram", fmt("%s: %zu histograms written", kname[k], hists.size()));
    auto cmp = [&](const auto &hist, double lo, double hi, auto f, const char *what) {
      std::vector<size_t> want(static_cast<size_t>(settings::DATASTORE_NHIST) + 2, 0);
      bool edge = false;
      for (auto &x : recs) {
        const double p = (f(x) - lo) / ((hi - lo) / settings::DATASTORE_NHIST);
        if (std::abs(p - std::round(p)) < 1e-6) edge = true; // the bin depends on rounding
        want[binOf(f(x), lo, hi)]++;
      }
      auto &got = hist;
      ctx.check(got.size() == want.size(), "P20/histogram", "size");
      size_t n = 0;
      for (size_t i = 0; i < want.size(); i++) {
        n += got[i];
        ctx.check(edge || got[i] == want[i], "P20/histogram", fmt("%s: bin %zu holds %zu, expected %zu", what, i, got[i], want[i]));
      }
      ctx.check(n == recs.size(), "P20/histogram", fmt("%s: %zu samples for %zu records", what, n, recs.size()));
    };
    const double fm = 1.1 * 5e-4, vm = fm / 25e-6;
    cmp(hists[2], 0, fm, [](const Rec &x) { return x.flow / 8; }, "flow per cell");
    cmp(hists[1], 0, 5, [](const Rec &x) { return x.Q / 8; }, "cooling per cell");
    cmp(hists[0], KE(0), KE(100), [](const Rec &x) { return x.T; }, "temperature");
    cmp(hists[3], 0, 1.225 * 25e-6 * vm * vm * vm / 0.5, [](const Rec &x) { return x.E / 8; }, "fan power per cell");
    if (y.hvac()) {
      cmp(hists[4], 0, 7.5 * 1.1, [](const Rec &x) { return x.qac / 8; }, "air conditioning per cell");
      cmp(hists[5], 0, 7.5 * 1.1 * 3, [](const Rec &x) { return x.Eac / 8; }, "air conditioning power per cell");
    }
  }
#endif
}

// ------------------------------------------------------------------ in a pack ----
// the controllers of a pack see the hottest child and the hottest cell below them
static void inPack(Ctx &ctx)
{
  static const std::vector<std::string> packs{ "s(E50,E50,E50)", "p(E50,E50)", "s(s(E50,E50)^r,s(E50,E50)^r)", "p(s(E50,E50)^r,s(E50,E50)^r)", "s(p(E50,E50)^r,p(E50,E50)^r)", "s(9*E50)", "b2x3:s(E50,E50)", "b1x1:s(s(E50,E50)^r,E50)^r" };
  const auto e = packs[static_cast<size_t>(ctx.choose(static_cast<int>(packs.size()), "pack"))];
  const int s = ctx.pick({ 1, 2, 3, 4, 5 }, "strategy");
  auto u = build(e, s);
  auto ns = nodes(u.get());
  auto ls = leaves(u.get());
  struct M
  {
    SU *u;
    CoolSystem *c;
    Ref r;
  };
  std::vector<M> ms;
  for (auto n : ns) {
    CoolSystem *c = nullptr;
    if (auto m = asModule(n)) c = m->getCoolSystem();
    else if (auto b = dynamic_cast<Battery *>(n))
      c = b->getCoolSystem();
    if (!c) continue;
    auto k = dynamic_cast<CoolSystem_HVAC *>(c) ? Ref::HVAC : dynamic_cast<CoolSystem_open *>(c) ? Ref::OPEN : Ref::REGULAR;
    ms.push_back({ n, c, Ref(k, static_cast<double>(n->getNcells()), s, 0) });
  }
  std::function<double(SU *)> hottest = [&](SU *n) {
    double t = n->T();
    for (auto k : children(n)) t = std::max(t, hottest(k));
    return t;
  };
  const int depth = ctx.thorough ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    // temperatures: one hot cell, one hot coolant
    const int which = ctx.choose(static_cast<int>(ls.size()) + 1, "hot cell");
    const double t = ctx.pick({ 22.0, 29.0, 37.0 }, "hot");
    for (auto l : ls) l->setT(KE(20));
    for (auto &m : ms) m.c->setT(KE(18)), m.r.T = KE(18);
    if (which < static_cast<int>(ls.size())) ls[static_cast<size_t>(which)]->setT(KE(t));
    else {
      ms.back().c->setT(KE(t)), ms.back().r.T = KE(t);
    }
    u->timeStep_CC(1, 1); // thermal model off: the temperatures stay
    for (auto &m : ms) {
      // the children of a battery are those of its module, as in the code's documentation of Tlocal
      double local = 0;
      for (auto k : children(m.u)) local = std::max(local, k->T());
      if (dynamic_cast<Battery *>(m.u)) {
        double l2 = 0;
        for (auto k : children(children(m.u)[0])) l2 = std::max(l2, k->T());
        local = l2;
      }
      m.r.control(local, hottest(m.u));
      const auto w = fmt("%s strategy %d, unit %s: hot cell %d at %g (step %d)", e.c_str(), s, m.u->getFullID().c_str(), which, t, d);
      ctx.near(m.c->getFlr(), m.r.flow, "P20/pack-flow", w + ": flow rate", 1e-11, 0);
      ctx.check(m.u->getThotSpot() == hottest(m.u), "P20/hot-spot", w + ": hottest temperature");
    }
    ctx.step("%s: hot cell %d at %g", e.c_str(), which, t);
    ctx.cover("pack");
  }
}

int main(int argc, char **argv)
{
  std::vector<mc::Scenario> s;
  if constexpr (settings::DATASTORE_COOL == 0) {
    s = { { "strategies", strategies }, { "histories", histories }, { "refused", refused }, { "inPack", inPack } };
  }
  s.push_back({ "recording", recording });
  return main_(argc, argv, s);
}
