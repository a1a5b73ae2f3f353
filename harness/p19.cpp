// P19 - heat is conserved throughout the thermal model.
#include "spmref.hpp"
#include "power_conversion/Converter.hpp"
using namespace H;

constexpr double RHOCP_AIR = 1.225 * 1.005e3, ACELL = 0.02, KCELL = 5;
static double KE(double c) { return PhyConst::Kelvin + c; }

static double heatCapacity(Cell_SPM *c) // [J/K]: one layer times the electrode surface
{
  return 1626 * 750 * 1.685e-4 * 0.62 * c->getVariations()[0];
}
// reference heat generation [W] of a cell in its present state
static double heatOf(Cell_SPM *c)
{
  static ref::Spm proto;
  ref::Spm r = proto;
  auto &s = c->getStateObj();
  r.S = 0.62 * c->getVariations()[0];
  r.I = c->I(), r.T = c->T(), r.delta = s.delta(), r.thp = s.thickp(), r.thn = s.thickn(), r.ep = s.ep(), r.en = s.en(), r.ap = s.ap(), r.an = s.an();
  r.Dp = s.Dp(), r.Dn = s.Dn(), r.rp = s.rDCp(), r.rn = s.rDCn(), r.rc = s.rDCcc();
  for (size_t i = 0; i < 5; i++) r.zp[i] = s.zp(i), r.zn[i] = s.zn(i);
  return r.heat();
}

// ------------------------------------------------------------------ reference thermal network ----
struct Nb
{
  double T, K, A;
};
struct TNode
{
  SU *u{ nullptr };
  Cell_SPM *spm{ nullptr };
  Module *mod{ nullptr };
  Battery *bat{ nullptr };
  std::vector<TNode> kids;
  double T0{}, C{}, A{}, h{}, Qgen{}, Qcontact{}, qac0{}, Tnew{}, qtot0{};
  CoolSystem *cool{ nullptr };
};
static TNode network(SU *u)
{
  TNode n;
  n.u = u;
  n.spm = dynamic_cast<Cell_SPM *>(u), n.mod = asModule(u), n.bat = dynamic_cast<Battery *>(u);
  for (auto k : children(u)) n.kids.push_back(network(k));
  if (n.spm) n.C = heatCapacity(n.spm), n.A = ACELL;
  if (n.mod) {
    n.cool = n.mod->getCoolSystem();
    n.C = RHOCP_AIR * static_cast<double>(u->getNcells());
    n.A = 0.042 * static_cast<double>(u->getNcells());
  }
  return n;
}
static Converter converterOf(Battery *b)
{
  Converter c;
  c.setPower(b->Cap() * b->Vmax());
  return c;
}
static double batteryCapacity(Battery *b) // the coolant volume grows with the ancillary losses
{
  Converter c0;
  const double N = static_cast<double>(b->getNcells()), Q0 = 2 * c0.getLosses(b->Vmax(), b->Cap());
  return RHOCP_AIR * N * (7.5 * N + Q0) / (7.5 * N);
}
static void capture(TNode &n)
{
  n.T0 = n.u->T();
  if (n.bat) n.cool = n.bat->getCoolSystem(), n.C = batteryCapacity(n.bat);
  if (n.cool) n.h = n.cool->getH();
  if (auto h = dynamic_cast<CoolSystem_HVAC *>(n.cool)) n.qac0 = h->getQcoolAC_tot();
  if (n.spm) n.qtot0 = n.spm->thermal_getTotalHeat();
  for (auto &k : n.kids) capture(k);
}
static double acHeat(TNode &n)
{
  auto h = dynamic_cast<CoolSystem_HVAC *>(n.cool);
  return h ? h->getQcoolAC_tot() - n.qac0 : 0;
}
// heat in the contact resistances for the present currents [W]
static void contactHeat(TNode &n, const std::map<SU *, std::vector<double>> &Rc)
{
  n.Qcontact = 0;
  if (n.mod) {
    auto it = Rc.find(n.u);
    if (it != Rc.end())
      for (size_t i = 0; i < n.kids.size(); i++) {
        double I = 0;
        if (asSeries(n.u)) I = n.u->I();
        else
          for (size_t j = i; j < n.kids.size(); j++) I += n.kids[j].u->I();
        n.Qcontact += it->second[i] * I * I;
      }
  }
  for (auto &k : n.kids) contactHeat(k, Rc);
}
static double solve(TNode &n, const std::vector<Nb> &nb, double t)
{
  if (n.spm) {
    double E = n.Qgen;
    for (auto &x : nb) E += x.K * std::min(x.A, n.A) * (x.T - n.T0) * t;
    return n.Tnew = n.T0 + E / n.C;
  }
  if (!n.mod) return n.Tnew = n.T0; // the equivalent circuit cells have no thermal model
  double E = n.Qcontact * t;
  for (size_t i = 0; i < n.kids.size(); i++) {
    auto &k = n.kids[i];
    auto side = [&](bool edge, size_t j) { return edge ? Nb{ n.T0, KCELL, n.A } : Nb{ n.kids[j].T0, KCELL, n.kids[j].A }; };
    std::vector<Nb> v{ { n.T0, n.h, n.A }, side(i == 0, i - 1), side(i + 1 == n.kids.size(), i + 1) };
    solve(k, v, t);
    const double a = std::min(n.A, k.A);
    E += n.h * a * (k.T0 - n.T0) * t;
    if (i == 0) E += KCELL * a * (k.T0 - n.T0) * t;
    if (i + 1 == n.kids.size()) E += KCELL * a * (k.T0 - n.T0) * t;
  }
  for (auto &x : nb) E += x.K * std::min(x.A, n.A) * (x.T - n.T0) * t;
  return n.Tnew = n.T0 + (E - acHeat(n)) / n.C;
}
static void each(TNode &n, const std::function<void(TNode &)> &f)
{
  f(n);
  for (auto &k : n.kids) each(k, f);
}
static void setRc(SU *u, double r, std::map<SU *, std::vector<double>> &Rc)
{
  for (auto n : nodes(u))
    if (auto m = asModule(n)) {
      std::vector<double> R(m->getNSUs());
      for (size_t i = 0; i < R.size(); i++) R[i] = r * (1 + 0.4 * static_cast<double>(i));
      m->setRcontact(R);
      Rc[n] = R;
    }
}

struct Pack
{
  Deep_ptr<SU> u;
  std::map<SU *, std::vector<double>> Rc;
  double copies{ 1 };
};
static Pack makePack(const std::string &e, int strat)
{
  Pack p;
  p.u = build(e, strat);
  unsigned a = 1, b = 1;
  if (e[0] == 'b') sscanf(e.c_str(), "b%ux%u", &a, &b);
  p.copies = a * b;
  return p;
}

// take one step and compare every temperature and the heat balance with the reference
static bool step(Ctx &ctx, Pack &p, double dt, int n, const std::string &w, bool blocked)
{
  SU *u = p.u.get();
  const double t = dt * n;
  TNode net = network(u);
  capture(net);
  // heat generated by the cells, from twins that take the same step without thermal model
  std::map<SU *, double> Q;
  double gen = 0;
  for (auto c : leaves(u))
    if (auto m = dynamic_cast<Cell_SPM *>(c)) {
      std::unique_ptr<SU> x(m->copy());
      x->setParent(nullptr);
      x->setBlockDegAndTherm(true);
      x->timeStep_CC(dt, n);
      Q[c] = heatOf(static_cast<Cell_SPM *>(x.get())) * t;
    }
  contactHeat(net, p.Rc);
  double contact = 0;
  each(net, [&](TNode &k) {
    contact += k.Qcontact * t;
    if (k.spm) k.Qgen = Q[k.u];
  });
  int err = 0;
  try {
    u->timeStep_CC(dt, n);
  } catch (int x) {
    err = x;
  }
  ctx.step("%s: step %g x %d -> %d, T %g", w.c_str(), dt, n, err, err ? 0.0 : u->T() - KE(0));
  if (err) {
    ctx.cover("step refused");
    return false;
  }
  // every unit controls its cooling at the end of its own step: the outermost one after the
  // heat exchange, those below before it
  each(net, [&](TNode &k) {
    if (k.cool && k.u != u) k.h = k.cool->getH();
  });
  if (blocked || settings::T_MODEL == 0) {
    each(net, [&](TNode &k) { ctx.check(k.u->T() == k.T0, "P19/off", w + ": a temperature changes although the thermal model is off"); });
    ctx.cover("thermal model off");
    return true;
  }
  std::vector<double> sig;
  each(net, [&](TNode &k) {
    if (!k.spm) return;
    const double q = k.spm->thermal_getTotalHeat() - k.qtot0;
    ctx.near(q, k.Qgen, "P19/generation", w + ": heat generated by cell " + k.u->getFullID(), 1e-7, 1e-9);
    gen += q;
    sig.push_back(q);
  });
  if (settings::T_MODEL == 1) {
    each(net, [&](TNode &k) {
      if (k.spm) ctx.near(k.u->T(), k.T0 + (k.Qgen + 45 * ACELL * (settings::T_ENV - k.T0) * t) / k.C, "P19/cell-temperature", w + ": temperature of " + k.u->getFullID(), 0, 1e-8);
      else
        ctx.check(k.u->T() == k.T0, "P19/cell-temperature", w + ": only cells change their temperature");
    });
    ctx.cover("cell model");
    return true;
  }
  if (net.spm) {
    ctx.near(u->T(), solve(net, { { settings::T_ENV, 45, ACELL } }, t), "P19/alone", w + ": temperature of a cell on its own", 0, 1e-8);
    ctx.cover("cell on its own");
    return true;
  }
  double removed = 0, stored = 0, total = contact + gen;
  if (net.bat) {
    auto &m = net.kids[0];
    auto conv = converterOf(net.bat);
    const double loss = conv.getLosses(u->V(), u->I()) * t;
    solve(m, { { net.T0, net.h, m.A } }, t);
    const double ex = net.h * m.A * (m.T0 - net.T0) * t; // from one of the identical copies
    net.Tnew = net.T0 + (ex * p.copies + loss - acHeat(net)) / net.C;
    removed = acHeat(net);
    total = p.copies * (contact + gen) + loss;
    each(m, [&](TNode &k) {
      if (k.C > 0) stored += p.copies * k.C * (k.u->T() - k.T0);
    });
    stored += net.C * (net.u->T() - net.T0);
    ctx.cover("battery");
  } else {
    solve(net, {}, t);
    removed = acHeat(net);
    each(net, [&](TNode &k) {
      if (k.C > 0) stored += k.C * (k.u->T() - k.T0);
    });
  }
  each(net, [&](TNode &k) {
    const double lim = k.mod || k.bat ? 75 : 60;
    ctx.check(k.u->T() >= KE(0) && k.u->T() <= KE(lim), "P19/range", w + fmt(": %s ends at %g degC", k.u->getFullID().c_str(), k.u->T() - KE(0)));
  });
  ctx.near(stored, total - removed, "P19/balance", w + fmt(": heat stored (generated %g J in the cells, %g J in contacts, %g J removed)", gen, contact, removed), 1e-6, 1e-5);
  each(net, [&](TNode &k) {
    ctx.near(k.u->T(), k.Tnew, "P19/temperature", w + fmt(": temperature of %s (was %.9g)", k.u->getFullID().c_str(), k.T0), 0, 2e-8);
    sig.push_back(k.u->T());
  });
  // without any source, no unit leaves the range of temperatures that was there
  if (gen == 0 && contact == 0 && removed == 0 && !net.bat && t <= 60) {
    double lo = 1e9, hi = 0;
    each(net, [&](TNode &k) { lo = std::min(lo, k.T0), hi = std::max(hi, k.T0); });
    each(net, [&](TNode &k) { ctx.check(k.u->T() >= lo - 1e-9 && k.u->T() <= hi + 1e-9, "P19/direction", w + fmt(": %s goes from %.9g to %.9g, outside %.9g .. %.9g", k.u->getFullID().c_str(), k.T0, k.u->T(), lo, hi)); });
    ctx.cover("no source");
  }
  if (contact > 0) ctx.cover("contact heat");
  if (removed > 0) ctx.cover("heat removed");
  ctx.state(sig);
  return true;
}

static void temperatures(SU *u, int pattern)
{
  auto ns = nodes(u);
  auto ls = leaves(u);
  for (auto n : ns) n->setT(KE(22));
  if (pattern == 1) ls[0]->setT(KE(45));
  if (pattern == 2) ls.back()->setT(KE(3));
  if (pattern == 3)
    for (auto n : ns)
      if (!asCell(n)) n->setT(KE(35));
  if (pattern == 4)
    for (size_t i = 0; i < ns.size(); i++) ns[i]->setT(KE(5 + 7.3 * static_cast<double>(i % 7)));
}

static const std::vector<std::string> &packs()
{
  static const std::vector<std::string> u{ "M50", "D50", "s(M50)", "s(M50,M50,M50)", "p(M50,M50)", "p(M50,M55,M52)", "p(M50,M51,M50,M49)", "s(p(M50,M50)^r,p(M50,M51)^r)", "p(s(M50,M50),s(M50,M50))", "s(s(M50,M50)^r,M50)", "s(E50,M50)", "s(33*E50)", "p(s(5*E50),s(5*E50))", "s(D50,M50)", "s(s(M50,M50),s(M50,M50))",
#if SLIDE_VERIF_T_MODEL == 2
                                         "b1x1:s(M50,M50)", "b1x1:p(M50,M50)", "b2x3:s(M50,M50)", "b3x1:s(p(M50,M50)^r,M50)"
#endif
  };
  return u;
}

// every history of currents, step sizes and temperature patterns
static void histories(Ctx &ctx)
{
  const auto e = packs()[static_cast<size_t>(ctx.choose(static_cast<int>(packs().size()), "pack"))];
  if (!ctx.thorough && settings::T_MODEL != 2 && (e == "D50" || e == "s(D50,M50)" || e == "p(M50,M55,M52)" || e == "p(M50,M51,M50,M49)" || e == "s(s(M50,M50),s(M50,M50))" || e == "p(s(M50,M50),s(M50,M50))")) ctx.prune();
  const bool cell = e.size() == 3;
  const int strat = cell ? 1 : ctx.pick(ctx.thorough ? std::vector<int>{ 1, 2, 3, 4, 5 } : std::vector<int>{ 1, 5 }, "strategy");
  auto p = makePack(e, strat);
  SU *u = p.u.get();
  if (!cell && ctx.flag("contacts")) setRc(u, 1e-3, p.Rc);
  u->setBlockDegAndTherm(false);
  u->setCurrent(0, false, false); // balances parallel members
  const double cap = u->Cap();
  const int depth = ctx.thorough ? 3 : 2;
  for (int d = 0; d < depth; d++) {
    const int pat = d == 0 ? ctx.choose(5, "temperatures") : (ctx.flag("reset temperatures") ? 4 : -1);
    if (pat >= 0) temperatures(u, pat);
    bool blocked = false;
    const double I = ctx.pick({ 0.0, 1.0, -1.0, 2.5 }, "current");
    if (isStatusBad(u->setCurrent(I * cap, false, false))) return;
    const int n = ctx.pick({ 1, 12 }, "steps");
    const double dt = d == 0 && !ctx.thorough ? 5.0 : ctx.pick({ 0.0, 1.0, 5.0 }, "dt");
    if (d > 0 && !cell) blocked = ctx.flag("blocked");
    u->setBlockDegAndTherm(blocked);
    if (!step(ctx, p, dt, n, fmt("%s strategy %d: I %gC, %d steps of %g s, T pattern %d (step %d)", e.c_str(), strat, I, n, dt, pat, d), blocked)) return;
  }
}

// a larger battery of cells with varied capacity and resistance
static void varied(Ctx &ctx)
{
  Pack p;
  const double capf = ctx.pick({ 1.0, 0.7, 1.6 }, "capacity"), resf = ctx.pick({ 1.0, 2.0 }, "resistance");
  const int how = ctx.choose(3, "unit");
  auto mk = [&](double f, double r) { return Deep_ptr<SU>(newSPMdeg({}, f, r, 1, 1)); };
  if (how == 0) p.u = mk(capf, resf);
  else {
    std::vector<Deep_ptr<SU>> k;
    k.push_back(mk(1, 1)), k.push_back(mk(capf, resf)), k.push_back(mk(1, resf));
    Module *m = how == 1 ? static_cast<Module *>(new Module_s("s", settings::T_ENV, false, false, 3, 1, 1)) : new Module_p("p", settings::T_ENV, false, false, 3, 1, 1);
    m->setSUs(k, false, false);
    p.u = Deep_ptr<SU>(m);
    if (ctx.flag("contacts")) setRc(m, 2e-3, p.Rc);
  }
  SU *u = p.u.get();
  u->setCurrent(0, false, false);
  temperatures(u, ctx.choose(5, "temperatures"));
  for (int d = 0; d < 2; d++) {
    const double I = ctx.pick({ -1.2, 0.0, 1.2 }, "current");
    u->setCurrent(I * u->Cap(), false, false);
    const int n = ctx.pick({ 1, 30 }, "steps");
    if (!step(ctx, p, 2, n, fmt("varied %d (%g, %g): I %gC, %d steps (step %d)", how, capf, resf, I, n, d), false)) return;
  }
}

#if SLIDE_VERIF_T_MODEL == 2
// temperatures that leave the permitted range and inconsistent times are refused
static void refused(Ctx &ctx)
{
  const int which = ctx.choose(4, "case");
  if (which == 0) { // a cell that gets too hot or too cold
    const double T = ctx.pick({ 59.9999, 60.0, 59.0, 0.0001, 0.5, 20.0 }, "T"), I = ctx.pick({ 0.0, 40.0, -20.0, 3.0 }, "I"), Te = ctx.pick({ 0.0, 15.0, 60.0 }, "T environment");
    const int n = ctx.pick({ 120, 1000 }, "steps"); // so long that the explicit step overshoots the environment
    auto c = newSPM(0.5);
    SUp u(c);
    u->setT(KE(T));
    try {
      c->setTenv(KE(Te));
    } catch (int) {
      ctx.prune();
    }
    u->setCurrent(n > 500 && I > 3 ? 8 : I, false, false);
    std::unique_ptr<SU> x(u->copy());
    x->setBlockDegAndTherm(true);
    const double t = 0.5 * n;
    x->timeStep_CC(0.5, n);
    const double want = KE(T) + (heatOf(static_cast<Cell_SPM *>(x.get())) * t + 45 * ACELL * (KE(Te) - KE(T)) * t) / heatCapacity(c);
    if (std::isnan(want)) ctx.prune();
    const bool ok = want >= KE(0) && want <= KE(60);
    int e = 0;
    try {
      u->timeStep_CC(0.5, n);
    } catch (int v) {
      e = v;
    }
    ctx.step("cell at %g with %g A in %g for %g s: %d, expected %g", T, I, Te, t, e, want - KE(0));
    if (std::abs(want - KE(0)) < 1e-6 || std::abs(want - KE(60)) < 1e-6) return;
    ctx.check((e == 9) == !ok && (e == 0) == ok, "P19/range-refused", fmt("a cell at %g degC with %g A that would go to %g degC: result %d", T, I, want - KE(0), e));
    if (ok) ctx.near(u->T(), want, "P19/alone", "temperature of a cell on its own", 0, 1e-8);
    if (!ok && want < KE(0)) ctx.cover("cell too cold");
    if (e) { // the refused step is over: the next one takes its own heat and its own time
      ctx.check(u->T() == KE(T), "P19/refused-temperature", "a refused thermal step changes the temperature");
      u->setT(KE(25));
      u->setCurrent(ctx.pick({ 0.0, 2.0 }, "next current"), false, false);
      x.reset(u->copy());
      x->setBlockDegAndTherm(true);
      x->timeStep_CC(2, 10);
      const double next = KE(25) + (heatOf(static_cast<Cell_SPM *>(x.get())) * 20 + 45 * ACELL * (KE(Te) - KE(25)) * 20) / heatCapacity(c);
      try {
        u->timeStep_CC(2, 10);
      } catch (int v) {
        if (!std::isnan(next)) ctx.fail("P19/alone", fmt("the step after a refused one throws %d", v));
        return;
      }
      if (!std::isnan(next)) ctx.near(u->T(), next, "P19/alone", "temperature of a cell on its own, in the step after a refused one", 0, 1e-8), ctx.cover("after a refused step");
    }
    ctx.cover(ok ? "in range" : "cell out of range");
  }
  if (which == 1) { // the coolant
    auto u = build("s(M50,M50)", 1);
    const double T = ctx.pick({ 0.001, 0.5, 5.0 }, "T");
    for (auto n : nodes(u.get())) n->setT(KE(T));
    dynamic_cast<CoolSystem *>(asModule(u.get())->getCoolSystem());
    const int n = ctx.pick({ 1, 50, 400 }, "steps");
    double lowest = KE(T);
    int e = 0;
    try {
      u->timeStep_CC(2, n);
    } catch (int v) {
      e = v;
    }
    if (!e) lowest = u->T();
    const double want = KE(T) - 15.0 * 2 * n / (RHOCP_AIR * 2); // a new system cools with full power
    ctx.step("coolant at %g: %d, expected %g", T, e, want - KE(0));
    ctx.check((e == 99) == (want < KE(0)), "P19/coolant-refused", fmt("coolant that would go to %g degC: result %d", want - KE(0), e));
    if (!e) ctx.near(lowest, want, "P19/coolant", "coolant temperature", 0, 1e-6);
    ctx.cover(e ? "coolant out of range" : "in range");
  }
  if (which == 2) { // inconsistent time bookkeeping: a member lives on its own for a while
    const auto e = ctx.pick(std::vector<std::string>{ "s(M50,M50)", "s(s(M50,M50)^r,M50)", "s(M50,p(M50,M50)^r)" }, "pack");
    auto u = build(e, 1);
    auto ls = leaves(u.get());
    const double x = ctx.pick({ 0.0, 0.5, 0.99, 1.01, 3.0, 1000.0 }, "extra");
    const auto i = static_cast<size_t>(ctx.choose(static_cast<int>(ls.size()), "member"));
    const bool viaModule = ctx.flag("module") && ls[i]->getParent() != u.get();
    SU *m = viaModule ? ls[i]->getParent() : static_cast<SU *>(ls[i]);
    m->timeStep_CC(x, 1);
    int r = 0;
    try {
      u->timeStep_CC(5, 1);
    } catch (int v) {
      r = v;
    }
    ctx.step("%s: member %zu lived %g s longer: %d", e.c_str(), i, x, r);
    ctx.check((r == 8 || r == 98) == (x > 1) && (r == 0) == (x <= 1), "P19/time-refused", fmt("%s: a %s that lived %g s longer: result %d", e.c_str(), viaModule ? "module" : "cell", x, r));
    ctx.cover(r ? "time refused" : "time accepted");
  }
  if (which == 3) { // asked directly
    auto u = build("s(M50,M50)^r", 1);
    auto ls = leaves(u.get());
    double T[1] = { KE(20) }, K[1] = { 5 }, A[1] = { 0.02 };
    const double tim = ctx.pick({ 0.0, 0.5, 1.5, 60.0, -2.0 }, "time");
    SU *m = ctx.flag("module") ? u.get() : static_cast<SU *>(ls[0]);
    int r = 0;
    double t = 0;
    const double t0 = m->T();
    try {
      t = m->thermalModel(1, T, K, A, tim);
    } catch (int v) {
      r = v;
    }
    ctx.step("direct, %g s: %d", tim, r);
    ctx.check((r == 8 || r == 98) == (std::abs(tim) > 1) && (r == 0) == (std::abs(tim) <= 1), "P19/time-refused", fmt("thermal model for %g s after no time: result %d", tim, r));
    ctx.check(m->T() == t0, "P19/returned", "the thermal model returns the new temperature, its caller sets it");
    if (!r && m != u.get()) ctx.check(t == t0, "P19/no-time", "the temperature changes in no time");
  }
}
#endif

int main(int argc, char **argv)
{
  std::vector<mc::Scenario> s{ { "histories", histories }, { "varied", varied } };
#if SLIDE_VERIF_T_MODEL == 2
  s.push_back({ "refused", refused });
#endif
  return main_(argc, argv, s);
}
