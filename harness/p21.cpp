// P21 - a battery scales its cells and accounts for converter losses.
#include "common.hpp"
#include "power_conversion/Converter.hpp"
using namespace H;

// ------------------------------------------------------------------ reference losses ----
// A two-stage converter made of 200 kW inverters (values of the documentation in Converter.cpp)
static double drop(double I) { return std::abs(I) > 30 ? 1 + 2.0 / 270 * (std::abs(I) - 30) : std::abs(I) / 30; }
static double losses(double Pnom, double V, double I)
{
  const double n = std::ceil(Pnom / 200e3), i = I / n, idc = i * V / 1500, f = 8000;
  const double dcCond = std::abs(i) * drop(i) * std::abs(1 + 2 * V / 1500);
  const double dcSwitch = f * (6 + 0.1 * std::abs(i - 50)) * 1e-3;
  const double acCond = std::abs(idc) * drop(idc) * 3;
  const double Eon = (6 + 0.1 * std::abs(idc - 50)) * 1e-3;
  const double acSwitch = 6 * f * (2 * Eon + 1e-3);
  const double w = 2 * std::acos(-1.0) * f * 3e-3;
  const double filter = 13.6e-3 * w * w + 3 * 13.6e-3 * idc * idc + 13.6e-3 * i * i;
  return n * (dcCond + dcSwitch + acCond + acSwitch + filter);
}

static void converter(Ctx &ctx)
{
  Converter c;
  double P = 200e3;
  const int n = ctx.choose(ctx.thorough ? 3 : 2, "number of settings");
  for (int k = 0; k < n; k++) {
    P = ctx.pick({ 1.0, 67.2, 199999.0, 200000.0, 200001.0, 400000.0, 1e6, 2.7e7 }, "power");
    c.setPower(P);
  }
  const double V = ctx.pick({ 0.0, 2.7, 3.7, 30.0, 100.0, 749.0, 1260.0, 1500.0 }, "V");
  const double e = 1e-9;
  const double I = ctx.pick({ 0.0, 1e-6, 1.0, 29.0, 30 - e, 30.0, 30 + e, 49.0, 50.0, 51.0, 60.0, 150.0, 299.0, 1000.0, 12000.0 }, "I") * (ctx.flag("charging") ? -1 : 1);
  const double got = c.getLosses(V, I), want = losses(P, V, I);
  ctx.step("losses(%g, %g) at %g W: %g", V, I, P, got);
  ctx.near(got, want, "P21/losses", fmt("losses of a %g W converter at %g V, %g A", P, V, I), 1e-12, 1e-9);
  ctx.check(got >= 0, "P21/negative-losses", fmt("losses of a %g W converter at %g V, %g A are %g", P, V, I, got));
  ctx.check(c.getLosses(V, I) == got, "P21/pure", "asking for the losses changes them");
  ctx.state({ got });
}

// ------------------------------------------------------------------ batteries ----
struct Sys
{
  Deep_ptr<SU> bu, mu; // the battery, and an equal module on its own
  Battery *b;
  SU *m;
  double ns, np;
  double loss{ 0 }, total{ 0 };
};
static Sys make(const std::string &mod, unsigned ns, unsigned np)
{
  Sys s{ build(fmt("b%ux%u:%s", ns, np, mod.c_str())), build(mod), nullptr, nullptr, double(ns), double(np) };
  s.b = static_cast<Battery *>(s.bu.get()), s.m = s.mu.get();
  return s;
}
static void same(Ctx &ctx, Sys &s, const std::string &w)
{
  auto &b = *s.b;
  auto &m = *s.m;
  auto k = [&](double got, double want, const char *key, const char *what) { ctx.near(got, want, std::string("P21/") + key, w + ": " + what, 1e-12, 1e-12); };
  k(b.I(), m.I() * s.np, "current", "current");
  k(safeV(&b), safeV(&m) < -999 ? safeV(&m) : safeV(&m) * s.ns, "voltage", "voltage");
  k(safeOCV(&b), safeOCV(&m) < -999 ? safeOCV(&m) : safeOCV(&m) * s.ns, "ocv", "open-circuit voltage");
  k(b.getRtot(), m.getRtot() * s.ns / s.np, "resistance", "resistance");
  k(b.Cap(), m.Cap() * s.np, "capacity", "capacity");
  k(b.Vmin(), m.Vmin() * s.ns, "limits", "Vmin"), k(b.VMIN(), m.VMIN() * s.ns, "limits", "VMIN");
  k(b.Vmax(), m.Vmax() * s.ns, "limits", "Vmax"), k(b.VMAX(), m.VMAX() * s.ns, "limits", "VMAX");
  k(double(b.getNcells()), double(m.getNcells()) * s.ns * s.np, "cells", "number of cells");
  double vb = 0, vm = 0;
  const auto sb = b.checkVoltage(vb, false), sm = m.checkVoltage(vm, false);
  ctx.check(sb == sm, "P21/check", w + fmt(": verdict %d for the battery, %d for its module", int(sb), int(sm)));
  k(vb, vm * s.ns, "check", "checked voltage");
  auto lb = leaves(&b), lm = leaves(&m);
  ctx.check(lb.size() == lm.size(), "P21/cells", w + ": cells");
  for (size_t i = 0; i < lb.size(); i++) {
    auto x = statesOf(lb[i]), y = statesOf(lm[i]);
    for (size_t j = 0; j < x.size(); j++) ctx.near(x[j], y[j], "P21/passed-on", w + fmt(": state %zu of cell %zu", j, i), 1e-12, 1e-14);
    k(lb[i]->T(), lm[i]->T(), "passed-on", "cell temperature");
  }
  k(b.getConvLosses_total(), s.total, "losses-total", "converter losses so far");
  ctx.state({ b.I(), safeV(&b), s.loss, s.total });
}
static void histories(Ctx &ctx)
{
  static const std::vector<std::string> mods{ "s(B50,E60)", "p(B50,B50)", "s(M50,M60)", "p(M50,M50)", "s(p(E50,E50)^r,B50)", "s(D50,M50)", "s(B99,B99)", "s(11*B50)" };
  const auto e = mods[static_cast<size_t>(ctx.choose(static_cast<int>(mods.size()), "module"))];
  static const std::vector<std::pair<unsigned, unsigned>> cp{ { 1, 1 }, { 3, 2 }, { 1, 5 }, { 15, 1 }, { 300, 90 } };
  const auto c = cp[static_cast<size_t>(ctx.choose(static_cast<int>(cp.size()), "copies"))];
  auto s = make(e, c.first, c.second);
  s.b->setCurrent(0, false, false), s.m->setCurrent(0, false, false);
  s.b->setBlockDegAndTherm(false), s.m->setBlockDegAndTherm(false);
  const double P = s.m->Cap() * s.np * s.m->Vmax() * s.ns, cap = s.m->Cap();
  const bool spm = e.find('M') != std::string::npos;
  const auto base = fmt("%ux%u copies of %s", c.first, c.second, e.c_str());
  same(ctx, s, base);
  const int depth = ctx.thorough ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(11, "op");
    auto w = base + fmt(", op %d (step %d)", op, d);
    Status sb = Status::Success, sm = Status::Success;
    int xb = 0, xm = 0;
    double dt = 0;
    int n = 0;
    try {
      if (op == 0) sb = s.b->setCurrent(0.7 * cap * s.np, true, false);
      if (op == 1) sb = s.b->setCurrent(-1.1 * cap * s.np, true, false);
      if (op == 2) sb = s.b->setCurrent(40 * cap * s.np, true, false); // refused by most
      if (op == 3) dt = 2, n = 10, s.b->timeStep_CC(2, 10);
      if (op == 4) dt = 5, n = 1, s.b->timeStep_CC(5, 1);
      if (op == 7) s.b->setBlockDegAndTherm(true);
      if (op == 8) s.b->setCurrent(0.4 * cap * s.np, false, false);
      if (op == 9) dt = -1, s.b->timeStep_CC(-1, 1);
    } catch (int x) {
      xb = x;
    }
    try {
      if (op == 0) sm = s.m->setCurrent(0.7 * cap, true, false);
      if (op == 1) sm = s.m->setCurrent(-1.1 * cap, true, false);
      if (op == 2) sm = s.m->setCurrent(40 * cap, true, false);
      if (op == 3) s.m->timeStep_CC(2, 10);
      if (op == 4) s.m->timeStep_CC(5, 1);
      if (op == 7) s.m->setBlockDegAndTherm(true);
      if (op == 8) s.m->setCurrent(0.4 * cap, false, false);
      if (op == 9) s.m->timeStep_CC(-1, 1);
    } catch (int x) {
      xm = x;
    }
    ctx.check(sb == sm && xb == xm, "P21/answer", w + fmt(": the battery answers %d (exception %d), its module %d (%d)", int(sb), xb, int(sm), xm));
    if (xb && op != 9) return;
    if (n > 0 && !xb) {
      const double v = s.b->V(), l = losses(P, v, s.b->I()) * dt * n;
      s.loss += l, s.total += l;
      ctx.cover("losses");
    }
    if (op == 5) {
      const double got = s.b->getAndResetConvLosses();
      ctx.near(got, s.loss, "P21/losses-read", w + ": losses since the last reading", 1e-10, 1e-9);
      s.loss = 0;
      ctx.check(s.b->getAndResetConvLosses() == 0, "P21/losses-read", w + ": losses were not reset by reading them");
      ctx.cover("losses read");
    }
    if (op == 6) s.b->resetConvLosses(), s.loss = 0;
    if (op == 10) { // energy of all cooling systems, of every copy
      std::function<double(SU *)> sum = [&](SU *u) {
        double x = 0;
        if (auto m = asModule(u)) x += m->getCoolSystem()->getEoperation();
        for (auto k : children(u)) x += sum(k);
        return x;
      };
      const double want = s.b->getCoolSystem()->getEoperation() + s.ns * s.np * sum(s.b->getCells());
      ctx.near(s.b->getCoolingLoad(), want, "P21/cooling-load", w + ": cooling load", 1e-12, 1e-12);
      ctx.check(s.b->getCoolingLoad() == 0, "P21/cooling-load", w + ": the cooling load was not reset by reading it");
    }
    ctx.step("%s: %d %d, V %g I %g", w.c_str(), int(sb), xb, safeV(s.b), s.b->I());
    if (isStatusBad(sb)) ctx.cover("refused command");
    same(ctx, s, w);
  }
  ctx.near(s.b->getAndResetConvLosses(), s.loss, "P21/losses-read", base + ": losses since the last reading (end)", 1e-10, 1e-9);
  (void)spm;
}

// states, voltages and temperatures set through the battery
static void setting(Ctx &ctx)
{
  const auto e = ctx.pick(std::vector<std::string>{ "s(B50,E60)", "p(B50,B50)", "s(M50,M60)", "s(p(E50,E50)^r,B50)" }, "module");
  const unsigned ns = ctx.pick({ 1u, 4u }, "ns"), np = ctx.pick({ 1u, 3u }, "np");
  auto s = make(e, ns, np);
  const auto base = fmt("%ux%u copies of %s", ns, np, e.c_str());
  s.b->setCurrent(0, false, false), s.m->setCurrent(0, false, false);
  const int op = ctx.choose(3, "op");
  if (op == 0) { // states of a used module
    auto x = build(e);
    blockAll(x.get(), true);
    x->setCurrent(0.5 * x->Cap(), false, false);
    x->timeStep_CC(5, 20);
    if (ctx.flag("warm"))
      for (auto n : nodes(x.get())) n->setT(PhyConst::Kelvin + 31.41592654);
    const bool invalid = ctx.flag("invalid");
    for (auto c : leaves(x.get())) safeV(c); // the stored voltages are up to date
    auto st = statesOf(x.get());
    if (invalid) { // a temperature that is not permitted
      auto c = leaves(x.get()).back();
      auto own = statesOf(c);
      auto it = std::search(st.begin(), st.end(), own.begin(), own.end());
      for (auto q = it; q != it + static_cast<long>(own.size()); ++q)
        if (*q == c->T()) {
          *q = 100;
          break;
        }
    }
    auto mine = st;
    mine.push_back(PhyConst::Kelvin + 27); // the temperature of the battery
    std::span<double> a{ mine }, b{ st };
    const auto r1 = s.b->setStates(a, true, false), r2 = s.m->setStates(b, true, false);
    ctx.check(r1 == r2, "P21/answer", base + fmt(": setStates answers %d, its module %d", int(r1), int(r2)));
    ctx.check(isStatusBad(r1) || (a.empty() && s.b->T() == PhyConst::Kelvin + 27), "P21/battery-temperature", base + ": temperature of the battery after setStates");
    auto back = statesOf(s.b);
    ctx.check(isStatusBad(r1) || back == mine, "P21/states", base + ": states read back");
    ctx.cover(isStatusBad(r1) ? "states refused" : "states set");
    same(ctx, s, base + " after setStates");
  }
  if (op == 1) { // a voltage
    const double f = ctx.pick({ 1.0, 0.97, 1.03, 1.4, 0.2 }, "factor"), v = f * s.m->V();
    const auto r = s.b->setVoltage(v * ns, true, false);
    ctx.step("%s: setVoltage(%g): %d, V %g", base.c_str(), v * ns, int(r), s.b->V());
    if (!isStatusBad(r)) ctx.near(s.b->V(), v * ns, "P21/set-voltage", base + ": voltage set", 1e-6, 1e-4);
    ctx.check(f > 1.2 || f < 0.5 ? isStatusBad(r) : !isStatusBad(r), "P21/set-voltage", base + fmt(": setVoltage(%g times the present voltage) answers %d", f, int(r)));
    ctx.near(s.b->I(), s.b->getCells()->I() * np, "P21/current", base + ": current", 1e-12, 1e-12);
    ctx.near(s.b->V(), s.b->getCells()->V() * ns, "P21/voltage", base + ": voltage", 1e-12, 1e-12);
  }
  if (op == 2) {
    const double t = PhyConst::Kelvin + ctx.pick({ 5.0, 33.0 }, "T");
    s.b->setT(t);
    ctx.check(s.b->T() == t && s.b->getCoolSystem()->T() == t, "P21/battery-temperature", base + ": temperature of the battery");
    same(ctx, s, base + " after setT");
    ctx.check(s.b->getThotSpot() == std::max(t, s.m->getThotSpot()), "P21/hot-spot", base + ": hottest temperature");
    s.b->timeStep_CC(2, 1);
    ctx.check(s.b->T() == t, "P21/battery-temperature", base + ": temperature without thermal model");
  }
}

// only a module on its own, with a cooling system that is not an outermost one, can be the
// content of a battery, and there is only one
static void content(Ctx &ctx)
{
  const int which = ctx.choose(5, "case");
  auto b = std::make_unique<Battery>("bat");
  auto get = [&](const std::string &e) {
    auto u = build(e);
    return Deep_ptr<Module>(asModuleOf(u));
  };
  auto put = [&](Deep_ptr<Module> &m) {
    try {
      b->setModule(std::move(m));
    } catch (int x) {
      return x;
    }
    return 0;
  };
  if (which == 0 || which == 1 || which == 2) {
    auto m = get(which == 0 ? "s(E50,E50)" : which == 1 ? "s(E50,E50)^r" : "p(E50,E50)^o");
    auto *raw = m.get();
    const int r = put(m);
    ctx.step("cooling %d: %d", which, r);
    ctx.check((r == 10) == (which == 0), "P21/content", fmt("a module with cooling system %d: %d", which, r));
    if (r) {
      ctx.check(b->getCells() == nullptr && m.get() == raw && raw->getParent() == nullptr, "P21/content", "a refused module is kept by its owner");
      auto ok = get("s(E50,E50)^r"); // the battery is still empty and usable
      ctx.check(put(ok) == 0 && b->getNcells() == 2, "P21/content", "a battery that refused a module accepts another one");
      ctx.cover("outermost module refused");
    } else
      ctx.check(b->getCells() != nullptr && b->getCells()->getParent() == b.get(), "P21/content", "the module belongs to the battery");
  }
  if (which == 3) { // a member of another unit
    auto p = build("s(s(E50,E50)^r,E50)");
    auto *inner = static_cast<Module *>(children(p.get())[0]);
    Deep_ptr<Module> m(static_cast<Module *>(inner->copy()));
    m->setParent(p.get());
    const int r = put(m);
    ctx.check(r == 10 && b->getCells() == nullptr && m->getParent() == p.get(), "P21/content", fmt("a member of another unit: %d", r));
    ctx.cover("member refused");
  }
  if (which == 4) {
    auto m = get("s(E50,E50)^r"), m2 = get("s(E50,E50,E50)^r");
    ctx.check(put(m) == 0, "P21/content", "first module");
    auto *first = b->getCells();
    const int r = put(m2);
    ctx.check(r == 10 && b->getCells() == first && b->getNcells() == 2 && m2->getParent() == nullptr, "P21/content", fmt("a second module: %d", r));
    ctx.cover("second module refused");
  }
}

// the energy used by the cooling systems, with the thermal model on: every reading reports
// what was used since the previous one, in every copy, whenever it is read
static void cooling(Ctx &ctx)
{
  const auto e = ctx.pick(std::vector<std::string>{ "s(M50,M55)", "s(p(M50,M50)^r,M50)", "p(s(M50,M50)^r,M52)" }, "module");
  const unsigned ns = ctx.pick({ 1u, 3u }, "ns"), np = ctx.pick({ 1u, 4u }, "np");
  const int strat = ctx.pick(ctx.thorough ? std::vector<int>{ 1, 2, 3, 4, 5 } : std::vector<int>{ 1, 5 }, "strategy");
  const auto expr = ns * np == 1 && ctx.flag("module only") ? e : fmt("b%ux%u:%s", ns, np, e.c_str());
  const double copies = expr[0] == 'b' ? ns * np : 1;
  auto x = build(expr, strat), y = build(expr, strat); // the load of y is only read at the end
  auto load = [](SU *u) { return asModule(u) ? asModule(u)->getCoolingLoad() : dynamic_cast<Battery *>(u)->getCoolingLoad(); };
  auto energies = [&](SU *u) {
    double sum = 0;
    for (auto n : nodes(u)) {
      if (auto m = asModule(n)) sum += copies * m->getCoolSystem()->getEoperation();
      if (auto b = dynamic_cast<Battery *>(n)) sum += b->getCoolSystem()->getEoperation();
    }
    return sum;
  };
  for (auto u : { x.get(), y.get() }) {
    u->setBlockDegAndTherm(false);
    u->setCurrent(0, false, false);
    for (auto n : nodes(u)) n->setT(PhyConst::Kelvin + 38.14159265); // warm, so that they are cooled
  }
  const double cap = x->Cap();
  double seen = 0;
  const int depth = ctx.thorough ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(5, "op");
    const auto w = fmt("%s, op %d (step %d)", expr.c_str(), op, d);
    if (op == 0) {
      const double want = energies(x.get()), got = load(x.get());
      ctx.near(got, want, "P21/cooling-load", w + ": cooling load", 1e-12, 1e-12);
      ctx.check(energies(x.get()) == 0, "P21/cooling-load", w + ": a cooling system was not reset by reading it");
      ctx.check(load(x.get()) == 0, "P21/cooling-load", w + ": the cooling load was not reset by reading it");
      seen += got;
      if (got > 0) ctx.cover("cooling read");
      if (got > 0 && got < 0.1) ctx.cover("little cooling read");
    } else
      for (auto u : { x.get(), y.get() }) {
        if (op == 1) u->setCurrent(0.8 * cap, false, false);
        try {
          u->timeStep_CC(op == 4 ? 0.003 : 5, op >= 3 ? 1 : 6);
        } catch (int) {
          ctx.prune();
        }
      }
    ctx.step("%s: T %g", w.c_str(), x->T());
    ctx.check(x->T() == y->T() && x->I() == y->I(), "P21/cooling-load", w + ": reading the cooling load changes the battery");
  }
  seen += load(x.get());
  ctx.near(seen, load(y.get()), "P21/cooling-load", expr + ": all readings together", 1e-9, 1e-12);
  ctx.state({ seen });
}

int main(int argc, char **argv)
{
  if (settings::T_MODEL == 2) return main_(argc, argv, { { "cooling", cooling } });
  return main_(argc, argv, { { "converter", converter }, { "histories", histories }, { "setting", setting }, { "content", content } });
}
