// P07 - lithium and charge are conserved in single-particle cells.
#include "spmref.hpp"
using namespace H;

// amount of lithium [C] in an electrode: mean concentration times volume of active material
struct Amount
{
  double p, n;     // [C]
  double mp, mn;   // mean concentrations [mol m-3]
  double fp, fn;   // [C] per mol m-3
};
static double area(Cell_SPM *c) { return c->getAnodeSurface() / (c->getStateObj().an() * c->getStateObj().thickn()); }
static Amount amount(Cell_SPM *c)
{
  const auto &d = ref::Data::get();
  auto &s = c->getStateObj();
  Amount a{};
  const double S = area(c);
  a.mp = s.zp(d.ind) * d.p.C[d.ind];
  a.mn = s.zn(d.ind) * d.n.C[d.ind];
  a.fp = s.ap() * s.thickp() * S * ref::F * d.p.R / 3;
  a.fn = s.an() * s.thickn() * S * ref::F * d.n.R / 3;
  a.p = a.mp * a.fp, a.n = a.mn * a.fn;
  return a;
}
// node concentrations, surface .. centre
static void conc(Cell_SPM *c, std::array<double, 7> &p, std::array<double, 7> &n)
{
  c->getC(p.data(), n.data());
}

// ---------------------------------------------------- conservation without ageing ----
static void conserve(Ctx &ctx)
{
  const double soc = ctx.pick({ 0.5, 0.15, 0.9 }, "start");
  const double capf = ctx.pick({ 1.0, 0.5 }, "capacity factor");
  const double T0 = ctx.pick({ 288.0, 310.0 }, "temperature");
  std::unique_ptr<Cell_SPM> c(newSPMdeg({}, capf, 1, 1, 1, "c", soc));
  const bool blocked = ctx.flag("blocked");
  c->setBlockDegAndTherm(blocked);
  c->setT(T0);
  const auto a0 = amount(c.get());
  double Q = 0; // charge taken out [C]
  const double soc0 = c->SOC(), cap = c->Cap();
  double tol = 0;
  const int depth = ctx.thorough ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(10, "operation");
    try {
      switch (op) {
      case 0:
      case 1:
      case 2:
      case 3: {
        const double i = std::vector<double>{ 16, -8, 0, 40 }[static_cast<size_t>(op)] * capf;
        c->setCurrent(i, false, false);
        ctx.step("current %g", i);
        break;
      }
      case 4:
        c->setT(c->T() > 300 ? 283.141592654 : 315.271828183);
        ctx.step("temperature %g", c->T());
        break;
      default: {
        const double dt = std::vector<double>{ 1, 2, 0.1, 0.7, 1 }[static_cast<size_t>(op - 5)];
        const int n = std::vector<int>{ 5, 30, 1, 13, 1 }[static_cast<size_t>(op - 5)];
        const double I = c->I();
        const auto b = amount(c.get());
        c->timeStep_CC(dt, n);
        const auto e = amount(c.get());
        ctx.step("step %g x%d at %g A", dt, n, I);
        const auto w = fmt("step %g x%d at %g A from fraction %g, capacity factor %g, T %g: ", dt, n, I, soc, capf, c->T());
        const double q = I * dt * n;
        ctx.near(e.p - b.p, q, "P07/cathode", w + "cathode", 1e-8, 1e-6);
        ctx.near(e.n - b.n, -q, "P07/anode", w + "anode", 1e-8, 1e-6);
        Q += q;
        tol += std::abs(q) * 1e-9;
        if (I > 0) ctx.cover("discharge");
        if (I < 0) ctx.cover("charge");
        if (I == 0) ctx.cover("rest");
      }
      }
    } catch (int x) {
      ctx.step("refused %d", x);
      return;
    }
    const auto a = amount(c.get());
    const auto w = fmt("after %g C: ", Q);
    ctx.near(a.p - a0.p, Q, "P07/total", w + "cathode", 1e-8, 1e-5 + tol);
    ctx.near(a.n - a0.n, -Q, "P07/total", w + "anode", 1e-8, 1e-5 + tol);
    ctx.near(c->SOC(), soc0 - Q / 3600 / cap, "P07/soc", w + "state of charge", 1e-10, 1e-12);
    ctx.near(c->getStateObj().LLI(), 0, "P07/lli", w + "lost lithium without ageing", 0, 0);
    auto &s = c->getStateObj();
    ctx.state({ a.p, a.n, s.zp(0), s.zn(0), c->I(), c->T() });
  }
}

// ------------------------------------------------------------------ relaxation -------
static void relax(Ctx &ctx)
{
  const double soc = ctx.pick({ 0.5, 0.2, 0.85 }, "start");
  const double T = ctx.pick({ 288.0, 278.0, 298.0, 310.0 }, "temperature");
  const double I = ctx.pick({ 16.0, -16.0, 48.0, -4.0 }, "current");
  const int n0 = ctx.pick({ 20, 120, 3 }, "seconds");
  std::unique_ptr<Cell_SPM> c(newSPMdeg({}, 1, 1, 1, 1, "c", soc));
  c->setBlockDegAndTherm(ctx.flag("blocked"));
  c->setT(T);
  c->setCurrent(I, false, false);
  try {
    c->timeStep_CC(1, n0);
    c->setCurrent(0, false, false);
  } catch (int x) {
    ctx.step("refused %d", x);
    return;
  }
  const auto a0 = amount(c.get());
  std::array<double, 7> p, n;
  auto spread = [&](double &sp, double &sn) {
    conc(c.get(), p, n);
    sp = *std::max_element(p.begin(), p.end()) - *std::min_element(p.begin(), p.end());
    sn = *std::max_element(n.begin(), n.end()) - *std::min_element(n.begin(), n.end());
  };
  double sp0, sn0, sp, sn;
  spread(sp0, sn0);
  const auto w = fmt("rest after %g A for %d s from fraction %g at %g K: ", I, n0, soc, T);
  const int rounds = ctx.thorough ? 12 : 8;
  for (int k = 0; k < rounds; k++) {
    c->timeStep_CC(1, 600);
    ctx.step("rest 600 s");
    spread(sp, sn);
    ctx.check(sp <= 0.75 * sp0 + 1e-5 && sn <= 0.75 * sn0 + 1e-5, "P07/relax", w + fmt("spread of the concentrations %g, %g was %g, %g ten minutes before", sp, sn, sp0, sn0));
    sp0 = sp, sn0 = sn;
    const auto a = amount(c.get());
    ctx.near(a.p, a0.p, "P07/rest", w + "cathode amount", 1e-11, 0);
    ctx.near(a.n, a0.n, "P07/rest", w + "anode amount", 1e-11, 0);
  }
  const auto a = amount(c.get());
  for (size_t i = 0; i < 7; i++) {
    ctx.near(p[i], a.mp, "P07/uniform", w + fmt("cathode node %zu", i), 1e-4, 0);
    ctx.near(n[i], a.mn, "P07/uniform", w + fmt("anode node %zu", i), 1e-4, 0);
  }
  double ps, ns;
  ctx.check(c->getCSurf(ps, ns, false), "P07/uniform", w + "no surface concentration");
  ctx.near(ps, a.mp, "P07/uniform", w + "cathode surface", 1e-4, 0);
  ctx.near(ns, a.mn, "P07/uniform", w + "anode surface", 1e-4, 0);
  ctx.state({ a.p, a.n, T });
  ctx.cover("relaxed");
}

// ------------------------------------------------------------- lithium-consuming -----
static void loss(Ctx &ctx)
{
  const int nd = ctx.thorough ? 5 : 4;
  Deg g;
  const int sei = ctx.choose(5, "SEI model");
  if (sei) g.sei = std::string(1, static_cast<char>('0' + sei));
  g.por = ctx.choose(2, "SEI porosity");
  const int cs = ctx.choose(ctx.thorough ? 6 : 4, "crack model");
  if (cs) g.cs = std::string(1, static_cast<char>('0' + (ctx.thorough ? cs : 2 * cs - 1)));
  g.csd = cs ? ctx.choose(2, "crack diffusion") : 0;
  const int lam = ctx.choose(ctx.thorough ? 5 : 3, "active material model");
  if (lam) g.lam = std::string(1, static_cast<char>('0' + (ctx.thorough ? lam : lam + 1)));
  g.pl = ctx.choose(2, "plating model");
  const double T0 = ctx.thorough ? ctx.pick({ 288.0, 278.0, 318.0 }, "temperature") : ctx.pick({ 288.0, 318.0 }, "temperature");
  const double capf = 1;
  std::unique_ptr<Cell_SPM> c(newSPMdeg(g, capf, 1, 1, 1, "c", 0.6));
  c->setT(T0);
  for (int d = 0; d < nd; d++) {
    const int op = ctx.choose(3, "current");
    const double I = std::vector<double>{ 16, -24, 0 }[static_cast<size_t>(op)];
    const int n = d % 2 ? 20 : 1;
    try {
      c->setCurrent(I, false, false);
      const auto b = amount(c.get());
      const double l0 = c->getStateObj().LLI();
      c->timeStep_CC(1, n);
      const auto e = amount(c.get());
      ctx.step("%g A for %d s", I, n);
      const auto w = g.str() + fmt(" at %g K: %g A for %d s: ", T0, I, n);
      const double q = I * n, dl = c->getStateObj().LLI() - l0;
      ctx.near((e.mp - b.mp) * b.fp, q, "P07/cathode-ageing", w + "cathode", 1e-8, 1e-6);
      ctx.near((e.mn - b.mn) * b.fn, -q - dl, "P07/loss", w + fmt("anode, with %g C reported lost", dl), 1e-8 + 1e-7 * std::abs(dl), 1e-6);
      ctx.check(dl >= 0, "P07/loss", w + "lost lithium reappeared");
      if (dl > 1e-4) ctx.cover("lithium lost");
      // the loss on its own, at rest, where no other charge covers it
      if (I == 0) ctx.near((e.mn - b.mn) * b.fn, -dl, "P07/loss-rest", w + "anode at rest", 1e-5, 3e-8);
      auto &s = c->getStateObj();
      ctx.state({ e.p, e.n, s.LLI(), s.zn(0) });
    } catch (int x) {
      ctx.step("refused %d", x);
      return;
    }
  }
}

// ---------------------------------------------------------------------- packs --------
static void pack(Ctx &ctx)
{
  static const std::vector<std::string> ps{ "s(M50,M60)", "p(M50,M55)", "s(M50,s(M40,M60))~1", "p(s(M50,M50),s(M52,M50))~1", "s(M50,D60)!", "b2x3:s(M50,M70)", "s(9*M50)~1", "p(6*M50)" };
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "pack"))];
  auto u = build(e);
  blockAll(u.get(), true);
  u->setCurrent(0, false, false);
  std::vector<Cell_SPM *> cs;
  for (auto l : leaves(u.get())) cs.push_back(dynamic_cast<Cell_SPM *>(l));
  const int depth = (ctx.thorough ? 5 : 4) - 2 * wide(e);
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(5, "operation");
    try {
      if (op < 3) {
        u->setCurrent(std::vector<double>{ 12, -20, 0 }[static_cast<size_t>(op)], false, false);
        ctx.step("current %g", u->I());
        continue;
      }
      std::vector<Amount> b;
      std::vector<double> I;
      for (auto c : cs) b.push_back(amount(c)), I.push_back(c->I());
      const double dt = op == 3 ? 1 : 2;
      const int n = op == 3 ? 1 : 10;
      u->timeStep_CC(dt, n);
      ctx.step("step %g x%d", dt, n);
      double total = 0, scale = 0;
      for (size_t i = 0; i < cs.size(); i++) {
        const auto a = amount(cs[i]);
        const auto w = e + fmt(": cell %zu at %g A for %g s: ", i, I[i], dt * n);
        ctx.near(a.p - b[i].p, I[i] * dt * n, "P07/pack", w + "cathode", 1e-8, 1e-6);
        ctx.near(a.n - b[i].n, -I[i] * dt * n, "P07/pack", w + "anode", 1e-8, 1e-6);
        total += a.p - b[i].p + a.n - b[i].n;
        scale += a.p;
        ctx.state({ a.p, a.n, I[i] });
      }
      ctx.near(total, 0, "P07/pack", e + ": lithium of the pack", 0, 1e-11 * scale);
      ctx.cover("pack");
    } catch (int x) {
      ctx.step("refused %d", x);
      return;
    }
  }
}

int main(int argc, char **argv)
{
  return main_(argc, argv, { { "conserve", conserve }, { "relax", relax }, { "loss", loss }, { "pack", pack } });
}
