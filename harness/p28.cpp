// P28 - single particle cells against an independent single particle model.
#include "spmref.hpp"
using namespace H;

static bool compare(Ctx &ctx, Cell_SPM &c, ref::Spm &r, const char *after)
{
  auto k = [&](const char *q) { return std::string("P28/") + q; };
  const std::string nm = std::string("after ") + after + ": ";
  ctx.near(c.I(), r.I, k("current"), nm + "I", 1e-12, 1e-13);
  ctx.near(c.T(), r.T, k("temperature"), nm + "T", 1e-13, 0);
  ctx.near(c.SOC(), r.SOC, k("soc"), nm + "SOC", 1e-10, 1e-12);
  ctx.near(c.Cap(), r.cap, k("capacity"), nm + "Cap", 1e-12, 0);
  const auto th = c.getThroughputs();
  ctx.near(th.time(), r.t, k("time"), nm + "time", 1e-11, 1e-12);
  ctx.near(th.Ah(), r.Ah, k("Ah"), nm + "Ah", 1e-10, 1e-12);
  ctx.near(c.getRtot(), r.R(), k("resistance"), nm + "R", 1e-10, 0);
  double sp, sn;
  const auto p = r.cp(&sp), n = r.cn(&sn);
  if (!(sp < 1e9 && sn < 1e9)) return false; // the explicit scheme has left its stability range
  double cp[settings::nch + 2], cn[settings::nch + 2], cps, cns;
  c.getC(cp, cn);
  for (size_t i = 0; i < p.size(); i++) {
    ctx.near(cp[i], p[i], k("concentration"), nm + fmt("cathode concentration at node %zu", i), 1e-9, 1e-9 * (sp + 1));
    ctx.near(cn[i], n[i], k("concentration"), nm + fmt("anode concentration at node %zu", i), 1e-9, 1e-9 * (sn + 1));
  }
  const bool in = c.getCSurf(cps, cns, false);
  ctx.near(cps, p[0], k("surface"), nm + "cathode surface concentration", 1e-9, 1e-9 * (sp + 1));
  ctx.near(cns, n[0], k("surface"), nm + "anode surface concentration", 1e-9, 1e-9 * (sn + 1));
  if (r.margin() < 1e-7) return true;
  ctx.check(in == r.inside(), k("bounds"), nm + fmt("surface concentrations %g, %g reported as %s", cps, cns, in ? "inside" : "outside"));
  ctx.near(th.Wh(), r.Wh, k("Wh"), nm + "Wh", 1e-8, 1e-10);
  if (in) {
    ctx.near(safeOCV(&c), r.ocv(), k("ocv"), nm + "OCV", 1e-8, 1e-8);
    ctx.near(safeV(&c), r.volt(), k("voltage"), nm + "V", 1e-8, 1e-8);
    ctx.cover(r.I > 0 ? "discharging" : r.I < 0 ? "charging" : "at rest");
  } else {
    double v;
    ctx.check(safeV(&c) <= 0, k("no-voltage"), nm + fmt("a voltage %g although the surface concentration is out of bounds", safeV(&c)));
    ctx.check(c.checkVoltage(v, false) == Status::V_not_calculated, k("no-voltage"), nm + "out of bounds, but the check does not say that no voltage was calculated");
    ctx.cover("out of bounds");
  }
  ctx.state({ r.I, r.T, r.SOC, p[0], p[3], n[0], n[3], r.Ah });
  return true;
}

static void history(Ctx &ctx)
{
  const int variant = ctx.choose(6, "cell");
  std::unique_ptr<Cell_SPM> c;
  ref::Spm r;
  if (variant == 0) c.reset(newSPM());
  if (variant == 1) {
    c.reset(newSPMdeg({}, 1.5, 2.0, 1, 1));
    r.cap = 24, r.S = 0.62 * 1.5, r.rp *= 2, r.rn *= 2, r.rc *= 2;
  }
  if (variant == 2) {
    c.reset(newSPMdeg({}, 0.8, 0.5, 2, 3));
    r.cap = 16 * 0.8, r.S = 0.62 * 0.8, r.rp *= .5, r.rn *= .5, r.rc *= .5;
  }
  if (variant == 3) {
    c.reset(newSPM());
    c->setGeometricParameters(5, 0.1, 0.4, 0.55, 60e-6, 80e-6);
    r.cap = 5, r.S = 0.1, r.ep = 0.4, r.en = 0.55, r.thp = 60e-6, r.thn = 80e-6;
    r.areas();
  }
  if (variant == 4) {
    c.reset(newSPM());
    c->overwriteCharacterisationStates(4e-14, 1e-13, 5e-3);
    r.Dp = 4e-14, r.Dn = 1e-13, r.rp = r.rn = 5e-3;
  }
  if (variant == 5) { // the other ready-made cell of the library
    static Cell_KokamNMC proto(Model_SPM::makeModel(), 0);
    c.reset(new Cell_KokamNMC(proto));
    r.S = 0.0982, r.rsei = 2037.4;
  }
  const double soc = ctx.pick({ 0.5, 0.03, 0.97, 0.8 }, "level");
  const double T0 = ctx.pick({ 288.0, 298.0, 330.0, 273.5 }, "temperature");
  double fp, fn;
  spmFractions(soc, fp, fn);
  c->setC(fp, fn), r.setC(fp, fn);
  c->setSOC(soc, false, false), r.SOC = soc;
  c->setT(T0), r.T = T0;
  c->setBlockDegAndTherm(ctx.flag("blocked"));
  compare(ctx, *c, r, "building");
  const int depth = ctx.thorough ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(12, "op");
    const char *name = "";
    try {
      if (op < 5) {
        const double I = std::vector<double>{ 16, -16, 0, 80, -48 }[static_cast<size_t>(op)] * r.S / 0.62;
        const bool check = d == 1;
        const auto s = c->setCurrent(I, check, false);
        if (!isStatusBad(s)) r.I = I;
        ctx.check(check || !isStatusBad(s), "P28/current-refused", "a current was refused without being checked");
        name = "current";
      } else if (op < 9) {
        const double dt = std::vector<double>{ 1, 0.5, 3, 0.02 }[static_cast<size_t>(op - 5)];
        const int n = std::vector<int>{ 1, 7, 40, 3 }[static_cast<size_t>(op - 5)];
        name = "step";
        for (int i = 0; i < n; i++) r.step(dt);
        c->timeStep_CC(dt, n);
      } else if (op == 9) {
        const double T = ctx.pick({ 283.0, 318.0 }, "T");
        c->setT(T), r.T = T;
        name = "temperature";
      } else if (op == 10) {
        c->setC(0.6, 0.5), r.setC(0.6, 0.5);
        name = "concentration";
      } else {
        c->setSOC(0.4, false, false), r.SOC = 0.4;
        name = "soc";
      }
    } catch (int e) {
      // ageing and heat cannot be calculated outside the range; everything else must succeed
      ctx.check(!r.inside() || r.margin() < 1e-7, "P28/exception", fmt("%s throws %d", name, e));
      ctx.cover("left the range");
      return;
    }
    ctx.step("%s (%d): I %g T %g V %g", name, op, r.I, r.T, r.volt());
    if (!compare(ctx, *c, r, name)) return;
  }
}

// long constant-current discharges and charges: every step is followed to the end of the range
static void sweep(Ctx &ctx)
{
  std::unique_ptr<Cell_SPM> c(newSPM());
  ref::Spm r;
  const double T = ctx.pick({ 288.0, 273.2, 298.0, 333.0 }, "temperature");
  const double I = ctx.pick({ 8.0, -8.0, 48.0, -48.0, 160.0, -1.0 }, "current");
  const bool blocked = ctx.flag("blocked");
  const double dt = ctx.pick({ 1.0, 0.25 }, "dt");
  c->setBlockDegAndTherm(blocked);
  c->setT(T), r.T = T;
  c->setCurrent(I, false, false), r.I = I;
  const int n = static_cast<int>(3600 * 17 / std::abs(I) / 2 / dt / 40);
  for (int i = 0; i < 48; i++) {
    for (int k = 0; k < n; k++) r.step(dt);
    try {
      c->timeStep_CC(dt, n);
    } catch (int e) {
      ctx.check(!r.inside(), "P28/exception", fmt("step throws %d inside the range", e));
      break;
    }
    ctx.step("sweep %d: %g", i, r.volt());
    if (!compare(ctx, *c, r, "sweep")) break;
  }
}

// other open circuit curves and rate constants
static void parameters(Ctx &ctx)
{
  std::unique_ptr<Cell_SPM> c(newSPM());
  ref::Spm r;
  const int order = ctx.choose(2, "order");
  const double T = ctx.pick({ 298.0, 310.0 }, "T");
  auto cur = [&]() {
    const double I = ctx.pick({ 0.0, 30.0, -20.0 }, "I");
    c->setCurrent(I, false, false), r.I = I;
  };
  c->setT(T), r.T = T;
  if (order) cur();
  if (order) c->V();
  const int what = ctx.choose(8, "what");
  if (what & 4) { // other materials
    c->setInitialConcentration(48000, 33000, 0.55, 0.45);
    r.Cp = 48000, r.Cn = 33000, r.setC(0.55, 0.45);
    if (order) cur(); // the current is zero when the concentration is uniform
    ctx.cover("other materials");
  }
  if (what & 1) {
    c->setOCVcurve("LGChem_OCV_NMC.csv", "LGChem_OCV_C.csv");
    r.ocvp = ref::Curve("LGChem_OCV_NMC.csv"), r.ocvn = ref::Curve("LGChem_OCV_C.csv");
  }
  if (what & 2) {
    c->setCharacterisationParam(6e-14, 9e-14, 1e-11, 5e-11, 2e-3);
    r.Dp = 6e-14, r.Dn = 9e-14, r.kp = 1e-11, r.kn = 5e-11;
    r.rp = r.rn = 2e-3 * (r.ap * r.thp + r.an * r.thn) * r.S / 2;
  }
  if (!order) cur();
  const double a = r.cp()[0] / r.Cp, b = r.cn()[0] / r.Cn;
  if (!r.ocvp.in(a) || !r.ocvn.in(b)) ctx.prune();
  ctx.step("parameters %d", what);
  compare(ctx, *c, r, "parameters");
  for (int i = 0; i < 4; i++) {
    for (int k = 0; k < 10; k++) r.step(1);
    try {
      c->timeStep_CC(1, 10);
    } catch (int e) {
      return;
    }
    if (!compare(ctx, *c, r, "parameters, step")) return;
  }
}

// each end of the range of each electrode on its own: almost empty or full particles at every current
static void bounds(Ctx &ctx)
{
  std::unique_ptr<Cell_SPM> c(newSPM());
  ref::Spm r;
  const double fp = ctx.pick({ 0.6, 0.4, 0.9, 0.98, 0.9995, 0.9999 }, "cathode"), fn = ctx.pick({ 0.5, 0.0003, 0.003, 0.03, 0.95, 0.985, 0.9993 }, "anode");
  c->setC(fp, fn), r.setC(fp, fn);
  const double T = ctx.pick({ 288.0, 325.0 }, "temperature");
  c->setT(T), r.T = T;
  const double I = ctx.pick({ 0.0, 1.0, -1.0, 8.0, -8.0, 16.0, -16.0, 40.0, -40.0 }, "current");
  c->setCurrent(I, false, false), r.I = I;
  // lithium fractions outside 0 to 1, or which are not a number, are refused
  for (const double x : { -1e-9, -0.3, 1 + 1e-9, 1.7, double{ NAN }, HUGE_VAL, -HUGE_VAL })
    for (int el = 0; el < 2; el++)
      if (I == 0) {
        bool thrown = false;
        try {
          el ? c->setC(fp, x) : c->setC(x, fn);
        } catch (int) {
          thrown = true;
        }
        ctx.check(thrown, "P28/fraction", fmt("a lithium fraction of %g is accepted by electrode %d", x, el));
      }
  const int bad = ctx.choose(3, "no concentration"); // the concentration of one of the electrodes is lost
  if (bad) {
    c->getStateObj().z(bad == 1 ? 0 : 5) = NAN;
    c->getStateObj().z(bad == 1 ? 3 : 8) = NAN;
    ctx.cover("concentration not a number");
    double v;
    ctx.step("z of electrode %d is not a number", bad);
    c->setCurrent(I, false, false); // forget the voltage
    ctx.check(c->V() == 0, "P28/nan", "voltage of a cell without a concentration");
    ctx.check(isStatusBad(c->checkVoltage(v, false)) && !c->validStates(false), "P28/nan", "a cell without a concentration is fine");
    return;
  }
  const double a = r.cp()[0] / r.Cp, b = r.cn()[0] / r.Cn;
  if (r.inside() && !(r.ocvp.in(a) && r.ocvn.in(b) && r.dtot.in(a))) ctx.prune();
  ctx.step("surface fractions %g, %g", a, b);
  if (a > 0 && a < 1 && b >= 1) ctx.cover("full anode");
  if (a > 0 && a < 1 && b <= 0) ctx.cover("empty anode");
  if (a >= 1 && b > 0 && b < 1) ctx.cover("full cathode");
  if (r.margin() < 1e-7) ctx.prune();
  compare(ctx, *c, r, "setting");
}

// the concentration profiles against the exact solution of the diffusion equation in a sphere: uniform at first,
// then a constant flux (independent of the discretisation and of its data files)
static double sphere(double x, double tau) // (c - c0) * D / (q R) for the flux q into the particle, at r = x R
{
  static const std::vector<double> lam = [] { // roots of tan(l) = l
    std::vector<double> v;
    for (int n = 1; n <= 60; n++) {
      double l = (n + 0.5) * M_PI;
      for (int i = 0; i < 60; i++) l = n * M_PI + std::atan(l);
      v.push_back(l);
    }
    return v;
  }();
  double c = 3 * tau + x * x / 2 - 0.3;
  for (double l : lam) c -= 2 * (x > 1e-9 ? std::sin(l * x) / (x * std::sin(l)) : l / std::sin(l)) / (l * l) * std::exp(-l * l * tau);
  return c;
}
static void profiles(Ctx &ctx)
{
  std::unique_ptr<Cell_SPM> c(newSPM());
  const double T = ctx.pick({ 298.0, 288.0, 310.0, 280.0 }, "temperature");
  const double I = ctx.pick({ 4.0, -4.0, 16.0, -16.0, 0.5 }, "current");
  const double fp0 = ctx.pick({ 0.689332, 0.6, 0.8 }, "lithium fraction"), fn0 = 0.479283;
  const bool blocked = ctx.flag("blocked");
  const double dt = ctx.pick({ 1.0, 0.25 }, "dt");
  c->setC(fp0, fn0);
  c->setT(T);
  c->setBlockDegAndTherm(blocked);
  c->setCurrent(I, false, false);
  const double arrp = std::exp(29000 / 8.314 * (1 / 298.0 - 1 / T)), arrn = std::exp(7000 / 8.314 * (1 / 298.0 - 1 / T));
  struct El
  {
    double R, D, q, c0;
  };
  const El el[2] = { { 8.5e-6, 8e-14 * arrp, I / 0.62 / (3 * 0.5 / 8.5e-6 * 96487 * 70e-6), fp0 * 51385 }, { 1.25e-5, 7e-14 * arrn, -I / 0.62 / (3 * 0.5 / 1.25e-5 * 96487 * 73.5e-6), fn0 * 30555 } };
  double t = 0;
  for (int k = 0; k < 8; k++) {
    const int n = static_cast<int>((k < 3 ? 20 : 100) / dt);
    c->timeStep_CC(dt, n);
    t += n * dt;
    double cp[settings::nch + 2], cn[settings::nch + 2];
    c->getC(cp, cn);
    for (int e = 0; e < 2; e++) {
      const double tau = el[e].D * t / (el[e].R * el[e].R), scale = std::abs(el[e].q * el[e].R / el[e].D);
      if (tau < 0.03) continue; // the boundary layer is thinner than the distance between the nodes
      for (int i = 0; i < settings::nch + 2; i++) {
        const double x = std::cos(M_PI * i / 12); // Chebyshev points
        const double want = el[e].c0 + el[e].q * el[e].R / el[e].D * sphere(x, tau), got = e ? cn[i] : cp[i];
        // explicit time steps (lambda^2 D dt / R^2 of a step) and five nodes
        const double tol = scale * (0.002 + 2 * el[e].D * dt / (el[e].R * el[e].R)) + 1e-6;
        ctx.checks++;
        if (!(std::abs(got - want) <= tol)) ctx.fail("P28/diffusion", fmt("%s at %g A, %g K after %g s: concentration at r = %.4f R is %.6g, the diffusion equation gives %.6g (tolerance %g)", e ? "anode" : "cathode", I, T, t, x, got, want, tol));
      }
      ctx.cover(tau > 0.5 ? "steady profile" : "transient profile");
    }
    ctx.step("%g s: %g %g", t, cp[0], cn[0]);
    ctx.state({ t, cp[0], cn[0], cp[6], cn[6] });
  }
}

int main(int argc, char **argv)
{
  ref::Data::get();
  return main_(argc, argv, { { "history", history }, { "sweep", sweep }, { "parameters", parameters }, { "bounds", bounds }, { "profiles", profiles } });
}
