// P16 - a capacity test measures the charge between the voltage limits and leaves the unit as
// it was, whatever it is interrupted by.
#include "cycenv.hpp"
using namespace H;

// independent measurement: C/25, one second at a time, the unit itself decides about its voltage
static bool coulombs(StorageUnit *u, double I, double vlim, double &t, double &Ah)
{
  u->setCurrent(I, false, false);
  t = 0;
  Ah = 0;
  while (!((I < 0 && u->V() > vlim) || (I > 0 && u->V() < vlim))) {
    u->setCurrent(I, false, false);
    u->timeStep_CC(1, 1);
    t += 1;
    Ah += std::abs(I) / 3600;
    if (t > 60 * 3600 || u->V() <= 0) return false;
  }
  return true;
}

static void scenario(Ctx &ctx)
{
  std::vector<std::string> L{ "B50", "E30", "F80", "B2", "E98x5", "M50", "s(B50,B50)", "p(B50,B60)", "s(B40,B60)", "p(E50,E50x8)", "s(p(B50,B50),B50)", "G50" };
  if (ctx.thorough) L.insert(L.end(), { "M3", "M97", "p(s(B40,B60),s(B50,B50))~1", "s(M50,M55)", "s(B50,B50x12)", "s(E40,E60x8)", "s(G50,G50)", "p(E50,E60,E55)~1", "b2x2:s(B50,B50)" });
  const auto ex = ctx.pick(L, "unit");
  const bool slow = ex.find('M') != std::string::npos || ex.find('D') != std::string::npos || ex.find('G') != std::string::npos;
  const bool block = (ex[0] != 's' && ex[0] != 'p' && ex[0] != 'b') ? ctx.flag("block ageing") : true;
  const int hist = ctx.choose(slow ? 3 : 5, "history");
  // (for the slow cells the third history is the overload)
  const bool over = hist == (slow ? 2 : 4);
  const bool diag = slow ? hist == 1 : ctx.flag("diagnostic");
  const int fault = ctx.choose(slow ? 3 : 5, "fault");
  auto c = build(ex);
  blockAll(c.get(), block);
  const double cap = c->Cap();
  c->setCurrent(0, false, false);
  if (hist == 1) {
    c->setCurrent(0.5 * cap, false, false);
    c->timeStep_CC(5, 4);
  } else if (over) { // a load which takes it below the voltages it may have
    for (double k = 0.5; k < 256 && c->V() > c->VMIN(); k *= 1.25) c->setCurrent(k * cap, false, false);
    if (c->V() < c->VMIN()) ctx.cover("overloaded at the start");
  } else if (hist == 2) {
    c->setCurrent(-0.3 * cap, false, false);
    c->timeStep_CC(2, 10);
    c->setCurrent(0, false, false);
  } else if (hist == 3)
    c->setCurrent(0.05 * cap, false, false);
  c->V();
  const auto before = statesOf(c.get());
  const auto obs = observe(c.get());
  std::unique_ptr<StorageUnit> ref(c->copy()), twin(c->copy());
  SpySU u(c.get());
  if (fault == 1) u.failCurAt = 0;
  else if (fault == 2)
    u.failStepAt = slow ? 1000 : 20000;
  else if (fault == 3)
    u.failStepAt = 0;
  else if (fault == 4)
    u.failCurAt = 30000;
  Cycler cyc(&u, "mc");
  cyc.setDiagnostic(diag);
  double Ah = 0, t = 100;
  const std::string w = fmt("testCapacity of %s (history %d, diagnostic %d, fault %d)", ex.c_str(), hist, diag, fault);
  ctx.step("%s", w.c_str());
  double q = 0;
  if (fault == 0 && !slow && ctx.flag("short form")) {
    q = cyc.testCapacity();
    Ah = -1;
  } else
    q = cyc.testCapacity(Ah, t);
  ctx.note("-> %.10g Ah, total %.10g, %.10g s", q, Ah, t);

  // the unit is as it was
  const auto after = statesOf(c.get());
  ctx.check(after.size() == before.size(), "P16/restored", w + ": the states changed size");
  for (size_t i = 0; i < before.size(); i++)
    ctx.near(after[i], before[i], "P16/restored", w + fmt(": state %zu after the test", i), 1e-9, 1e-10);
  const auto d = diff(obs, observe(c.get()), 1e-9, 1e-10);
  ctx.check(d.empty(), "P16/restored", w + ": " + d);
  // ... and goes on like one that was never tested
  c->setCurrent(0.1 * cap, false, false);
  twin->setCurrent(0.1 * cap, false, false);
  try {
    c->timeStep_CC(3, 2);
    twin->timeStep_CC(3, 2);
  } catch (int) {
    ctx.prune();
  }
  const auto d2 = diff(observe(twin.get()), observe(c.get()), 1e-8, 1e-9);
  ctx.check(d2.empty(), "P16/aftermath", w + ": goes on differently, " + d2);

  if (fault) {
    if (q == 0) ctx.cover("failed test");
    ctx.check(u.steps <= (u.failStepAt >= 0 ? u.failStepAt + 1 : 1 << 30) , "P16/fault", w + ": went on after a fault");
    return;
  }
  // the measurement
  blockAll(ref.get(), block);
  double t1, a1, t2, a2;
  const double I = cap / 25;
  if (!coulombs(ref.get(), -I, ref->Vmax(), t1, a1) || !coulombs(ref.get(), I, ref->Vmin(), t2, a2)) ctx.prune();
  if (q == 0) {
    ctx.check(diag, "P16/capacity", w + ": no capacity could be measured");
    ctx.cover("not measurable");
    return;
  }
  const double tol = 4 * I / 3600 + (slow ? 2e-3 : 1e-6) * a2;
  if (!diag || ex.find('(') == std::string::npos) {
    ctx.near(q, a2, "P16/capacity", w + ": measured capacity", 0, tol);
    if (Ah >= 0) {
      ctx.near(Ah, a1 + a2, "P16/throughput", w + ": charge throughput of the test", 0, 2 * tol);
      ctx.near(t - 100, t1 + t2, "P16/duration", w + ": duration of the test", 0, 8 + (slow ? 2e-3 : 1e-6) * t2);
      ctx.near(Ah, I * (t - 100) / 3600, "P16/throughput", w + ": charge throughput against duration", 1e-9, 1e-9);
    }
    ctx.cover("capacity");
  }
  ctx.state({ q, Ah, t });
}

int main(int argc, char **argv) { return H::main_(argc, argv, { { "capacity", scenario } }); }
