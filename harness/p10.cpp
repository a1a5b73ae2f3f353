// P10 - parallel modules obey Kirchhoff's laws after every accepted command and every step.
#include "common.hpp"
using namespace H;

// own ladder: terminal voltage seen through branch i
static std::vector<double> branches(Module_p *m, const std::vector<double> &Rc)
{
  const auto &k = m->getSUs();
  std::vector<double> v;
  double drop = 0;
  for (size_t i = 0; i < k.size(); i++) {
    double behind = 0;
    for (size_t j = i; j < k.size(); j++) behind += k[j]->I();
    drop += behind * Rc[i];
    v.push_back(k[i]->V() - drop);
  }
  return v;
}

struct Sys
{
  Deep_ptr<SU> u;
  std::vector<Cell *> cells;
  std::vector<SU *> all;
  std::map<SU *, std::vector<double>> Rc; // contact resistances, as configured
  explicit Sys(const std::string &e) : u(build(e))
  {
    cells = leaves(u.get());
    all = nodes(u.get());
    for (auto n : all)
      if (auto m = asModule(n)) Rc[n] = std::vector<double>(m->getNSUs(), 0.0);
  }
  void contacts(double r)
  {
    for (auto n : all)
      if (auto m = asModule(n)) {
        auto &R = Rc[n];
        for (size_t i = 0; i < R.size(); i++) R[i] = r * (1 + 0.3 * static_cast<double>(i));
        m->setRcontact(R);
      }
  }
};

// Kirchhoff's laws in every parallel and series node
static void laws(Ctx &ctx, Sys &s, const char *after)
{
  for (auto n : s.all) {
    auto m = asModule(n);
    if (!m) continue;
    double sum = 0;
    for (auto &k : m->getSUs()) sum += k->I();
    const auto &Rc = s.Rc[n];
    if (auto p = asParallel(n)) {
      ctx.near(p->I(), sum, "P10/sum", fmt("after %s: current of %s against the sum of its members", after, n->getID().c_str()), 1e-12, 1e-12);
      const auto v = branches(p, Rc);
      for (size_t i = 0; i < v.size(); i++)
        ctx.near(v[i], v[0], "P10/branch", fmt("after %s: terminal voltage through branch %zu of %s against branch 0", after, i, n->getID().c_str()), 0, 2e-8);
      ctx.near(p->V(), v[0], "P10/terminal", fmt("after %s: voltage of %s against that of its branches", after, n->getID().c_str()), 0, 2e-8);
    } else {
      double V = 0;
      for (size_t i = 0; i < Rc.size(); i++) V += m->getSUs()[i]->V() - Rc[i] * m->getSUs()[i]->I();
      ctx.near(m->V(), V, "P10/series", fmt("after %s: voltage of series string %s", after, n->getID().c_str()), 1e-12, 1e-12);
      for (auto &k : m->getSUs())
        ctx.near(k->I(), m->I(), "P10/string", fmt("after %s: current of a member of series string %s", after, n->getID().c_str()), 0, 1e-7);
    }
  }
  Obs o;
  for (auto c : s.cells) o.add("I", c->I()), o.add("V", safeV(c));
  ctx.state(o.v);
}

static std::vector<std::string> packs(bool deep)
{
  std::vector<std::string> p{ "p(B50,B50)", "p(B50,B60)", "p(B50x16,B55x8)", "p(E50x16,B45x20,E60x10)", "p(M50,M55)", "p(M50,B50x8,M45)", "s(p(B50,B60x8),B50)", "p(s(B50,E60),s(B40,B55x12))", "p(p(B50,B55),B60x24)", "p(s(M50,M50),s(M52,M51))", "p(9*B50)", "p(5*s(2*B50))", "s(3*p(4*E50))" };
  if (deep)
    for (auto x : { "p(s(p(B50,B52x10),B50),s(B55,B50))", "p(B50,B60,B40,B55x9,E50)", "p(D50,M50)", "s(p(M50,M50x16),p(M52,B50,M50))", "p(B97,B99)", "p(B3,B1)" }) p.push_back(x);
  return p;
}

static void history(Ctx &ctx)
{
  const auto ps = packs(true);
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "pack"))];
  Sys s(e);
  const double rc = ctx.pick({ 0.0, 1e-3 }, "contact resistance");
  s.contacts(rc);
  ctx.note("pack %s contacts %g", e.c_str(), rc);
  blockAll(s.u.get(), true);
  SU *u = s.u.get();
  const double cap = u->Cap();
  bool fresh = false; // has the pack been balanced since the last disturbance?
  const int depth = (ctx.thorough ? 4 : 3) - wide(e);
  std::string hist;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(d == depth - 1 ? 9 : 12, "operation");
    std::vector<double> I0;
    for (auto c : s.cells) I0.push_back(c->I());
    const double Iold = u->I();
    std::string w;
    try {
      if (op < 5) {
        const double I = std::vector<double>{ 0.5, -1, 0, 3, -60 }[static_cast<size_t>(op)] * cap;
        w = fmt("setCurrent(%g)", I);
        const auto st = u->setCurrent(I, true, false);
        ctx.step("%s -> %d", w.c_str(), static_cast<int>(st));
        if (isStatusBad(st)) {
          ctx.cover("refused");
          for (size_t i = 0; i < I0.size(); i++)
            ctx.near(s.cells[i]->I(), I0[i], "P10/restore", w + fmt(" was refused (%d) but changed the current of cell %zu; history: %s", static_cast<int>(st), i, hist.c_str()), 0, 1e-12);
        } else {
          ctx.cover("accepted");
          ctx.near(u->I(), I, "P10/requested", w + " accepted, pack current; history: " + hist, 1e-9, 1e-7);
          fresh = true;
          laws(ctx, s, (hist + w).c_str());
        }
      } else if (op < 7) {
        const double t = (op == 5 ? 3.75 : 3.4) / 3.75;
        double V = 0;
        for (auto c : s.cells) V = std::max(V, c->V());
        V = t * (u->V() > 0 ? u->V() : V);
        w = fmt("setVoltage(%g)", V);
        const auto st = u->setVoltage(V, true, false);
        ctx.step("%s -> %d", w.c_str(), static_cast<int>(st));
        // a string already at the voltage keeps its currents: nothing to rebalance inside
        fresh = !isStatusBad(st) && (fresh || asParallel(u));
        if (fresh) {
          ctx.cover("voltage reached");
          laws(ctx, s, (hist + w).c_str());
        }
      } else if (op < 9) {
        const double dt = op == 7 ? 2 : 30;
        const int n = op == 7 ? 1 : 4;
        w = fmt("timeStep(%g,%d)", dt, n);
        u->timeStep_CC(dt, n);
        ctx.step("%s", w.c_str());
        ctx.cover("time step");
        ctx.near(u->I(), Iold, "P10/step-current", w + " changed the pack current; history: " + hist, 1e-9, 1e-7);
        if (asParallel(u) || fresh) laws(ctx, s, (hist + w).c_str());
        fresh = true;
      } else if (op == 9) {
        auto c = s.cells[s.cells.size() - 1];
        if (auto m = dynamic_cast<Cell_SPM *>(c)) {
          double fp, fn;
          const double I = m->I();
          spmFractions(0.44, fp, fn);
          m->setC(fp, fn);
          m->setCurrent(I, false, false);
        } else
          c->setSOC(0.44, false, false);
        ctx.step("member disturbed");
        w = "disturb";
        fresh = false;
      } else if (op == 10) {
        s.contacts(2e-3);
        ctx.step("contacts");
        w = "contacts";
        fresh = false;
      } else {
        w = "redistribute";
        for (auto n : s.all)
          if (auto p = asParallel(n)) {
            const double I = p->I();
            const auto st = p->redistributeCurrent(true, false);
            ctx.step("redistribute -> %d", static_cast<int>(st));
            if (st == Status::Success) {
              ctx.near(p->I(), I, "P10/redistribute", "redistribution changed the total current; history: " + hist, 1e-9, 1e-7);
              const auto v = branches(p, s.Rc[n]);
              for (auto x : v) ctx.near(x, v[0], "P10/branch", "redistribution succeeded, branch voltage; history: " + hist, 0, 2e-8);
              ctx.cover("redistributed");
            }
          }
        fresh = false;
      }
    } catch (int x) {
      // a balance that cannot be reached after a step is reported as an exception
      ctx.step("%s throws %d", w.c_str(), x);
      ctx.cover("step failed");
      ctx.check(op >= 7 && op < 9, "P10/exception", fmt("%s throws %d; history: %s", w.c_str(), x, hist.c_str()));
      return;
    }
    hist += w + "; ";
  }
}

// branches that can hardly be balanced: resistances and capacities far apart, cells near the limits
static void extremes(Ctx &ctx)
{
  const double cA = ctx.pick({ 16.0, 1.0, 200.0, 4000.0 }, "capacity"), cB = ctx.pick({ 16.0, 0.5, 100.0 }, "capacity");
  const int sA = ctx.choose(3, "level"), sB = ctx.choose(3, "level");
  const char *lv[] = { "50", "1", "98" };
  const std::string e = fmt("p(B%sx%g,B%sx%g)", lv[sA], cA, lv[sB], cB);
  Sys s(e);
  s.contacts(ctx.pick({ 0.0, 2e-3, 0.2 }, "contact resistance"));
  blockAll(s.u.get(), true);
  const double I = ctx.pick({ 1.0, -1.0, 0.0, 12.0 }, "current") * std::min(cA, cB);
  std::vector<double> I0;
  for (auto c : s.cells) I0.push_back(c->I());
  const auto st = s.u->setCurrent(I, true, false);
  ctx.step("%s I %g -> %d", e.c_str(), I, static_cast<int>(st));
  if (isStatusBad(st)) {
    ctx.cover("unbalanced refused");
    for (size_t i = 0; i < I0.size(); i++) ctx.near(s.cells[i]->I(), I0[i], "P10/restore", fmt("%s: current %g refused (%d) but cell %zu changed", e.c_str(), I, static_cast<int>(st), i), 0, 1e-12);
    return;
  }
  ctx.cover("extreme balanced");
  ctx.near(s.u->I(), I, "P10/requested", e + ": accepted current", 1e-9, 1e-7);
  laws(ctx, s, fmt("%s: setCurrent(%g)", e.c_str(), I).c_str());
  try {
    s.u->timeStep_CC(ctx.pick({ 1.0, 60.0 }, "dt"), 2);
  } catch (int) {
    ctx.cover("step failed");
    return;
  }
  ctx.near(s.u->I(), I, "P10/step-current", e + ": step changed the pack current", 1e-9, 1e-7);
  laws(ctx, s, fmt("%s: setCurrent(%g), step", e.c_str(), I).c_str());
}

// many branches
static void many(Ctx &ctx)
{
  const int n = ctx.pick({ 17, 33, 64, 100 }, "branches");
  const int odd = ctx.pick({ 0, 1, 2, n / 2, n - 2, n - 1 }, "different branch"), kind = ctx.choose(3, "it is");
  const char *what[] = { "B60", "B50x8", "s(B50,E50)" };
  std::string e = "p(";
  for (int i = 0; i < n; i++) e += (i ? "," : "") + std::string(i != odd ? (kind == 2 ? "s(B50,B50)" : "B50") : what[kind]);
  e += ")";
  Sys s(e);
  SU *u = s.u.get();
  const double rc = ctx.pick({ 0.0, 1e-6, 1e-5 }, "contact resistance");
  s.contacts(rc);
  blockAll(u, true);
  for (int k = 0; k < 2; k++) {
    const double I = ctx.pick({ 0.3, -0.2, 0.0 }, "C rate") * u->Cap();
    const auto st = u->setCurrent(I, true, false);
    ctx.step("%d branches, setCurrent(%g) -> %d", n, I, static_cast<int>(st));
    if (isStatusBad(st)) {
      ctx.cover("many refused");
      return;
    }
    ctx.cover("many balanced");
    const auto w = fmt("%d branches (number %d is %s), contacts %g, setCurrent(%g)", n, odd, what[kind], rc, I);
    ctx.near(u->I(), I, "P10/requested", w + " accepted, pack current", 1e-9, 1e-7);
    laws(ctx, s, w.c_str());
    try {
      u->timeStep_CC(5, 2);
    } catch (int) {
      ctx.cover("step failed");
      return;
    }
    ctx.near(u->I(), I, "P10/step-current", w + ": step changed the pack current", 1e-9, 1e-7);
    laws(ctx, s, (w + " and a step").c_str());
  }
}

int main(int argc, char **argv)
{
  return main_(argc, argv, { { "many", many }, { "history", history }, { "extremes", extremes } });
}
