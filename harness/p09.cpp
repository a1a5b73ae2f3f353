// P09 - series strings obey Kirchhoff's laws.
#include "common.hpp"
using namespace H;

static std::vector<std::string> packs(bool deep)
{
  std::vector<std::string> p{ "s(B50,B80x8)", "s(E50,F30,B70)", "s(M50,M80,D30)", "s(s(B50,E40),B60)", "s(p(B50,B50),E40)", "s(s(s(E50),B40),s(B30x8))", "s(B2,B50,B98)", "s(B98,B50,B2)", "p(s(B50,B51),s(B50,B49))", "s(B50)", "s(M96,B50,M4)", "s(14*B50)", "s(3*p(2*s(2*B50)))", "s(10*E50,B92)", "s(B50,B50,B50,B50,B50,B3)", "s(B50,B50,B50,B50,B50,B50,B50,s(B50,B97))", "s(60*B50,E50,39*B50)", "s(B50,99*B50)" };
  if (deep)
    for (auto x : { "s(p(M50,M52),p(s(B50,B51),s(E50,E50)),F40)", "s(B50,s(B99,B50),s(B50,B1x3))", "s(D95,D5)", "s(s(M50,s(M50,p(B50,B50))))", "s(B50,B50,B50,B50,B50,B50)" }) p.push_back(x);
  return p;
}
struct Sys
{
  Deep_ptr<SU> u;
  std::vector<Cell *> cells;
  std::vector<SU *> all;
  std::map<SU *, std::vector<double>> Rc;
  explicit Sys(const std::string &e) : u(build(e)), cells(leaves(u.get())), all(nodes(u.get()))
  {
    for (auto n : all)
      if (auto m = asModule(n)) Rc[n] = std::vector<double>(m->getNSUs(), 0.0);
  }
};
static void laws(Ctx &ctx, Sys &s, const std::string &w, bool currents = true)
{
  for (auto n : s.all) {
    auto m = asSeries(n);
    if (!m) continue;
    double V = 0, O = 0;
    bool off = false;
    const auto &k = m->getSUs();
    for (size_t i = 0; i < k.size(); i++) {
      const double v = safeV(k[i].get());
      off = off || v <= 0;
      V += v - s.Rc[n][i] * k[i]->I();
      O += safeOCV(k[i].get());
      if (currents) ctx.near(k[i]->I(), m->I(), "P09/current", w + fmt(": current of member %zu of %s", i, n->getID().c_str()), 1e-12, 1e-7);
    }
    ctx.near(safeV(m), off ? 0 : V, "P09/voltage", w + ": voltage of " + n->getID() + (off ? " (a member has none)" : ""), 1e-13, 1e-13);
    if (!off) ctx.near(safeOCV(m), O, "P09/ocv", w + ": open-circuit voltage of " + n->getID(), 1e-13, 1e-13);
    if (off) ctx.cover("member without voltage");
  }
}

static void history(Ctx &ctx)
{
  const auto ps = packs(ctx.thorough);
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "pack"))];
  Sys s(e);
  SU *u = s.u.get();
  const bool blocked = ctx.flag("blocked");
  blockAll(u, blocked);
  ctx.note("pack %s", e.c_str());
  double cap = 1e9;
  for (auto c : s.cells) cap = std::min(cap, c->Cap());
  if (asParallel(u)) cap *= 2;
  bool uniform = false; // strings carry one current since the last accepted command
  const int depth = (ctx.thorough ? 4 : 3) - wide(e) - (s.cells.size() > 50);
  std::string hist;
  u->setCurrent(0, false, false);
  uniform = true;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(d == depth - 1 ? 8 : 11, "operation");
    std::string w;
    try {
      if (op < 6) {
        const double I = std::vector<double>{ 0.5, -0.7, 0, 6, -25, 40 }[static_cast<size_t>(op)] * cap;
        const bool check = op != 5;
        w = fmt("setCurrent(%g)", I);
        // each direct member is asked on its own whether it can carry the current
        bool bad = false;
        if (asSeries(u))
          for (auto k : children(u)) {
            std::unique_ptr<SU> x(k->copy());
            x->setParent(nullptr);
            bad = bad || isStatusBad(x->setCurrent(I, check, false));
          }
        const auto st = u->setCurrent(I, check, false);
        ctx.step("%s%s -> %d", w.c_str(), check ? "" : " unchecked", static_cast<int>(st));
        if (asSeries(u))
          ctx.check(bad == isStatusBad(st), "P09/verdict", w + fmt(" -> %d, but %s; history: %s", static_cast<int>(st), bad ? "a member refuses it" : "every member accepts it", hist.c_str()));
        if (!isStatusBad(st)) {
          ctx.near(u->I(), I, "P09/requested", w + ": current afterwards; history: " + hist, 1e-12, 1e-7);
          ctx.cover("accepted");
          uniform = true;
        } else
          ctx.cover("refused");
      } else if (op < 8) {
        const double dt = op == 6 ? 2 : 25;
        const int n = op == 6 ? 1 : 3;
        w = fmt("timeStep(%g,%d)", dt, n);
        std::vector<double> t0;
        const double I = u->I();
        for (auto c : s.cells) t0.push_back(c->getThroughputs().time());
        u->timeStep_CC(dt, n);
        ctx.step("%s", w.c_str());
        for (size_t i = 0; i < t0.size(); i++)
          ctx.near(s.cells[i]->getThroughputs().time(), t0[i] + dt * n, "P09/advance", w + fmt(": clock of cell %zu", i), 1e-12, 1e-9);
        ctx.near(u->I(), I, "P09/step-current", w + ": current of the pack; history: " + hist, 0, 1e-7);
        ctx.cover("step");
      } else if (op == 8) {
        const double r = ctx.pick({ 1e-3, 0.0 }, "contact");
        for (auto n : s.all)
          if (auto m = asModule(n)) {
            auto &R = s.Rc[n];
            for (size_t i = 0; i < R.size(); i++) R[i] = r * (1 + 0.4 * static_cast<double>(i));
            m->setRcontact(R);
          }
        w = "contacts";
        // parallel parts are only balanced for the new resistances by the next command
      } else if (op == 9) {
        auto c = s.cells[static_cast<size_t>(ctx.choose(2, "cell")) ? s.cells.size() - 1 : 0];
        c->setSOC(0.7, false, false);
        w = "member soc";
      } else {
        auto c = s.cells.back();
        c->setCurrent(0.2 * cap, false, false);
        w = "member current";
        uniform = false;
      }
      ctx.step("%s", w.c_str());
    } catch (int x) {
      ctx.step("%s throws %d", w.c_str(), x);
      ctx.check(op == 6 || op == 7, "P09/exception", w + fmt(" throws %d", x));
      return;
    }
    hist += w + "; ";
    laws(ctx, s, hist, uniform);
    Obs o;
    for (auto c : s.cells) o.add("I", c->I()), o.add("V", safeV(c));
    ctx.state(o.v);
  }
}

int main(int argc, char **argv) { return main_(argc, argv, { { "history", history } }); }
