// P06 - the reported voltage always belongs to the present state; reading has no effect.
#include "common.hpp"
using namespace H;

struct Op
{
  int kind, arg;
};
static const double dT[] = { 0, 9, -7 };

struct Sys
{
  Deep_ptr<SU> u;
  std::vector<Cell *> cells;
  std::vector<SU *> all;
  std::map<std::string, std::vector<double>> Rc; // contact resistances set, per module
  explicit Sys(const std::string &e) : u(build(e))
  {
    cells = leaves(u.get());
    all = nodes(u.get());
  }
};

// every operation on the unit or directly on a member
static std::string apply(Sys &s, const Op &o, int blocked)
{
  SU *u = s.u.get();
  const double cap = u->Cap();
  auto leaf = [&](int i) { return s.cells[static_cast<size_t>(i) % s.cells.size()]; };
  try {
    switch (o.kind) {
    case 0: u->setCurrent((o.arg ? -0.8 : 0.6) * cap, false, false); return "setCurrent";
    case 1: leaf(o.arg)->setCurrent(0.9 * leaf(o.arg)->Cap(), false, false); return "member setCurrent";
    case 2: leaf(o.arg)->setT(leaf(o.arg)->T() + 9); return "member setT";
    case 3: {
      auto c = leaf(o.arg);
      double fp, fn;
      spmFractions(0.31, fp, fn);
      if (auto m = dynamic_cast<Cell_SPM *>(c)) {
        m->setC(fp, fn);
        return "member setC";
      }
      c->setSOC(0.31, false, false);
      return "member setSOC";
    }
    case 4: { // states of a used cell
      auto c = leaf(o.arg);
      std::unique_ptr<SU> x(c->copy());
      x->setParent(nullptr);
      x->setBlockDegAndTherm(true);
      x->setCurrent(-5, false, false);
      x->timeStep_CC(10, 20);
      auto st = statesOf(x.get());
      std::span<double> sp{ st };
      c->setStates(sp, false, false);
      return "member setStates";
    }
    case 5: {
      auto st = statesOf(u);
      std::unique_ptr<SU> x(u->copy());
      x->setParent(nullptr);
      blockAll(x.get(), true);
      x->setCurrent(0.3 * cap, false, false);
      x->timeStep_CC(10, 20);
      st = statesOf(x.get());
      std::span<double> sp{ st };
      u->setStates(sp, false, false);
      return "setStates";
    }
    case 6: {
      for (auto n : s.all)
        if (auto m = asModule(n)) {
          std::vector<double> R(m->getNSUs());
          for (size_t i = 0; i < R.size(); i++) R[i] = 1e-3 * (1.0 + o.arg + 0.5 * static_cast<double>(i));
          m->setRcontact(R);
          s.Rc[m->getID()] = R;
        }
      return "setRcontact";
    }
    case 7: u->timeStep_CC(o.arg ? 2 : 60, o.arg ? 30 : 1); return "timeStep";
    case 8: {
      auto c = leaf(o.arg);
      const bool b = c->getParent() == nullptr ? blocked : true;
      c->setBlockDegAndTherm(b);
      c->timeStep_CC(5, 4);
      c->setBlockDegAndTherm(blocked);
      return "member timeStep";
    }
    case 9: {
      auto c = leaf(o.arg);
      auto st = c->SOC();
      c->setSOC(std::min(0.95, st + 0.01), false, false);
      return "member setSOC";
    }
    case 10: { // a refused command
      u->setCurrent((o.arg ? -1 : 1) * 300 * cap, true, false);
      return "refused setCurrent";
    }
    case 11: { // states of an aged cell with the same current, charge and temperature, with the voltage check
      auto c = leaf(o.arg);
      c->V();
      auto st = statesOf(c);
      if (auto m = dynamic_cast<Cell_SPM *>(c)) {
        auto &so = m->getStateObj();
        const double *b = &so.I();
        auto at = [&](double &x) -> double & { return st[static_cast<size_t>(&x - b)]; };
        for (size_t i = 0; i < 5; i++) at(so.zp(i)) *= 0.995, at(so.zn(i)) *= 0.997;
        at(so.rDCcc()) *= 1.5;
        at(so.delta()) *= 2;
      } else
        st[1] = std::min(0.99, st[1] + 0.013);
      std::span<double> sp{ st };
      c->setStates(sp, true, false);
      return "member setStates (checked)";
    }
    }
  } catch (int e) {
    return fmt("exception %d", e);
  }
  return "?";
}

static void readAll(SU *u)
{
  for (auto n : nodes(u)) {
    double v;
    n->checkVoltage(v, false);
    n->V();
    n->getVhigh();
    n->getVlow();
    n->V();
  }
}

static std::vector<std::string> packs(bool deep)
{
  std::vector<std::string> p{ "M50", "D50", "E50", "s(M50,M52)~1", "s(D50,M48)", "s(s(E50,F55),E50)~1", "p(M50,M50)", "p(M50,E50)~1", "s(p(M50,M50),D50)", "s(34*E50)~1", "p(6*s(2*E50))" };
  if (deep)
    for (auto x : { "s(s(D50),s(M50,M51))~1", "p(s(B50,B50),s(M50,M50))", "s(E50,D50,B50)~2" }) p.push_back(x);
  return p;
}

static void coherence(Ctx &ctx)
{
  const auto ps = packs(ctx.thorough);
  const auto &e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "unit"))];
  const bool blocked = ctx.flag("ageing blocked");
  ctx.note("unit %s", e.c_str());
  Sys A(e), B(e); // A is read after every operation, B never
  blockAll(A.u.get(), blocked);
  blockAll(B.u.get(), blocked);
  const int n = static_cast<int>(A.cells.size());
  const int depth = 1 + ctx.choose((ctx.thorough ? 4 : 3) - wide(e), "depth");
  std::string hist;
  for (int d = 0; d < depth; d++) {
    const int k = ctx.choose(12, "operation");
    int na = 1;
    if (k == 0 || k == 7 || k == 10) na = 2;
    else if (k != 5 && k != 6)
      na = (depth > 2 && !ctx.thorough) ? 1 : std::min(n, 2);
    const Op o{ k, ctx.choose(na, "operand") };
    readAll(A.u.get());
    const auto w = apply(A, o, blocked);
    apply(B, o, blocked);
    ctx.step("%s(%d)", w.c_str(), o.arg);
    if (w[0] == 'e') return; // the same on both; nothing to compare
    hist += w + "; ";
  }
  // reference: the same state in a unit that has no history
  Sys R(e);
  for (auto x : R.all)
    if (auto m = asModule(x)) {
      auto it = A.Rc.find(m->getID());
      if (it != A.Rc.end()) m->setRcontact(it->second);
    }
  // cell by cell, so that values of parallel groups are kept as they are
  bool ok = true;
  for (size_t i = 0; i < A.cells.size(); i++) {
    auto st = statesOf(A.cells[i]);
    std::span<double> sp{ st };
    ok = ok && !isStatusBad(R.cells[i]->setStates(sp, false, false));
  }
  if (!ok) return; // the history has left the permitted states
  for (size_t i = 0; i < A.all.size(); i++) {
    const double vr = safeV(R.all[i]), va = safeV(A.all[i]), vb = safeV(B.all[i]);
    ctx.check(Ctx::close(va, vr, 1e-11, 1e-12), "P06/stale-voltage",
              e + (blocked ? " (ageing blocked)" : "") + ": after " + hist + fmt("%s reports %.15g, a unit in that state has %.15g", A.all[i]->getID().c_str(), va, vr));
    ctx.check(Ctx::close(vb, vr, 1e-11, 1e-12), "P06/wrong-voltage",
              e + (blocked ? " (ageing blocked)" : "") + ": after " + hist + fmt("%s (never read before) reports %.15g, a unit in that state has %.15g", B.all[i]->getID().c_str(), vb, vr));
    if (R.all[i]->getNcells() > 0 && vr > 0) {
      double v = -1;
      A.all[i]->checkVoltage(v, false);
      ctx.near(v, vr, "P06/checked-voltage", "voltage given by the voltage check", 1e-11, 1e-12);
    }
  }
  // observing has no effect: compare everything but the voltages themselves (already compared)
  for (size_t i = 0; i < A.cells.size(); i++) {
    safeV(A.cells[i]);
    safeV(B.cells[i]);
  }
  const auto d = diff(observe(B.u.get()), observe(A.u.get()), 1e-11, 1e-12);
  ctx.check(d.empty(), "P06/reading-changes-result", e + ": after " + hist + "unit that was never read vs unit that was read: " + d);
  // and no effect on what happens next
  const Op next{ 7, 1 };
  apply(A, next, blocked);
  apply(B, next, blocked);
  const auto d2 = diff(observe(B.u.get()), observe(A.u.get()), 1e-10, 1e-11);
  ctx.check(d2.empty(), "P06/reading-changes-future", e + ": after " + hist + "and a step: never read vs read: " + d2);
  ctx.cover(blocked ? "blocked" : "ageing");
  ctx.state(statesOf(A.u.get()));
}

int main(int argc, char **argv) { return main_(argc, argv, { { "coherence", coherence } }); }
