// P03 - saved states restore a unit to the exact same behaviour.
#include "common.hpp"
using namespace H;

static std::vector<std::string> packs(bool deep)
{
  std::vector<std::string> p{ "B50", "E52", "F48", "M51", "G50", "s(E50,M52)~1", "s(G50,B48)", "p(M50,M53)~1", "p(B50,E50,F50)",
                              "s(p(B50,B50),p(E50,F51))~1", "p(s(M50,E52),s(B52,M50))", "s(s(B50,B51),s(M50))", "b2x3:s(E50,M50)", "b1x2:p(B50,F50)~1", "s(35*B50)~1", "s(2*p(3*s(2*E50)))" };
  if (deep)
    for (auto x : { "s(p(G50,G52)~1,s(M50,F50),B50)", "p(p(E50,E50),p(B50,B50))", "s(B50,B51,B52,B53,B54,B55)", "b3x1:s(p(G50,M51)~1,E50)" }) p.push_back(x);
  return p;
}

// a deterministic operation; false when it threw
static bool op(SU *u, int k)
{
  const double cap = u->Cap();
  try {
    switch (k) {
    case 0: u->setCurrent(0.707106781 * cap, false, false); break;
    case 1: u->setCurrent(-0.517638090 * cap, false, false); break;
    case 2: u->timeStep_CC(5, 6); break;
    case 3: {
      int i = 0;
      for (auto n : nodes(u)) n->setT(settings::T_ENV + 2.236067977 + 0.577215665 * i++);
      break;
    }
    case 4: leaves(u).back()->setSOC(0.471404521, false, false); break;
    case 5:
      if (!asCell(u)) u->setT(290.099019514);
      u->timeStep_CC(2, 1);
      break;
    }
  } catch (int) {
    return false;
  }
  return true;
}

// documented layout: the states of the members in order, then the temperature of the module
static void layout(Ctx &ctx, SU *u)
{
  auto s = statesOf(u);
  if (auto c = asCell(u)) {
    auto v = c->viewStates();
    ctx.check(s.size() == v.size() && std::equal(s.begin(), s.end(), v.begin()), "P03/layout-cell", u->getID() + ": saved states differ from the states of the cell");
    return;
  }
  std::vector<double> want;
  for (auto k : children(u)) {
    auto ks = statesOf(k);
    want.insert(want.end(), ks.begin(), ks.end());
    layout(ctx, k);
  }
  want.push_back(u->T());
  ctx.check(s == want, "P03/layout-pack", u->getID() + ": saved states are not the states of the members followed by the temperature");
}

static void saveRestore(Ctx &ctx)
{
  const auto ps = packs(ctx.thorough);
  const auto &e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "unit"))];
  const bool blocked = ctx.flag("ageing blocked");
  auto mk = [&]() {
    auto u = build(e);
    blockAll(u.get(), blocked);
    return u;
  };
  auto U = mk(), W = mk();
  const int depth = ctx.choose((ctx.thorough ? 4 : 3) - wide(e), "history");
  std::string hist;
  for (int i = 0; i < depth; i++) {
    const int k = ctx.choose(6, "op");
    const bool a = op(U.get(), k), b = op(W.get(), k);
    ctx.step("op %d", k);
    hist += fmt("%d ", k);
    ctx.check(a == b, "P03/nondeterministic", e + ": the same operation succeeds on one unit only");
    if (!a) return;
  }
  for (auto n : nodes(U.get())) safeV(n);
  layout(ctx, U.get());
  const auto want = observe(U.get());
  auto s = statesOf(U.get());
  const auto saved = s;
  const size_t ns = s.size();

  const int target = ctx.choose(5, "target");
  const bool chk = ctx.flag("checkV");
  Status st;
  size_t left;
  Deep_ptr<SU> F = mk();
  SU *t = F.get();
  size_t expectLeft = 0;
  if (target == 0) { // the same unit, after more use
    t = U.get();
    const int k1 = ctx.choose(6, "use");
    op(t, k1);
    op(t, (k1 + 2) % 6);
  } else if (target == 2) { // from a longer record: two units saved one after the other
    op(W.get(), 2);
    auto s2 = statesOf(W.get());
    s.insert(s.end(), s2.begin(), s2.end());
    expectLeft = s2.size();
    W = mk();
    for (size_t i = 0, p = 0; i < static_cast<size_t>(depth); i++) {
      while (hist[p] == ' ') p++;
      op(W.get(), hist[p] - '0');
      p++;
    }
  } else if (target == 4) { // a unit whose every state is a little off
    const double eps = ctx.pick({ 1e-9, 1e-5, 1e-3 }, "displacement");
    auto o = saved;
    for (auto &x : o) x += eps * (x == 0 ? 1 : std::abs(x));
    std::span<double> so{ o };
    if (isStatusBad(t->setStates(so, false, false))) ctx.cover("displaced states refused");
    for (auto n : nodes(t)) safeV(n);
  } else if (target == 3) { // a fresh unit that was used differently
    op(t, 4);
    op(t, 1);
    op(t, 2);
  }
  std::span<double> sp{ s };
  st = t->setStates(sp, chk, false);
  left = sp.size();
  ctx.step("load into target %d -> %s", target, getStatusMessage(st));
  const auto ctxt = e + fmt(" (history %s, target %d, checkV %d)", hist.c_str(), target, chk);
  ctx.check(std::equal(saved.begin(), saved.end(), s.begin()), "P03/record-modified", ctxt + ": loading changed the saved numbers");
  if (isStatusBad(st)) {
    // refused: only acceptable when the states are outside what the cells permit
    bool invalid = false;
    for (auto c : leaves(W.get())) {
      double v;
      invalid = invalid || !c->validStates(false) || (chk && isStatusBad(c->checkVoltage(v, false)));
    }
    ctx.check(invalid, "P03/refused", ctxt + ": loading saved states was refused: " + getStatusMessage(st));
    ctx.cover("refused load");
    return;
  }
  ctx.check(left == expectLeft, "P03/consumed", ctxt + fmt(": loading left %zu of %zu numbers, expected %zu", left, s.size(), expectLeft));
  ctx.check(statesOf(t) == saved, "P03/states-differ", ctxt + ": saving again gives other numbers");
  auto got = observe(t);
  if (target == 2) { // the second part loads into another unit
    auto X = mk();
    const auto st2 = X->setStates(sp, false, false);
    ctx.check(!isStatusBad(st2) && sp.empty(), "P03/second-part", ctxt + ": the second saved unit cannot be loaded from the rest");
    ctx.cover("concatenated");
  }
  auto d = diff(want, got, 1e-12, 1e-13);
  ctx.check(d.empty(), "P03/observables-differ", ctxt + ": saved vs loaded " + d);

  // behaves like the unit that was saved
  for (int i = 0; i < (ctx.thorough ? 2 : 1); i++) {
    const int k = ctx.choose(6, "continue");
    const bool a = op(t, k), b = op(W.get(), k);
    ctx.step("continue %d", k);
    ctx.check(a == b, "P03/continues-differently", ctxt + ": an operation succeeds on one unit only");
    if (!a) return;
    for (auto n : nodes(t)) safeV(n);
    for (auto n : nodes(W.get())) safeV(n);
    d = diff(observe(W.get()), observe(t), 1e-9, 1e-11);
    ctx.check(d.empty(), "P03/continues-differently", ctxt + fmt(", op %d: saved unit vs loaded unit: ", k) + d);
  }
  ctx.cover(e[0] == 'b' ? "battery" : asCell(t) ? "cell" : "pack");
  ctx.state(statesOf(t), ns);
}

int main(int argc, char **argv) { return main_(argc, argv, { { "save-restore", saveRestore } }); }
