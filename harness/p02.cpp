// P02 - a refused command leaves the storage unit exactly as it was.
//
// Enumerated: pack topologies x which cell is about to leave its safe range (and on which
// side) x command histories up to a depth x every command of the alphabet.  Whenever the
// implementation refuses (critical status or exception), everything observable in the
// whole tree must be what it was before, and the refused unit must from then on behave
// like a twin that never saw the command.
#include "common.hpp"
using namespace H;

// %% marks the cells; one of them gets the extreme state of charge
static std::vector<std::string> topologies(bool deep)
{
  std::vector<std::string> v{
    "B@", "E@", "F@", "M@",
    "s(B@,B@)", "s(E@,E@,E@)", "s(M@,M@)", "p(B@,B@)", "p(E@,B@,F@)", "p(M@,M@)~1",
    "s(p(B@,B@),p(B@,B@))", "p(s(B@,B@),s(B@,B@))", "s(B@,p(E@,E@)~1,B@)", "s(s(B@,B@),s(B@,B@))", "p(p(B@,B@),B@)",
    "s(M@,E@)", "s(p(M@,M@),M@)", "s(B@,B@,B@,B@,B@,B@,B@,B@,B@,B@)", "s(p(s(B@,B@),s(B@,B@)),p(s(B@,B@),s(B@,B@)))", "p(B@,B@,B@,B@,B@,B@,B@)"
  };
  if (deep)
    for (auto s : { "s(p(E@,E@)~2,p(F@,F@)~1)~1", "s(B@,B@,B@,B@)", "p(s(E@,E@),E@,s(B@,B@))", "s(s(p(B@,B@),B@),p(B@,s(B@,B@)))", "p(s(M@,M@),s(M@,M@))", "s(D@,D@)", "p(B@,B@,B@)~3" })
      v.push_back(s);
  return v;
}

static std::string instantiate(const std::string &t, int extreme, int side, Ctx &ctx)
{
  std::string out;
  int k = 0;
  for (char c : t) {
    if (c != '@') {
      out += c;
      continue;
    }
    bool spm = out.back() == 'M' || out.back() == 'D';
    if (k == extreme) out += spm ? (side ? "97" : "4") : (side ? "97" : "3");
    else
      out += k % 2 ? "52" : "50";
    k++;
  }
  (void)ctx;
  return out;
}

struct Cmd
{
  std::string name;
  std::function<Status(SU *)> run;
};

// Run a command; exceptions count as refusals only for the commands documented to throw.
// 0, or the exception it ended with (a time step under a hopeless current may give up)
static int apply(SU *u, int op, double cap)
{
  try {
    switch (op) {
    case 0: u->setCurrent(0.5 * cap, false, false); break;
    case 1: u->setCurrent(-0.5 * cap, false, false); break;
    case 2: u->timeStep_CC(5, 2); break;
    case 3: u->setCurrent(100 * cap, false, false); break; // so large that the voltage is near or below zero
    }
  } catch (int e) {
    return e;
  }
  return 0;
}

static void scenario(Ctx &ctx)
{
  const auto topos = topologies(ctx.thorough);
  const auto &t = topos[static_cast<size_t>(ctx.choose(static_cast<int>(topos.size()), "topology"))];
  const int n = static_cast<int>(std::count(t.begin(), t.end(), '@'));
  const int extreme = ctx.choose(n, "extreme cell");
  const int side = ctx.choose(2, "side");
  const auto expr = instantiate(t, extreme, side, ctx);
  ctx.note("pack %s", expr.c_str());

  auto U = build(expr), W = build(expr); // W: the twin that never sees the refused command
  blockAll(U.get(), true);
  blockAll(W.get(), true);
  const double cap = U->Cap();

  const int depth = ctx.choose((ctx.thorough ? 4 : 3) - (n > 6), "history length");
  for (int i = 0; i < depth; i++) {
    const int op = ctx.choose(i == depth - 1 ? 4 : 3, "history op");
    const int a = apply(U.get(), op, cap), b = apply(W.get(), op, cap);
    if (a != 0 || b != 0) ctx.prune();
    ctx.step("history op %d", op);
  }
  ctx.state(statesOf(U.get()));

  // the command under test
  const auto before = observe(U.get());
  observe(W.get()); // the same reads
  const auto cells = leaves(U.get());
  Status st = Status::Success;
  bool threw = false, must = false;
  std::string what;
  const int kind = ctx.choose(4, "command");
  if (kind == 0) {
    const double I = cap * ctx.pick({ 2.0, -2.0, 3.0, -3.0, 8.0, -8.0, 60.0, -60.0, 130.0, std::nan("") }, "current");
    const bool chk = std::isnan(I) || ctx.flag("checkV");
    must = std::isnan(I);
    what = fmt("setCurrent(%g, checkV=%d)", I, chk);
    st = U->setCurrent(I, chk, false);
  } else if (kind == 1) { // restore a state in which one cell is corrupt
    auto s = statesOf(U.get());
    const int victim = ctx.choose(n, "victim cell");
    auto c = cells[static_cast<size_t>(victim)];
    size_t off = 0;
    {
      // offset of the victim in the state vector: find it by poking its temperature
      const double T0 = c->T();
      auto b = statesOf(U.get());
      auto cs = statesOf(c);
      for (off = 0; off + cs.size() <= b.size(); off++)
        if (std::equal(cs.begin(), cs.end(), b.begin() + static_cast<long>(off))) {
          c->setT(T0 + 1);
          auto b2 = statesOf(U.get());
          auto cs2 = statesOf(c);
          c->setT(T0);
          if (std::equal(cs2.begin(), cs2.end(), b2.begin() + static_cast<long>(off))) break;
        }
    }
    auto cs = statesOf(c);
    auto idx = [&](double target, double now) -> long { // position of a state variable by value
      (void)now;
      for (size_t i = 0; i < cs.size(); i++)
        if (cs[i] == target) return static_cast<long>(off + i);
      return -1;
    };
    // change something in every other cell too, so that a forgotten roll-back is visible
    const long iT = idx(c->T(), 0), iS = idx(c->SOC(), 0);
    for (size_t i = 0; i < s.size(); i++)
      for (auto o : cells)
        if (o != c && s[i] == o->SOC()) s[i] *= 0.999;
    auto spm = dynamic_cast<Cell_SPM *>(c);
    const int corr = ctx.choose(spm ? 12 : 4, "corruption");
    long at = corr < 2 ? iS : iT;
    double val = corr == 0 ? 1.5 : corr == 1 ? -0.25 : corr == 2 ? 200.0 : 400.0;
    if (corr >= 4) {
      auto &so = spm->getStateObj();
      auto pos = [&](double &x) { return static_cast<long>(off) + (&x - spm->viewStates().data()); };
      switch (corr) {
      case 4: at = pos(so.LLI()), val = -1; break;
      case 5: at = pos(so.delta()), val = -1e-9; break;
      case 6: at = pos(so.CS()), val = -1e-3; break;
      case 7: at = pos(so.delta_pl()), val = -1e-9; break;
      case 8: at = pos(so.rDCp()), val = -1e-3; break;
      case 9: at = pos(so.an()), val = so.an() * 1.01; break;
      case 10: at = pos(so.ap()), val = so.ap() * 0.99; break;
      case 11: at = pos(so.zn(static_cast<size_t>(ctx.choose(5, "node")))), val = 1e3; break;
      }
    }
    if (at < 0) ctx.prune();
    s[static_cast<size_t>(at)] = val;
    const bool chk = ctx.flag("checkV");
    what = fmt("setStates(cell %d, state %ld := %g, checkV=%d)", victim, at - static_cast<long>(off), val, chk);
    if (corr == 11 && std::abs(val) < 1) must = false;
    std::span<double> sp{ s };
    must = true;
    st = U->setStates(sp, chk, false);
  } else if (kind == 2) {
    const int victim = ctx.choose(n, "cell");
    const double soc = ctx.pick({ -0.1, 1.1, -1e-6, 1.000001, 0.0, 1.0, std::nan("") }, "SOC");
    const bool chk = ctx.flag("checkV");
    what = fmt("cell %d setSOC(%g, checkV=%d)", victim, soc, chk);
    must = !(soc >= 0 && soc <= 1);
    st = cells[static_cast<size_t>(victim)]->setSOC(soc, chk, false);
  } else {
    const double dt = ctx.pick({ -1.0, -1e-9, std::nan("") }, "dt");
    what = fmt("timeStep_CC(%g)", dt);
    must = true;
    try {
      U->timeStep_CC(dt, 1);
    } catch (int) {
      threw = true;
    }
  }
  ctx.step("%s -> %s%s", what.c_str(), getStatusMessage(st), threw ? " threw" : "");
  const bool refused = threw || isStatusBad(st);
  const char *cmdname[] = { "current", "states", "soc", "step" };
  if (must) ctx.check(refused, std::string("P02/accepted-invalid-") + cmdname[kind], expr + ": invalid command accepted: " + what);
  if (!refused) {
    ctx.state(statesOf(U.get()));
    return;
  }
  ctx.cover(std::string("refused ") + cmdname[kind] + (n > 1 ? " in a pack" : " by a cell"));

  // 1. everything observable is unchanged
  const auto after = observe(U.get());
  auto d = diff(before, after, 1e-12, 1e-25);
  ctx.check(d.empty(), std::string("P02/state-changed-by-refused-") + cmdname[kind] + (n > 1 ? "-pack" : "-cell"), expr + ": " + what + " refused but " + d);

  // 2. and it behaves like the twin from here on
  for (int i = 0; i < (ctx.thorough ? 2 : 1); i++) {
    const int op = ctx.choose(3, "continuation");
    const int a = apply(U.get(), op, cap), b = apply(W.get(), op, cap);
    ctx.step("continue %d", op);
    ctx.check(a == b, std::string("P02/diverges-after-refused-") + cmdname[kind], expr + fmt(": after the refused %s the next operation ends with exception %d, the twin's with %d", what.c_str(), a, b));
    if (a != 0) break;
    d = diff(observe(W.get()), observe(U.get()), 1e-9, 1e-11);
    ctx.check(d.empty(), std::string("P02/diverges-after-refused-") + cmdname[kind], expr + ": after the refused " + what + ": twin vs unit " + d);
  }
  ctx.state(statesOf(U.get()));
}

// every kind of corruption in every cell, module and battery
static void corruptScenario(Ctx &ctx)
{
  static const std::vector<std::string> quick{ "B50", "M50", "s(B50,M52)", "p(M50,M52)", "s(p(M50,B52),s(B48,M51))", "p(s(B50,M50),B51)", "b2x3:s(B50,M50)", "b1x2:p(B50,s(M50,B52))", "D50", "s(34*B50)", "p(20*B50)" };
  const auto expr = ctx.pick(quick, "pack");
  auto U = build(expr), W = build(expr);
  blockAll(U.get(), true), blockAll(W.get(), true);
  const double cap = U->Cap();
  const int hist = ctx.choose(4, "history");
  for (auto u : { U.get(), W.get() })
    try {
      if (hist >= 1) u->setCurrent((hist == 2 ? -0.3 : 0.4) * cap, false, false);
      if (hist == 3) u->timeStep_CC(2, 3);
    } catch (int) {
      ctx.prune(); // a pack whose cells are too far apart to share the current
    }
  const auto ns = nodes(U.get());
  const int victim = ctx.choose(static_cast<int>(ns.size()), "victim");
  // states are the children's states followed by the temperature of the module
  std::function<long(SU *, SU *)> find = [&](SU *u, SU *v) -> long {
    if (u == v) return 0;
    long off = 0;
    for (auto c : children(u)) {
      const long k = find(c, v);
      if (k >= 0) return off + k;
      off += static_cast<long>(statesOf(c).size());
    }
    return -1;
  };
  auto v = ns[static_cast<size_t>(victim)];
  const long off = find(U.get(), v);
  auto s = statesOf(U.get());
  for (auto o : ns) // something else changes in all other cells
    if (auto c = asCell(o); c && o != v) {
      const long k = find(U.get(), o);
      const auto cs = statesOf(o);
      for (size_t i = 0; i < cs.size(); i++)
        if (cs[i] == c->SOC()) s[static_cast<size_t>(k) + i] *= 0.99;
    }
  std::string what;
  bool voltageOnly = false; // the states are allowed ones, but the voltage is not
  if (!asCell(v)) {
    const double T = ctx.pick({ 0.0, 200.0, 272.9, 348.1, 400.0, -1.0, std::nan("") }, "temperature");
    s[static_cast<size_t>(off) + statesOf(v).size() - 1] = T;
    what = fmt("temperature %g of unit %d", T, victim);
  } else if (auto spm = dynamic_cast<Cell_SPM *>(v)) {
    auto &so = spm->getStateObj();
    auto pos = [&](double &x) { return static_cast<size_t>(off + (&x - spm->viewStates().data())); };
    const int kind = ctx.choose(26, "kind");
    what = fmt("corruption %d of unit %d", kind, victim);
    auto scale = [&](double &x, double f) { s[pos(x)] = x * f; };
    switch (kind) {
    case 0: s[pos(so.T())] = 272.9; break;
    case 1: s[pos(so.T())] = 333.1; break;
    case 2: s[pos(so.SOC())] = -1e-6; break;
    case 3: s[pos(so.SOC())] = 1 + 1e-6; break;
    case 4: s[pos(so.delta())] = 0; break;
    case 5: s[pos(so.delta())] = -1e-12; break;
    case 6: s[pos(so.LLI())] = -1e-9; break;
    case 7: scale(so.thickp(), -1); break;
    case 8: scale(so.thickn(), -1); break;
    case 9: scale(so.ep(), -1), scale(so.ap(), -1); break;
    case 10: scale(so.en(), -1), scale(so.an(), -1); break;
    case 11: scale(so.ap(), 1.001); break;
    case 12: scale(so.ap(), 0.999); break;
    case 13: scale(so.an(), 1.001); break;
    case 14: scale(so.an(), 0.999); break;
    case 15: scale(so.ep(), 0.999); break;
    case 16: scale(so.en(), 1.001); break;
    case 17: s[pos(so.CS())] = -1e-9; break;
    case 18: scale(so.Dp(), -1); break;
    case 19: scale(so.Dn(), ctx.flag("zero") ? 0 : -1); break;
    case 20: s[pos(so.delta_pl())] = -1e-15; break;
    case 21: s[pos(ctx.choose(3, "resistance") == 0 ? so.rDCp() : ctx.flag("cc") ? so.rDCcc() : so.rDCn())] = -1e-9; break;
    case 22: s[pos(so.zp(static_cast<size_t>(ctx.choose(5, "node"))))] = ctx.flag("sign") ? 1e6 : -1e6; break;
    case 25: { // not a number
      double *x[]{ &so.T(), &so.SOC(), &so.delta(), &so.LLI(), &so.thickp(), &so.thickn(), &so.ep(), &so.en(), &so.ap(), &so.an(), &so.CS(), &so.Dp(), &so.Dn(), &so.delta_pl(), &so.rDCp(), &so.rDCn(), &so.rDCcc(), &so.zp(0), &so.zn(2), &so.zp(4) };
      const int w = ctx.choose(20, "variable");
      what += fmt(" variable %d", w);
      s[pos(*x[w])] = std::nan("");
      break;
    }
    case 24: s[pos(so.I())] = (ctx.flag("sign") ? 200 : -200) * v->Cap(), voltageOnly = true; break;
    case 23: s[pos(so.zn(static_cast<size_t>(ctx.choose(5, "node"))))] = ctx.flag("sign") ? 1e6 : -1e6; break;
    }
  } else {
    auto c = asCell(v);
    const auto cs = statesOf(v);
    const int kind = ctx.choose(7, "kind");
    what = fmt("corruption %d of unit %d", kind, victim);
    if (kind == 4) { // the current follows the temperature and the state of charge
      s[static_cast<size_t>(off) + 2] = (ctx.flag("sign") ? 200 : -200) * v->Cap();
      voltageOnly = true;
    } else for (size_t i = 0; i < cs.size(); i++)
      if (cs[i] == (kind < 2 || kind == 5 ? c->T() : c->SOC())) {
        s[static_cast<size_t>(off) + i] = kind == 0 ? 272.9 : kind == 1 ? 333.1 : kind == 2 ? -1e-6 : kind == 3 ? 1 + 1e-6 : std::nan("");
        break;
      }
  }
  const bool chk = ctx.flag("checkV");
  const auto before = observe(U.get());
  observe(W.get());
  std::span<double> sp{ s };
  Status st = Status::Success;
  bool threw = false;
  try {
    st = U->setStates(sp, chk, false);
  } catch (int) {
    threw = true;
  }
  ctx.step("%s: %s", expr.c_str(), what.c_str());
  if (voltageOnly && !chk && !threw && !isStatusBad(st)) ctx.prune();
  ctx.check(threw || isStatusBad(st), "P02/accepted-invalid-states", expr + ": " + what + " accepted");
  auto d = diff(before, observe(U.get()), 1e-12, 1e-25);
  ctx.check(d.empty(), "P02/state-changed-by-refused-states", expr + ": " + what + " refused but " + d);
  ctx.cover(asCell(v) ? "corrupt cell" : "corrupt module");
  for (int op : { 2, 0, 2 }) {
    const int a = apply(U.get(), op, cap), b = apply(W.get(), op, cap);
    ctx.check(a == b, "P02/diverges-after-refused-states", expr + ": " + what);
    if (a) break;
    d = diff(observe(W.get()), observe(U.get()), 1e-9, 1e-11);
    ctx.check(d.empty(), "P02/diverges-after-refused-states", expr + ": after " + what + ": twin vs unit " + d);
  }
  ctx.state(statesOf(U.get()));
}

int main(int argc, char **argv) { return main_(argc, argv, { { "refusal", scenario }, { "corrupt", corruptScenario } }); }
