// P31 - independent units never influence each other: whatever is done to other units in the same program, in
// whatever order, and (second build) in other threads.
#ifdef THREADS
#include "sched.hpp"
#include "utility/parallelisation.hpp"
#else
#include "common.hpp"
#endif
#include "procedures/Procedure.hpp"
#include "procedures/Cycler.hpp"
using namespace H;

// a user of one unit
struct User
{
  std::string e;
  Deep_ptr<SU> u;
  std::unique_ptr<Cycler> cyc;
  std::vector<double> saved;
  ThroughputData th{};
  std::vector<Obs> seen; // what was observed after every command
  explicit User(const std::string &ex) : e(ex), u(build(ex))
  {
    cyc = std::make_unique<Cycler>(u.get(), "p31");
    u->setCurrent(0, false, false);
  }
  double look()
  {
    Obs o = observe(u.get());
    o.add("hot", u->getThotSpot());
    o.add("high", u->getVhigh());
    o.add("low", u->getVlow());
    double v = 0;
    o.add("status", static_cast<double>(static_cast<int>(u->checkVoltage(v, false))));
    o.add("time", th.time());
    o.add("Ah", th.Ah());
    o.add("Wh", th.Wh());
    if (auto m = asModule(u.get())) o.add("coolant", m->getCoolSystem()->T());
    seen.push_back(o);
    return v;
  }
  // a command; an exception is part of the outcome
  void act(int op)
  {
    int threw = 0;
    double r = 0;
    const double cap = u->Cap();
    try {
      switch (op) {
      case 0: r = static_cast<double>(static_cast<int>(u->setCurrent(0.6 * cap, true, false))); break;
      case 1: r = static_cast<double>(static_cast<int>(u->setCurrent(-0.9 * cap, true, false))); break;
      case 2: u->timeStep_CC(2, 11); break;
      case 3: r = static_cast<double>(static_cast<int>(cyc->CC(0.3 * cap, u->Vmin(), 20, 2, 0, th))); break;
      case 4: // warmer
        for (auto n : nodes(u.get())) n->setT(settings::T_ENV + 17.3);
        break;
      case 5: // saved and restored later
        if (saved.empty())
          u->getStates(saved);
        else {
          std::span<double> s(saved);
          r = static_cast<double>(static_cast<int>(u->setStates(s, true, false)));
        }
        break;
      case 6: r = static_cast<double>(static_cast<int>(cyc->rest(31, 1, 0, th))); break;
      case 7: { // goes on with a copy
        Deep_ptr<SU> c(u->copy());
        u = std::move(c);
        cyc = std::make_unique<Cycler>(u.get(), "p31");
        break;
      }
      case 8: // other parameters
        for (auto c : leaves(u.get()))
          if (auto m = dynamic_cast<Cell_SPM *>(c)) m->setCharacterisationParam(9e-14, 8e-14, 4e-11, 2e-11, 3e-3);
          else c->setCapacity(c->Cap() * 0.9);
        break;
      case 9: r = static_cast<double>(static_cast<int>(u->setVoltage(u->V() * 0.995))); break;
      case 10: // models blocked
        blockAll(u.get(), true);
        break;
#ifndef THREADS
      case 11: // other curves; built from files
        for (auto c : leaves(u.get()))
          if (auto m = dynamic_cast<Cell_SPM *>(c)) m->setOCVcurve("LGChem_OCV_NMC.csv", "LGChem_OCV_C.csv");
        break;
      case 12: { // another unit of the same kind is built, used and destroyed
        auto x = build(e);
        x->setCurrent(0.4 * x->Cap(), false, false);
        x->setT(settings::T_ENV + 9);
        x->timeStep_CC(3, 4);
        x->setCurrent(-0.2 * x->Cap(), false, false);
        x->V();
        break;
      }
#endif
      }
    } catch (int x) {
      threw = 1 + x;
    }
    const double v = look();
    seen.back().add("result", r);
    seen.back().add("exception", threw);
    seen.back().add("V", v);
  }
};

static void compare(Ctx &ctx, const User &a, const User &ref, const std::string &w)
{
  for (size_t i = 0; i < ref.seen.size() && i < a.seen.size(); i++) {
    ctx.checks++;
    const auto d = diff(a.seen[i], ref.seen[i], 1e-13, 1e-15);
    if (!d.empty()) ctx.fail("P31/influence", w + fmt(": after its command %zu ", i) + a.e + " differs from what it does alone: " + d);
  }
  if (a.seen.size() != ref.seen.size()) ctx.fail("P31/influence", w + ": commands");
}

#ifndef THREADS
static const int OPS = 13;
static void interleave(Ctx &ctx)
{
  static const std::vector<std::string> es{ "M50", "D60", "E50", "B50", "F55", "G45", "s(M50,D55)~1", "p(E50,M52)", "b2x3:s(B50,M50)", "s(p(D50,D52),E50)~1", "M80" };
  const auto ea = ctx.pick(es, "unit");
  const auto eb = ctx.pick(es, "other unit");
  // programs of the first: every pair of commands, after a current; of the second: a few longer ones
  const int a1 = ctx.choose(OPS, "command"), a2 = ctx.choose(OPS, "command");
  static const std::vector<std::vector<int>> progs{ { 1, 2, 4 }, { 4, 0, 2 }, { 8, 1, 2 }, { 11, 1, 2 }, { 0, 5, 2, 5 }, { 12, 7, 1 }, { 3, 10, 6 }, { 9, 2, 12 } };
  const int pb = ctx.choose(static_cast<int>(progs.size()), "program of the other");
  const bool big = ea.size() > 3 || eb.size() > 3;
  if (!ctx.thorough && big && (a1 + a2 * 5 + pb) % 4) ctx.prune();
  const std::vector<int> pa{ 0, a1, a2, 2 }, &pq = progs[static_cast<size_t>(pb)];
  User ra(ea), rb(eb);
  for (int o : pa) ra.act(o);
  for (int o : pq) rb.act(o);
  User a(ea), b(eb);
  std::string w = ea + " and " + eb + " ";
  size_t i = 0, j = 0;
  while (i < pa.size() || j < pq.size()) {
    // the first command of the first unit always comes first, and the last one last (they are symmetrical otherwise)
    const bool first = j == pq.size() || (i < pa.size() && (i == 0 || (i + 1 < pa.size() && ctx.flag("first unit"))));
    if (first) w += fmt("a%d ", pa[i]), a.act(pa[i++]);
    else w += fmt("b%d ", pq[j]), b.act(pq[j++]);
  }
  ctx.step("%s", w.c_str());
  compare(ctx, a, ra, w);
  compare(ctx, b, rb, w);
  ctx.state(a.seen.back().v, std::hash<std::string>{}(w));
  ctx.cover(ea == eb ? "same kind" : "different kinds");
}
// a unit behaves as ever after the tools of the library were used in the same program
static void tools(Ctx &ctx)
{
  static const std::vector<std::string> es{ "M50", "D60", "E50", "s(M50,D55)~1", "b2x3:s(B50,M50)" };
  const auto e = ctx.pick(es, "unit");
  const int tool = ctx.choose(5, "tool");
  const int when = ctx.choose(4, "when");
  const std::vector<int> p{ 0, 2, 1, 2 };
  User r(e);
  for (int o : p) r.act(o);
  User a(e);
  for (int i = 0; i < 4; i++) {
    if (i == when) {
      auto x = build(e);
      if (tool == 0) { Procedure q(true, 3.65, 0, true); q.checkUp(x.get(), 0, 0); }
      if (tool == 1) { Procedure q(false, 3.65, 0, true); x->setBlockDegAndTherm(true); q.rebalance(x.get()); }
      if (tool == 2) {
        Cycler c(x.get(), "tool");
        double Ah, t;
        ThroughputData th;
        c.testCapacity(Ah, t);
      }
      if (tool == 3) Model_SPM::makeModel();
      if (tool == 4) {
        XYdata_vv c;
        c.setCurve(PathVar::data / "LGChem_OCV_C.csv");
        c.y[0] = 77;
        for (auto &y : c.y) y *= 2;
      }
    }
    a.act(p[static_cast<size_t>(i)]);
  }
  User b(e); // a unit built afterwards
  for (int o : p) b.act(o);
  const auto w = fmt("tool %d before command %d of ", tool, when) + e;
  ctx.step("%s", w.c_str());
  compare(ctx, a, r, w);
  compare(ctx, b, r, w + ", built afterwards");
  ctx.cover("tools");
  ctx.state(a.seen.back().v, static_cast<uint64_t>(tool));
}
int main(int argc, char **argv) { return main_(argc, argv, { { "interleave", interleave }, { "tools", tools } }); }
#else
// each of two or three users in a thread of its own; built in the main thread
static void threads(Ctx &ctx)
{
  static const std::vector<std::string> es{ "M50", "D60", "E50", "s(M50,D55)~1", "p(E50,M52)", "b2x3:s(B50,M50)" };
  const auto ea = ctx.pick(es, "unit"), eb = ctx.pick(es, "other unit");
  static const std::vector<std::vector<int>> progs{ { 1, 2, 4 }, { 4, 0, 2 }, { 8, 1, 2 }, { 0, 5, 2, 5 }, { 0, 7, 2 }, { 3, 10, 6 }, { 9, 2 } };
  const auto pa = ctx.pick(progs, "program"), pb = ctx.pick(progs, "other program");
  if (!ctx.thorough && ea > eb) ctx.prune();
  User ra(ea), rb(eb), a(ea), b(eb);
  for (int o : pa) ra.act(o);
  for (int o : pb) rb.act(o);
  char report[512]{};
  uint64_t acc = 0;
  sched::begin(ctx, 2, ctx.thorough ? 2 : 1);
  monBegin();
  slide::run(
    [&](int i) {
      sched::point();
      for (int o : i ? pb : pa) {
        (i ? b : a).act(o);
        sched::point();
      }
    },
    2, 2);
  const int conflicts = monEnd(report, sizeof report, &acc);
  const int created = sched::g.created;
  const bool joined = sched::end();
  const auto w = ea + " and " + eb + " in threads";
  ctx.step("%s: %zu accesses, %d threads", w.c_str(), static_cast<size_t>(acc), created);
  ctx.check(joined, "P31/threads", w + ": workers still run");
  ctx.check(conflicts == 0, "P31/shared", w + ": " + report);
  compare(ctx, a, ra, w);
  compare(ctx, b, rb, w);
  if (created > 1 && acc > 100) ctx.cover("units in threads");
  ctx.state(a.seen.back().v, std::hash<std::string>{}(w));
}
int main(int argc, char **argv) { return main_(argc, argv, { { "threads", threads } }); }
#endif
