// P13 - multi-threaded stepping equals serial stepping under every schedule.
#include "sched.hpp"
#include "utility/parallelisation.hpp"
using namespace H;

// ------------------------------------------------------------- work distribution ----
static void distribute(Ctx &ctx, int n, unsigned cores, unsigned limit, int fails, int delays)
{
  std::vector<int> begun(static_cast<size_t>(n)), done(static_cast<size_t>(n));
  bool back = false, late = false;
  int got = 0;
  sched::begin(ctx, cores, delays);
  try {
    slide::run(
      [&](int i) {
        sched::point();
        if (back) late = true;
        begun[static_cast<size_t>(i)]++;
        if (fails >> i & 1) throw 40 + i;
        sched::point();
        if (back) late = true;
        done[static_cast<size_t>(i)]++;
      },
      n, limit);
  } catch (int e) {
    got = e;
  } catch (const std::exception &) {
    got = -1;
  }
  back = true;
  const int created = sched::g.created;
  const bool joined = sched::end();
  ctx.step("%d tasks, %u processors, limit %u, failing %x: result %d with %d threads", n, cores, limit, fails, got, created);
  ctx.check(joined && !late, "P13/late", fmt("%d tasks on %u processors: workers still run after the call returned", n, cores));
  int first = -1;
  for (int i = n - 1; i >= 0; i--)
    if (fails >> i & 1) first = i;
  ctx.check(got == (first < 0 ? 0 : 40 + first), "P13/exception", fmt("task %d is the first to fail, the caller gets %d", first, got));
  for (int i = 0; i < n; i++) {
    const auto j = static_cast<size_t>(i);
    const auto q = fmt("%d tasks, %u processors, limit %u, failing %x: task %d ran %d times", n, cores, limit, fails, i, begun[j]);
    ctx.check(begun[j] <= 1, "P13/once", q);
    if (first < 0 || i < first) ctx.check(done[j] == 1, "P13/once", q);
    if (!(fails >> i & 1)) ctx.check(done[j] == begun[j], "P13/partial", q);
  }
  if (created > 1) ctx.cover("several workers");
  if (first >= 0) ctx.cover("failing task");
  if (cores == 0) ctx.cover("unknown processors");
  ctx.stateBits(static_cast<uint64_t>(n) | cores << 4 | static_cast<uint64_t>(fails) << 8 | static_cast<uint64_t>(limit % 8) << 16 | static_cast<uint64_t>(created) << 20);
}

static void distribution(Ctx &ctx)
{
  const int n = ctx.choose(ctx.thorough ? 7 : 6, "tasks");
  const unsigned cores = static_cast<unsigned>(ctx.choose(ctx.thorough ? 6 : 5, "processors"));
  const unsigned limit = ctx.pick({ 1u, 0u, 2u, 3u, 100u, ~0u }, "worker limit");
  const int fails = ctx.choose(n <= 4 ? 1 << n : 1, "failing tasks");
  distribute(ctx, n, cores, limit, fails, ctx.thorough ? 2 : 1);
}
// every interleaving of few tasks
static void interleavings(Ctx &ctx)
{
  const int n = ctx.choose(ctx.thorough ? 4 : 3, "tasks");
  const unsigned cores = static_cast<unsigned>(ctx.choose(2, "processors") + (n > 2 ? 1 : 2));
  const int fails = ctx.choose(1 << n, "failing tasks");
  distribute(ctx, n, cores, ~0u, fails, 1000000);
}

// ---------------------------------------------------------------------- packs -------
// a real cell whose step starts and ends with a scheduling point
template <typename C>
struct Probe : C
{
  int bad{ 0 };
  explicit Probe(const C &c) : C(c) {}
  Probe(const Probe &) = default;
  Probe *copy() override { return new Probe(*this); }
  void timeStep_CC(double dt, int n = 1) override
  {
    sched::point();
    if (bad) throw bad;
    C::timeStep_CC(dt, n);
    sched::point();
  }
};
// replace the leaves by probes
static void probe(SU *u)
{
  auto m = asModule(u);
  if (!m) return;
  for (auto &k : m->getSUs()) {
    SU *c = k.get(), *p = nullptr;
    if (auto x = dynamic_cast<Cell_Bucket *>(c)) p = new Probe<Cell_Bucket>(*x);
    else if (auto x1 = dynamic_cast<Cell_ECM<1> *>(c)) p = new Probe<Cell_ECM<1>>(*x1);
    else if (auto x2 = dynamic_cast<Cell_SPM *>(c)) p = new Probe<Cell_SPM>(*x2);
    if (p) {
      p->setParent(m);
      k = Deep_ptr<SU>(p);
    } else
      probe(c);
  }
}
static void setBad(SU *c, int e)
{
  if (auto x = dynamic_cast<Probe<Cell_Bucket> *>(c)) x->bad = e;
  if (auto x = dynamic_cast<Probe<Cell_ECM<1>> *>(c)) x->bad = e;
  if (auto x = dynamic_cast<Probe<Cell_SPM> *>(c)) x->bad = e;
}
static std::string strip(std::string e)
{
  e.erase(std::remove(e.begin(), e.end(), '!'), e.end());
  return e;
}

static void stepPack(Ctx &ctx, const std::vector<std::string> &ps, bool probes, int switches)
{
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "pack"))];
  const unsigned cores = static_cast<unsigned>(ctx.choose(probes ? 3 : 2, "processors") + 2);
  const bool blocked = ctx.flag("blocked");
  auto a = build(e), b = build(strip(e));
  if (probes) probe(a.get()), probe(b.get());
  const auto la = leaves(a.get()), lb = leaves(b.get());
  const int n = static_cast<int>(la.size());
  for (auto u : { a.get(), b.get() }) {
    blockAll(u, blocked);
    u->setCurrent(3, false, false);
  }
  const int bad = probes ? ctx.choose(n + 1, "failing cell") - 1 : -1;
  if (bad >= 0) setBad(la[static_cast<size_t>(bad)], 77), setBad(lb[static_cast<size_t>(bad)], 77);
  ctx.note("%s on %u processors, cell %d fails", e.c_str(), cores, bad);
  const int steps = ctx.thorough ? 2 : 1;
  for (int k = 0; k < steps; k++) {
    int ra = 0, rb = 0;
    char report[512];
    uint64_t acc = 0;
    sched::begin(ctx, cores, switches);
    monBegin();
    try {
      a->timeStep_CC(3, 4);
    } catch (int x) {
      ra = x;
    }
    const int conflicts = monEnd(report, sizeof report, &acc);
    const int created = sched::g.created;
    const bool joined = sched::end();
    try {
      b->timeStep_CC(3, 4);
    } catch (int x) {
      rb = x;
    }
    ctx.step("%s: threaded %d (%d threads, %zu accesses), serial %d", e.c_str(), ra, created, static_cast<size_t>(acc), rb);
    ctx.check(joined, "P13/late", e + ": workers still run after the step returned");
    ctx.check(conflicts == 0, "P13/conflict", e + ": " + report);
    ctx.check(ra == rb, "P13/exception", fmt("%s: cell %d fails: threaded step gives %d, serial %d", e.c_str(), bad, ra, rb));
    if (!ra) {
      const auto d = diff(observe(a.get()), observe(b.get()));
      ctx.check(d.empty(), "P13/serial", e + ": threaded and serial step differ: " + d);
    }
    Obs o = observe(a.get());
    ctx.state(o.v);
    if (created > 1) ctx.cover(bad >= 0 ? "failing member" : "threads");
    if (acc > 100) ctx.cover("accesses monitored");
    if (created > 3) ctx.cover("nested threads");
    if (ra) return;
  }
}
static void schedules(Ctx &ctx)
{
  static const std::vector<std::string> ps{ "s(B50,E60)!", "p(B50,B52)!", "s(B50,B51,E52)!" };
  stepPack(ctx, ps, true, ctx.thorough ? 4 : 3);
}
static void sharing(Ctx &ctx)
{
  static const std::vector<std::string> ps{ "s(M50,M60)!", "s(D50,D60,M55)!~1", "p(M50,M50)!", "s(D50,B50,E50,F50)!", "s(s(M50,D50)!,s(E50,B50)!)!", "p(s(M50,B50)!,s(M50,B50)!)!~1", "s(p(M50,M51)!,p(B50,B51)!)!", "s(p(M50,M52),p(M51,M50))!", "s(p(E50,E60),p(F55,F50))!", "p(p(E50,E60),p(E50,M55))!", "s(p(s(M50,M51),M52),p(D50,D53))!", "b2x3:s(p(D50,D52),p(M50,M51))!" };
  stepPack(ctx, ps, false, ctx.thorough ? 3 : 1);
}

int main(int argc, char **argv)
{
  return main_(argc, argv, { { "distribution", distribution }, { "interleavings", interleavings }, { "schedules", schedules }, { "sharing", sharing } });
}
