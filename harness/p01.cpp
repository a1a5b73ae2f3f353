// P01 - voltage verdicts of cells and packs, limits of packs.
#include "common.hpp"
using namespace H;

// a cell with its own limits, so that packs of unequal limits exist
struct LimCell : public Cell_ECM<1>
{
  double a{ 2.7 }, b{ 2.0 }, c{ 4.2 }, d{ 4.3 };
  using Cell_ECM<1>::Cell_ECM;
  constexpr double Vmin() const override { return a; }
  constexpr double VMIN() const override { return b; }
  constexpr double Vmax() const override { return c; }
  constexpr double VMAX() const override { return d; }
  LimCell *copy() override { return new LimCell(*this); }
};

static const double MARGIN = 0.01;
static Status want(double v, double I, double Vmin, double VMIN, double Vmax, double VMAX)
{
  if (!(v > 0)) return Status::V_not_calculated;
  if (v > Vmin - MARGIN && v < Vmax + MARGIN) return Status::Success;
  if (I > 0) return v < VMIN ? Status::VMIN_violation : v <= Vmin - MARGIN ? Status::Vmin_violation : Status::Success;
  if (I < 0) return v > VMAX ? Status::VMAX_violation : v >= Vmax + MARGIN ? Status::Vmax_violation : Status::Success;
  return Status::Success;
}

static std::vector<double> levels(double Vmin, double VMIN, double Vmax, double VMAX, bool fine)
{
  std::vector<double> v{ -3, -1e-6, 1e-6, 0.47, 0.5 * (Vmin + Vmax), 8, std::nan("") };
  for (double L : { VMIN, Vmin - MARGIN, Vmin, Vmax, Vmax + MARGIN, VMAX }) {
    v.push_back(L - 1e-6);
    v.push_back(L + 1e-6);
    if (fine)
      for (double e : { 1e-4, 5e-3, 2e-2 }) {
        v.push_back(L - e);
        v.push_back(L + e);
      }
  }
  return v;
}
static const std::vector<double> dirs{ 0.0, 1e-9, -1e-9, 1.0, -1.0, 48.0, -48.0 };

template <size_t N>
static void setLevel(Cell_ECM<N> &c, double V, double I) // choose the RC current such that the terminal voltage is V
{
  auto &st = c.getStateObj();
  st.I() = I;
  st.Ir(0) = 0;
  st.Ir(0) = (c.V() - V) / 15.8e-3;
}

static void cellVerdict(Ctx &ctx)
{
  const int kind = ctx.choose(3, "cell kind");
  const double I = ctx.pick(dirs, "current");
  LimCell lc("lim", 16, 0.5);
  Cell_ECM<1> e1("e1", 16, 0.5);
  Cell_ECM<2> e2("e2", 16, 0.5);
  Cell *c = kind == 0 ? static_cast<Cell *>(&e1) : kind == 1 ? static_cast<Cell *>(&e2) : &lc;
  if (kind == 2) {
    const int w = ctx.choose(3, "limits");
    if (w == 1) lc.a = 3.0, lc.b = 2.5, lc.c = 3.6, lc.d = 3.65;
    if (w == 2) lc.a = 1.0, lc.b = 0.5, lc.c = 2.8, lc.d = 2.9;
  }
  const double V = ctx.pick(levels(c->Vmin(), c->VMIN(), c->Vmax(), c->VMAX(), true), "level");
  if (kind == 0) setLevel(e1, V, I);
  else if (kind == 1) setLevel(e2, V, I);
  else setLevel(lc, V, I);
  const auto before = observe(c);
  double v = -77;
  const auto st = c->checkVoltage(v, ctx.flag("print"));
  const auto w = want(V, I, c->Vmin(), c->VMIN(), c->Vmax(), c->VMAX());
  ctx.step("check at V=%.7g I=%g -> %s", V, I, getStatusMessage(st));
  ctx.check(st == w, "P01/verdict", fmt("V=%.9g I=%g: verdict '%s', documented '%s'", V, I, getStatusMessage(st), getStatusMessage(w)));
  if (!std::isnan(V)) ctx.near(v, c->V(), "P01/returned-voltage", "voltage returned by the check", 1e-12);
  if (!std::isnan(V)) ctx.near(v, V, "P01/returned-voltage", "voltage returned by the check", 1e-9, 1e-9);
  const bool critical = w == Status::VMIN_violation || w == Status::VMAX_violation || w == Status::V_not_calculated;
  ctx.check(isStatusBad(st) == critical && isStatusOK(st) == !critical && isStatusWarning(st) == (w == Status::Vmin_violation || w == Status::Vmax_violation)
              && isStatusSuccessful(st) == (w == Status::Success) && isStatusFailed(st) == (w != Status::Success),
            "P01/severity", std::string("severity of ") + getStatusMessage(st));
  ctx.check(diff(before, observe(c)).empty(), "P01/check-changes-state", "checking the voltage changed the cell");
  ctx.cover(getStatusMessage(w));
  ctx.state({ V, I, static_cast<double>(kind) });
}

// setting a current reports the verdict of the resulting voltage, and is refused only when it is critical
static void commandVerdict(Ctx &ctx)
{
  const int kind = ctx.choose(2, "cell kind");
  LimCell e("e", 16, 0.5), r("r", 16, 0.5);
  if (kind == 1) e.a = r.a = 3.0, e.b = r.b = 2.5, e.c = r.c = 3.6, e.d = r.d = 3.65;
  const double I0 = ctx.pick(dirs, "present current"), I1 = ctx.pick(dirs, "new current");
  const double V1 = ctx.pick(levels(e.Vmin(), e.VMIN(), e.Vmax(), e.VMAX(), false), "level after");
  setLevel(e, V1, I1);
  e.getStateObj().I() = I0;
  const bool chk = ctx.flag("checkV");
  const auto st = e.setCurrent(I1, chk, false);
  const auto w = chk ? want(V1, I1, e.Vmin(), e.VMIN(), e.Vmax(), e.VMAX()) : Status::Success;
  ctx.step("setCurrent %g -> V=%.7g: %s", I1, V1, getStatusMessage(st));
  ctx.check(st == w, "P01/current-verdict", fmt("setCurrent(%g) to V=%.9g: '%s', documented '%s'", I1, V1, getStatusMessage(st), getStatusMessage(w)));
  ctx.near(e.I(), w >= Status::VMIN_violation ? I0 : I1, "P01/current-kept", "current after the command", 0, 0);
  ctx.state({ V1, I0, I1 });
}

static void packVerdict(Ctx &ctx)
{
  // expression over cells; limits of the cells differ in the unequal variants
  const std::vector<std::string> topo{ "s(@,@,@)", "p(@,@,@)", "s(p(@,@),@)", "p(s(@,@),@)", "s(s(@),p(@,@))", "s(@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@,@)", "p(s(@,@,@),s(@,@,@),s(@,@,@),s(@,@,@))", "s(p(s(@,@),s(@,@)),p(s(@,@),s(@,@)))" };
  const int big = 3; // the last ones: two cells out of their limits
  int which = ctx.choose(static_cast<int>(ctx.thorough ? topo.size() : topo.size() - 1), "topology");
  if (!ctx.thorough && which >= 4) which++;
  const auto &t = topo[static_cast<size_t>(which)];
  const int nt = static_cast<int>(std::count(t.begin(), t.end(), '@'));
  const bool isBig = which >= static_cast<int>(topo.size()) - big;
  auto place = [&](const char *what) { return nt <= 12 ? ctx.choose(nt, what) : ctx.pick(std::vector<int>{ 0, 1, 8, 17, nt - 3, nt - 2, nt - 1 }, what); };
  const int out1 = isBig ? place("first") : -1, out2 = isBig ? place("second") : -1;
  const int lim = ctx.choose(2, "unequal limits");
  std::vector<LimCell *> cells;
  int id = 0;
  size_t pos = 0;
  std::function<Deep_ptr<StorageUnit>()> parse = [&]() -> Deep_ptr<StorageUnit> {
    char k = t[pos++];
    if (k == '@') {
      auto c = new LimCell("c" + std::to_string(id), 16, 0.5);
      if (const int q = id % 5; lim) c->a += 0.1 * q, c->b += 0.05 * q, c->c -= 0.07 * q, c->d -= 0.03 * q;
      id++;
      cells.push_back(c);
      return Deep_ptr<StorageUnit>(c);
    }
    pos++;
    std::vector<Deep_ptr<StorageUnit>> kids;
    while (t[pos] != ')') {
      if (t[pos] == ',') pos++;
      kids.push_back(parse());
    }
    pos++;
    Module *m = k == 's' ? static_cast<Module *>(new Module_s("m" + std::to_string(id++), settings::T_ENV, false, false, 3, 1, pos == t.size() ? 1 : 0))
                         : new Module_p("m" + std::to_string(id++), settings::T_ENV, false, false, 3, 1, pos == t.size() ? 1 : 0);
    m->setSUs(kids, false, false);
    return Deep_ptr<StorageUnit>(m);
  };
  auto U = parse();

  // limits of every node
  for (auto n : nodes(U.get())) {
    if (asCell(n)) continue;
    auto k = children(n);
    double e[4];
    const bool ser = asSeries(n) != nullptr;
    for (int q = 0; q < 4; q++) {
      e[q] = ser ? 0 : (q < 2 ? -1e300 : 1e300);
      for (auto c : k) {
        const double x = q == 0 ? c->Vmin() : q == 1 ? c->VMIN() : q == 2 ? c->Vmax() : c->VMAX();
        e[q] = ser ? e[q] + x : q < 2 ? std::max(e[q], x) : std::min(e[q], x);
      }
    }
    ctx.near(n->Vmin(), e[0], "P01/pack-Vmin", n->getID() + ".Vmin");
    ctx.near(n->VMIN(), e[1], "P01/pack-VMIN", n->getID() + ".VMIN");
    ctx.near(n->Vmax(), e[2], "P01/pack-Vmax", n->getID() + ".Vmax");
    ctx.near(n->VMAX(), e[3], "P01/pack-VMAX", n->getID() + ".VMAX");
  }

  Status worst = Status::Success;
  int at = 0;
  for (auto c : cells) {
    if (const int now = at++; isBig && now != out1 && now != out2) {
      setLevel(*c, 0.5 * (c->a + c->c), 2);
      continue;
    }
    const double I = ctx.pick({ 5.0, -5.0, 0.0 }, "current");
    const double L[7] = { 0.5 * (c->a + c->c), -1, c->b - 0.1, c->a - 0.1, c->c + 0.05, c->d + 0.1, c->c + 0.009 };
    const double V = L[ctx.choose(ctx.thorough ? 7 : 6, "level")];
    setLevel(*c, V, I);
    worst = std::max(worst, want(V, I, c->a, c->b, c->c, c->d));
  }
  double v = -77;
  const auto st = U->checkVoltage(v, false);
  ctx.step("pack check -> %s", getStatusMessage(st));
  ctx.check(st == worst, "P01/pack-verdict", t + ": pack verdict '" + getStatusMessage(st) + "', worst cell '" + getStatusMessage(worst) + "'");
  ctx.near(v, U->V(), "P01/pack-returned-voltage", "voltage returned by the pack check");
  ctx.cover(std::string("pack ") + getStatusMessage(worst));
  ctx.state(statesOf(U.get()));
}

int main(int argc, char **argv)
{
  return main_(argc, argv, { { "cell", cellVerdict }, { "command", commandVerdict }, { "pack", packVerdict } });
}
