// P26 - prebuilt battery packs are wired as documented.
// Every factory is called with every combination of its settings; the battery it returns is
// walked and compared with a declarative description of it.
#include "cycenv.hpp"
#include "factories/makeBattery.hpp"
#include <typeinfo>
using namespace H;

struct Level
{
  char kind;        // s, p
  size_t n;         // children
  char id;          // first letter of its name, numbered within its parent (the top one is not)
  int cool;         // 0 regular, 2 open
  int rc;           // which contact resistance: 0 cells series, 1 cells parallel, 2 series, 3 parallel
};
struct Spec
{
  std::string name, suffix;
  std::vector<Level> levels; // from the top
  bool balance, epfl;
  int por, lam;
};
static const std::vector<Spec> specs{
  { "makeBattery", "_pss", { { 'p', 9, 'p', 2, 1 }, { 's', 15, 's', 2, 0 }, { 's', 20, 's', 0, 0 } }, true, false, 1, 0 },
  { "makeBattery2", "_ssp", { { 's', 20, 's', 2, 0 }, { 's', 15, 's', 2, 0 }, { 'p', 9, 'p', 0, 1 } }, true, false, 1, 1 },
  { "makeBattery_EPFL", "_EPFL", { { 'p', 9, 'p', 2, 3 }, { 's', 15, 's', 2, 2 }, { 's', 20, 's', 0, 0 }, { 'p', 7, 'p', 2, 1 } }, false, true, 1, 1 },
  { "makeBattery_EPFL_smaller", "_EPFL", { { 'p', 2, 'p', 2, 3 }, { 's', 3, 's', 2, 2 }, { 's', 3, 's', 0, 0 }, { 'p', 7, 'p', 2, 1 } }, false, true, 0, 1 },
  { "makeBattery_Test", "_EPFL", { { 'p', 3, 'p', 2, 3 }, { 's', 2, 's', 2, 2 }, { 's', 4, 's', 0, 0 }, { 'p', 3, 'p', 2, 1 } }, false, true, 1, 1 },
  { "makeBattery_TestParallel", "_ParTest", { { 'p', 3, 'p', 2, 1 } }, false, true, 1, 1 },
};

struct Set
{
  bool balance{ false }, cap{ false }, R{ false }, deg{ false }, contact{ false };
  int cool{ 1 };
  std::string add;
  double RM{ 1 };
};
static Deep_ptr<StorageUnit> make_(size_t k, const Set &s)
{
  switch (k) {
  case 0: return makeBattery(s.balance, s.cap, s.R, s.deg, s.contact, s.cool);
  case 1: return makeBattery2(s.balance, s.cap, s.R, s.deg, s.contact, s.cool);
  case 2: return makeBattery_EPFL(s.cap, s.R, s.deg, s.contact, s.cool, s.add, s.RM);
  case 3: return makeBattery_EPFL_smaller(s.cap, s.R, s.deg, s.contact, s.cool, s.add, s.RM);
  case 4: return makeBattery_Test(s.cap, s.R, s.deg, s.contact, s.cool, s.add, s.RM);
  default: return makeBattery_TestParallel(s.cap, s.R, s.deg, s.contact, s.cool, s.add, s.RM);
  }
}

struct El // what a part of the pack has to be, worked out from the cells up
{
  double cap, R, Vmin, VMIN, Vmax, VMAX, V;
  size_t cells;
};

static void walk(Ctx &ctx, const Spec &sp, const Set &s, SU *u, SU *parent, size_t lev, const std::string &id, std::vector<Cell_SPM *> &cells, std::set<std::string> &ids, El &e)
{
  const std::string &w = sp.name;
  ctx.check(u->getParent() == parent, "P26/parent", w + ": " + id + " does not belong to the unit it is in");
  if (u->getFullID() != id) ctx.fail("P26/id", w + ": full name " + u->getFullID() + " instead of " + id);
  ctx.check(ids.insert(u->getFullID()).second, "P26/id", w + ": the name " + id + " is used twice");
  if (lev == sp.levels.size()) {
    auto c = dynamic_cast<Cell_SPM *>(u);
    if (!c || typeid(*u) != typeid(Cell_SPM)) ctx.fail("P26/cell", w + ": " + id + " is not a single particle cell");
    cells.push_back(c);
    e = { c->Cap(), c->getRtot(), c->Vmin(), c->VMIN(), c->Vmax(), c->VMAX(), c->V(), 1 };
    return;
  }
  const auto &l = sp.levels[lev];
  auto m = asModule(u);
  if (!m || (l.kind == 's' ? typeid(*u) != typeid(Module_s) : typeid(*u) != typeid(Module_p))) ctx.fail("P26/nesting", w + ": " + id + fmt(" is not a module of type %c", l.kind));
  ctx.check(m->getNSUs() == l.n, "P26/nesting", w + ": " + id + fmt(" has %zu children instead of %zu", m->getNSUs(), l.n));
  auto cool = m->getCoolSystem();
  if (!cool) ctx.fail("P26/cooling", w + ": " + id + " has no cooling system");
  ctx.check(l.cool == 2 ? typeid(*cool) == typeid(CoolSystem_open) : typeid(*cool) == typeid(CoolSystem), "P26/cooling", w + ": " + id + " has another kind of cooling system");
  ctx.check(cool->getControl() == s.cool, "P26/cooling", w + ": " + id + fmt(" is cooled with strategy %d", cool->getControl()));
  ctx.check(m->T() == settings::T_ENV, "P26/cooling", w + ": " + id + fmt(" starts at %g K", m->T()));
  std::vector<El> k(l.n);
  for (size_t i = 0; i < l.n; i++) {
    const bool leaf = lev + 1 == sp.levels.size();
    const std::string cid = id + "_" + (leaf ? std::string("cell") : std::string(1, sp.levels[lev + 1].id)) + std::to_string(i);
    walk(ctx, sp, s, m->getSUs()[i].get(), m, lev + 1, cid, cells, ids, k[i]);
  }
  double rc = 0;
  if (s.contact) {
    if (sp.epfl) rc = (l.rc <= 1 ? 0.0075e-3 : 0.25e-3) * s.RM;
    else
      rc = l.rc == 0 ? 1e-4 : 0.2e-3;
  }
  e = k[0];
  if (l.kind == 's') {
    e.R += rc;
    for (size_t i = 1; i < l.n; i++) {
      e.cap = std::min(e.cap, k[i].cap);
      e.R += k[i].R + rc;
      e.Vmin += k[i].Vmin, e.VMIN += k[i].VMIN, e.Vmax += k[i].Vmax, e.VMAX += k[i].VMAX, e.V += k[i].V, e.cells += k[i].cells;
    }
  } else {
    e.R = k[l.n - 1].R + rc;
    for (size_t i = l.n - 1; i-- > 0;) e.R = rc + 1 / (1 / e.R + 1 / k[i].R);
    for (size_t i = 1; i < l.n; i++) {
      e.cap += k[i].cap;
      e.Vmin = std::max(e.Vmin, k[i].Vmin), e.VMIN = std::max(e.VMIN, k[i].VMIN), e.Vmax = std::min(e.Vmax, k[i].Vmax), e.VMAX = std::min(e.VMAX, k[i].VMAX);
      e.cells += k[i].cells;
    }
  }
  ctx.check(m->getNcells() == e.cells, "P26/cells", w + ": " + id + fmt(" counts %zu cells, it has %zu", m->getNcells(), e.cells));
  ctx.near(m->Cap(), e.cap, "P26/capacity", w + ": capacity of " + id);
  ctx.near(m->getRtot(), e.R, "P26/resistance", w + ": resistance of " + id);
  ctx.near(m->V(), e.V, "P26/voltage", w + ": voltage of " + id);
  ctx.near(m->Vmin(), e.Vmin, "P26/limits", w + ": Vmin of " + id);
  ctx.near(m->VMIN(), e.VMIN, "P26/limits", w + ": VMIN of " + id);
  ctx.near(m->Vmax(), e.Vmax, "P26/limits", w + ": Vmax of " + id);
  ctx.near(m->VMAX(), e.VMAX, "P26/limits", w + ": VMAX of " + id);
  ctx.near(m->getThermalSurface(), 0.042 * static_cast<double>(e.cells), "P26/cooling", w + ": cooled surface of " + id);
}

static void stats(Ctx &ctx, const Spec &sp, const std::vector<std::array<double, 4>> &v, size_t q, bool spread, double sd, const char *what)
{
  const auto n = static_cast<double>(v.size());
  double m = 0, s = 0, far = 0;
  std::set<double> distinct;
  for (auto &x : v) {
    m += x[q] / n;
    distinct.insert(x[q]);
    far = std::max(far, std::abs(x[q] - 1));
  }
  for (auto &x : v) s += (x[q] - m) * (x[q] - m) / n;
  s = std::sqrt(s);
  if (!spread) {
    ctx.check(distinct.size() == 1 && *distinct.begin() == 1, "P26/no-spread", sp.name + fmt(": the %s of the cells varies although no spread was asked for", what));
    return;
  }
  ctx.check(static_cast<double>(distinct.size()) > 0.99 * n, "P26/spread", sp.name + fmt(": only %zu values of the %s in %g cells", distinct.size(), what, n));
  ctx.check(far < 7 * sd, "P26/spread", sp.name + fmt(": the %s of a cell is %g from the mean, the standard deviation is %g", what, far, sd));
  if (n > 50) {
    const double tol = 5 / std::sqrt(n);
    ctx.check(std::abs(m - 1) < tol * sd, "P26/spread", sp.name + fmt(": the mean of the %s is %g", what, m));
    ctx.check(s > sd * (1 - tol) && s < sd * (1 + tol), "P26/spread", sp.name + fmt(": the standard deviation of the %s is %g instead of %g", what, s, sd));
    ctx.cover("spread measured");
  }
}

static Set pick(Ctx &ctx, size_t k)
{
  const auto &sp = specs[k];
  Set s;
  s.cap = ctx.flag("capacity spread");
  s.R = ctx.flag("resistance spread");
  s.deg = ctx.flag("degradation spread");
  s.contact = ctx.flag("contact resistance");
  if (sp.balance) s.balance = ctx.flag("balance");
  const bool big = k == 2;
  s.cool = big && !ctx.thorough ? ctx.pick({ 1, 5 }, "cooling control") : ctx.pick({ 1, 2, 3, 4, 5 }, "cooling control");
  if (sp.epfl) {
    s.RM = big && !ctx.thorough ? 2.5 : ctx.pick({ 1.0, 10.0, 0.25 }, "multiplier");
    if (!big) s.add = ctx.pick({ std::string(), std::string("_more") }, "addition");
  }
  return s;
}
static std::string nameOf(const Spec &sp, const Set &s)
{
  std::string n = "cool" + std::to_string(s.cool);
  if (s.cap) n += "_capSpread";
  if (s.R) n += "_RSpread";
  if (s.deg) n += "_degSpread";
  if (s.contact) n += "_contactR" + (sp.epfl ? std::to_string(s.RM) : std::string());
  if (s.balance) n += "_balance";
  return n + s.add + sp.suffix;
}

static void wiring(Ctx &ctx)
{
  const size_t k = static_cast<size_t>(ctx.choose(6, "battery"));
  const auto &sp = specs[k];
  const Set s = pick(ctx, k);
  const std::string name = nameOf(sp, s);
  ctx.step("%s(%s)", sp.name.c_str(), name.c_str());
  auto bp = make_(k, s);
  auto bat = dynamic_cast<Battery *>(bp.get());
  if (!bat) ctx.fail("P26/nesting", sp.name + ": not a battery");
  ctx.check(bat->getID() == name, "P26/name", sp.name + ": the battery is called " + bat->getID() + ", its settings are " + name);
  ctx.check(bat->getParent() == nullptr, "P26/parent", sp.name + ": the battery has a parent");
  ctx.check(typeid(*bat->getCoolSystem()) == typeid(CoolSystem_HVAC), "P26/cooling", sp.name + ": the battery has no HVAC cooling");
  ctx.check(bat->getCoolSystem()->getControl() == s.cool, "P26/cooling", sp.name + ": strategy of the cooling of the battery");
  std::vector<Cell_SPM *> cells;
  std::set<std::string> ids;
  El e{};
  walk(ctx, sp, s, bat->getCells(), bat, 0, name + "_" + std::string(1, sp.levels[0].id) + (sp.levels.size() == 1 ? "0" : ""), cells, ids, e);
  size_t n = 1;
  for (auto &l : sp.levels) n *= l.n;
  ctx.check(cells.size() == n && bat->getNcells() == n, "P26/cells", sp.name + fmt(": %zu cells, counted %zu, documented are %zu", cells.size(), bat->getNcells(), n));
  ctx.near(bat->Cap(), e.cap, "P26/capacity", sp.name + ": capacity");
  ctx.near(bat->getRtot(), e.R, "P26/resistance", sp.name + ": resistance");
  ctx.near(bat->V(), e.V, "P26/voltage", sp.name + ": voltage");
  ctx.near(bat->Vmin(), e.Vmin, "P26/limits", sp.name + ": Vmin");
  ctx.near(bat->Vmax(), e.Vmax, "P26/limits", sp.name + ": Vmax");
  ctx.near(bat->VMIN(), e.VMIN, "P26/limits", sp.name + ": VMIN");
  ctx.near(bat->VMAX(), e.VMAX, "P26/limits", sp.name + ": VMAX");
  ctx.check(bat->I() == 0, "P26/current", sp.name + ": a new battery carries a current");
  double v;
  ctx.check(bat->checkVoltage(v, false) == Status::Success && bat->validStates(false), "P26/valid", sp.name + ": a new battery is not valid");

  // the cells
  std::vector<std::array<double, 4>> var;
  for (auto c : cells) var.push_back(c->getVariations());
  stats(ctx, sp, var, 0, s.cap, 0.004, "capacity");
  stats(ctx, sp, var, 1, s.R, 0.025, "resistance");
  stats(ctx, sp, var, 2, s.deg, 0.1, "SEI growth rate");
  stats(ctx, sp, var, 3, s.deg, 0.1, "LAM rate");
  if (s.deg)
    for (auto &x : var) ctx.check(x[2] != x[3], "P26/spread", sp.name + ": one spread for both degradation rates of a cell");
  Cell_SPM plain;
  const double R1 = plain.getRdc();
  DEG_ID d;
  d.SEI_id.add_model(4);
  d.SEI_porosity = static_cast<DEG_ID::data_t>(sp.por);
  d.CS_id.add_model(0);
  d.LAM_id.add_model(static_cast<DEG_ID::data_t>(sp.lam));
  for (size_t i = 0; i < cells.size(); i++) {
    auto c = cells[i];
    if (!(std::abs(c->Cap() / (16 * var[i][0]) - 1) <= 1e-9)) ctx.fail("P26/capacity", sp.name + ": capacity of " + c->getID());
    // all of the resistance but the SEI layer's (about 1 %) varies
    if (!(std::abs(c->getRdc() / R1 * var[i][0] - var[i][1]) <= 0.03 * std::abs(var[i][1] - 1) + 1e-9)) ctx.fail("P26/resistance", sp.name + ": resistance of " + c->getID() + fmt(" %g, variation %g", c->getRdc(), var[i][1]));
    if (i % 5 == 0 || i + 1 == cells.size() || cells.size() < 200) { // the same as a cell made by hand, now and after ageing
      Cell_SPM r("ref", d, var[i][0], var[i][1], var[i][2], var[i][3]);
      std::unique_ptr<SU> x(c->copy());
      if (i == 0 || i + 1 == cells.size() || i == cells.size() / 2) {
        for (SU *y : { static_cast<SU *>(&r), x.get() }) {
          y->setCurrent(12, false, false);
          y->timeStep_CC(2, 4);
          y->setCurrent(-16, false, false);
          y->timeStep_CC(2, 5);
        }
        ctx.cover("aged");
      }
      r.V(), x->V();
      ctx.check(statesOf(&r) == statesOf(x.get()), "P26/cell", sp.name + ": " + c->getFullID() + " differs from a cell with its settings");
    }
  }
  ctx.state({ static_cast<double>(k), e.cap, e.R, e.V, static_cast<double>(s.cool) }, std::hash<std::string>{}(name));
  ctx.cover(sp.name);

  // building again gives the same battery; settings that have nothing to do with the cells do not change them
  Set t = s;
  if (ctx.flag("other settings")) {
    t.contact = !t.contact;
    t.cool = 1 + t.cool % 5;
    t.balance = !t.balance;
    t.RM *= 2;
    if (sp.epfl) t.add += "_again";
  }
  auto b2 = make_(k, t);
  auto l2 = leaves(b2.get());
  ctx.check(l2.size() == cells.size(), "P26/again", sp.name + ": built again with another number of cells");
  bool same = true;
  for (size_t i = 0; i < cells.size(); i++) {
    if (asCell(l2[i])->getVariations() != var[i]) ctx.fail("P26/again", sp.name + fmt(": cell %zu varies differently when the battery is built again", i));
    if (i % 50 == 0) {
      l2[i]->V(), cells[i]->V(); // the cached voltage is a state
      same = same && statesOf(l2[i]) == statesOf(cells[i]);
    }
  }
  ctx.check(same, "P26/again", sp.name + ": other states when the battery is built again");
  ctx.check((t.cool == s.cool) == (b2->getID() == name), "P26/name", sp.name + ": the name " + name + " and " + b2->getID());
}

// it works: current and time go through the wiring
static void operation(Ctx &ctx)
{
  const size_t k = static_cast<size_t>(ctx.pick({ 3, 4, 5 }, "battery"));
  const Set s = pick(ctx, k);
  if (!ctx.thorough && (s.add != "" || s.cool % 2 == 0)) ctx.prune();
  if (s.RM > 5) ctx.prune(); // the iteration which shares the current does not converge (reported as such) when resistance times capacity exceeds about 2 V/V
  auto b = make_(k, s);
  const double I = ctx.pick({ 0.2, -0.5 }, "current") * b->Cap();
  const auto st = b->setCurrent(I, true, false);
  ctx.check(isStatusSuccessful(st), "P26/operation", specs[k].name + fmt(": a current of %g A is refused: %s", I, stName(st)));
  ctx.near(b->I(), I, "P26/operation", specs[k].name + ": current", 1e-6, 1e-9);
  const double v0 = b->V();
  for (int i = 0; i < 3; i++) b->timeStep_CC(2, 5);
  ctx.step("%s with %g A: %g -> %g V", nameOf(specs[k], s).c_str(), I, v0, b->V());
  ctx.check(I > 0 ? b->V() < v0 : b->V() > v0, "P26/operation", specs[k].name + ": the voltage moves the wrong way");
  ctx.near(b->I(), I, "P26/operation", specs[k].name + ": current afterwards", 1e-3, 1e-9);
  for (auto c : leaves(b.get())) ctx.near(c->getThroughputs().time(), 30, "P26/operation", specs[k].name + ": time of " + c->getID());
  ctx.cover("operated");
}

int main(int argc, char **argv)
{
  std::vector<mc::Scenario> s;
  s.push_back({ "wiring", wiring });
  s.push_back({ "operation", operation });
  return main_(argc, argv, s);
}
