// P04 - copies are equal, independent and self-contained.
#include "common.hpp"
#include <glob.h>
using namespace H;

static std::vector<std::string> packs(bool deep)
{
  std::vector<std::string> p{ "B50", "E52", "F48", "M51", "D50", "s(E50,M52)~1", "s(D50,B48)", "p(M50,M53)~1", "p(B50,E50,F50)",
                              "s(p(B50,B50),p(E50,F51))~1", "p(s(M50,E52),s(B52,M50))", "s(s(s(B50),B51),s(M50))", "s(35*B50)~1", "s(2*p(3*s(2*E50)))", "b2x3:s(E50,M50)", "b1x2:p(B50,s(F50))~1" };
  if (deep)
    for (auto x : { "s(p(D50,D52)~1,s(M50,F50),B50)", "p(p(E50,E50)!,p(B50,B50)!)!", "b3x1:s(p(G50,M51)~1,E50)" }) p.push_back(x);
  return p;
}

static bool op(SU *u, int k)
{
  const double cap = u->Cap();
  try {
    switch (k) {
    case 0: u->setCurrent(0.7 * cap, false, false); break;
    case 1: u->setCurrent(-0.5 * cap, false, false); break;
    case 2: u->timeStep_CC(5, 6); break;
    case 3: {
      int i = 0;
      for (auto n : nodes(u)) n->setT(settings::T_ENV + 2.236067977 + 0.577215665 * i++);
      break;
    }
    case 4: leaves(u).back()->setSOC(0.47, false, false); break;
    case 5:
      for (auto n : nodes(u))
        if (auto m = asModule(n)) {
          std::vector<double> R(m->getNSUs(), 2e-3);
          m->setRcontact(R);
        }
      break;
    case 6:
      for (auto c : leaves(u))
        if (auto m = dynamic_cast<Cell_SPM *>(c)) {
          m->setC(0.6, 0.6);
          m->setTenv(300);
          m->setCharacterisationParam(9e-14, 8e-14, 4e-11, 2e-11, 3e-3);
        } else
          c->setCapacity(c->Cap() * 0.9);
      break;
    case 7: // cooling
      for (auto n : nodes(u))
        if (auto m = asModule(n)) m->getCoolSystem()->control(320, 320), m->getCoolSystem()->setControl(3), m->getCoolSystem()->setT(305.123456789);
      if (auto b = dynamic_cast<Battery *>(u)) b->getCoolSystem()->setT(304.314159265), b->setSeriesandParallel(4, 5);
      for (auto n : nodes(u)) n->setID(n->getID() + "x");
      break;
    case 8: // structure: drop a member of the first module
      for (auto n : nodes(u))
        if (auto m = asModule(n)) {
          Module::SUs_t one;
          one.push_back(make_SU<Cell_Bucket>("new", 7.0, 0.6));
          m->setSUs(one, false, false);
          break;
        }
      break;
    }
  } catch (int) {
    return false;
  }
  return true;
}

// everything observable including identities, cooling and limits
static void full(SU *u, Obs &o, std::vector<std::string> &ids)
{
  observe(u, o);
  for (auto n : nodes(u)) {
    ids.push_back(n->getID());
    o.add("ncells", static_cast<double>(n->getNcells()));
    o.add("Vmin", n->Vmin());
    o.add("VMAX", n->VMAX());
    o.add("Thot", n->getThotSpot());
    o.add("Atherm", n->getThermalSurface());
    o.add("Vhigh", n->getVhigh());
    o.add("Vlow", n->getVlow());
    if (auto m = asModule(n)) {
      o.add("cool T", m->getCoolSystem()->T());
      o.add("cool H", m->getCoolSystem()->getH());
      o.add("cool control", m->getCoolSystem()->getControl());
      o.add("cool E", m->getCoolSystem()->getEoperation());
      o.add("cool flow", m->getCoolSystem()->getFlr());
      o.add("NSUs", static_cast<double>(m->getNSUs()));
    }
    if (auto b = dynamic_cast<Battery *>(n)) {
      o.add("losses", b->getConvLosses_total());
      o.add("batt cool", b->getCoolSystem()->T());
    }
    if (auto c = dynamic_cast<Cell_SPM *>(n)) {
      o.add("Tenv", c->getTenv());
      o.add("heat", c->thermal_getTotalHeat());
      for (auto v : c->getVariations()) o.add("var", v);
    }
  }
}
static std::string cmp(SU *a, SU *b, double rel = 0)
{
  Obs x, y;
  std::vector<std::string> i, j;
  full(a, x, i);
  full(b, y, j);
  if (i != j) return "identification strings differ";
  return diff(x, y, rel, rel * 1e-2);
}
static std::string cmpS(const Obs &x, const std::vector<std::string> &i, SU *b)
{
  Obs y;
  std::vector<std::string> j;
  full(b, y, j);
  if (i != j) return "identification strings differ";
  return diff(x, y, 0, 0);
}

static void links(Ctx &ctx, SU *u, const std::string &e, const std::set<SU *> &foreign)
{
  for (auto n : nodes(u)) {
    ctx.check(!foreign.count(n), "P04/shared-member", e + ": " + n->getID() + " inside the copy is the original object");
    for (auto k : children(n)) {
      ctx.check(k->getParent() == n, "P04/parent-link", e + ": the parent of " + k->getID() + " inside the copy is not the copied " + n->getID());
      ctx.check(k->getFullID() == n->getFullID() + "_" + k->getID(), "P04/full-id", e + ": full ID of " + k->getID() + " is " + k->getFullID());
    }
  }
}

static void copies(Ctx &ctx)
{
  const auto ps = packs(ctx.thorough);
  const auto &e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "unit"))];
  const bool blocked = ctx.flag("ageing blocked");
  ctx.note("unit %s", e.c_str());
  auto mk = [&]() {
    auto u = build(e);
    blockAll(u.get(), blocked);
    return u;
  };
  auto U = mk(), W = mk();
  const int depth = ctx.choose((ctx.thorough ? 4 : 3) - wide(e), "history");
  for (int i = 0; i < depth; i++) {
    const int k = ctx.choose(6, "op");
    if (!op(U.get(), k)) return;
    op(W.get(), k);
    ctx.step("op %d", k);
  }
  for (auto n : nodes(U.get())) safeV(n);
  std::set<SU *> orig;
  for (auto n : nodes(U.get())) orig.insert(n);

  const int which = ctx.choose(2, "copied node"); // the whole unit, or a member of it
  SU *src = U.get();
  if (which == 1) {
    auto all = nodes(U.get());
    if (all.size() == 1) return;
    src = all[all.size() > 2 ? all.size() / 2 : 1];
  }
  Obs before;
  std::vector<std::string> idb;
  full(U.get(), before, idb);
  const auto parentBefore = src->getParent();
  std::unique_ptr<SU> C(src->copy());
  ctx.step("copy");
  auto d = cmpS(before, idb, U.get());
  ctx.check(d.empty(), "P04/copying-changes-original", e + ": copying changed the original: " + d);
  for (auto n : nodes(U.get()))
    for (auto k : children(n)) ctx.check(k->getParent() == n, "P04/copying-changes-original", e + ": copying changed a parent link of the original");
  ctx.check(src->getParent() == parentBefore, "P04/copying-changes-original", e + ": copying changed the parent of the original");
  d = cmp(src, C.get());
  ctx.check(d.empty(), "P04/copy-differs", e + ": original vs copy: " + d);
  links(ctx, C.get(), e, orig);
  for (auto n : nodes(src))
    if (auto m = asModule(n))
      for (auto o : nodes(C.get()))
        if (auto mo = asModule(o)) ctx.check(m->getCoolSystem() != mo->getCoolSystem(), "P04/shared-cooling", e + ": original and copy share a cooling system");
  ctx.cover(which ? "member copied" : e[0] == 'b' ? "battery copied" : "unit copied");
  ctx.state(statesOf(C.get()));

  // what happens to one does not happen to the other
  const int victim = ctx.choose(which ? 1 : 3, "changed"); // 0: the copy changes, 1: the original changes, 2: the original is destroyed
  if (victim == 0) {
    const int k = ctx.choose(9, "op");
    Obs o;
    std::vector<std::string> i;
    full(U.get(), o, i);
    op(C.get(), k);
    ctx.step("op %d on the copy", k);
    if (k < 7) op(C.get(), 2);
    d = cmpS(o, i, U.get());
    ctx.check(d.empty(), "P04/not-independent", e + fmt(": operation %d on the copy changed the original: ", k) + d);
  } else if (victim == 1) {
    const int k = ctx.choose(9, "op");
    Obs o;
    std::vector<std::string> i;
    full(C.get(), o, i);
    op(U.get(), k);
    if (k < 7) op(U.get(), 2);
    ctx.step("op %d on the original", k);
    d = cmpS(o, i, C.get());
    ctx.check(d.empty(), "P04/not-independent", e + fmt(": operation %d on the original changed the copy: ", k) + d);
    links(ctx, C.get(), e, orig);
  } else {
    U.reset();
    ctx.step("original destroyed");
    ctx.cover("original destroyed");
  }
  if (which) return; // the rest needs a twin
  // the untouched one behaves like a twin that was never copied
  SU *t = victim == 0 ? U.get() : C.get();
  for (int i = 0; i < 2; i++) {
    const int k = i == 0 ? ctx.choose(3, "continue") : 2;
    const bool a = op(t, k), b = op(W.get(), k);
    ctx.step("continue %d", k);
    ctx.check(a == b, "P04/behaves-differently", e + ": an operation succeeds on one only");
    if (!a) return;
    for (auto n : nodes(t)) safeV(n);
    for (auto n : nodes(W.get())) safeV(n);
    d = cmp(W.get(), t, 1e-10);
    ctx.check(d.empty(), "P04/behaves-differently", e + (victim == 0 ? ": original" : ": copy") + " vs twin: " + d);
  }
}

// recorded data belong to one of them only
static void recorded(Ctx &ctx)
{
  const std::vector<std::string> ps{ "E50", "M50", "s(E50,E51)", "p(s(B50,B50),E50)" };
  const auto &e = ctx.pick(ps, "unit");
  auto U = build(e);
  blockAll(U.get(), true);
  const int before = ctx.choose(3, "points before"), after = ctx.choose(3, "points of the original after"), afterC = ctx.choose(3, "points of the copy after");
  for (int i = 0; i < before; i++) U->storeData();
  std::unique_ptr<SU> C(U->copy());
  for (int i = 0; i < after; i++) U->storeData();
  for (int i = 0; i < afterC; i++) C->storeData();
  const int first = ctx.choose(2, "who writes first");
  std::unique_ptr<SU> G;
  if (first) C->writeData("c"), U->writeData("u");
  else
    U->writeData("u"), C->writeData("c");
  ctx.step("recorded");
  auto count = [&](const std::string &prefix) {
    glob_t g;
    size_t n = 0, files = 0;
    if (glob((workerDir + "/results/" + prefix + "_*cellData.csv").c_str(), 0, nullptr, &g) == 0) {
      for (size_t i = 0; i < g.gl_pathc; i++) {
        std::ifstream f(g.gl_pathv[i]);
        std::string l;
        size_t m = 0;
        while (std::getline(f, l))
          if (!l.empty() && (isdigit(static_cast<unsigned char>(l[0])) || l[0] == '-') && l.find(',') != std::string::npos && std::count(l.begin(), l.end(), ',') < 10) m++;
        n += m;
        files++;
        unlink(g.gl_pathv[i]);
      }
      globfree(&g);
    }
    return std::make_pair(n, files);
  };
  const auto u = count("u"), c = count("c");
  const size_t nc = leaves(U.get()).size();
  ctx.note("rows: original %zu in %zu files, copy %zu in %zu", u.first, u.second, c.first, c.second);
  // the rows of a file beyond those of a unit with no point at all
  static std::map<std::string, std::pair<size_t, size_t>> base;
  if (!base.count(e)) {
    auto Z = build(e);
    Z->writeData("z");
    base[e] = count("z");
  }
  const size_t b = base[e].first;
  ctx.check(u.first - b == nc * static_cast<size_t>(before + after), "P04/recorded-points", e + fmt(": original wrote %zu points, expected %zu", u.first - b, nc * static_cast<size_t>(before + after)));
  ctx.check(c.first - b == nc * static_cast<size_t>(before + afterC), "P04/recorded-points", e + fmt(": copy wrote %zu points, expected %zu", c.first - b, nc * static_cast<size_t>(before + afterC)));
  ctx.cover("recorded");
  ctx.state({ static_cast<double>(before), static_cast<double>(after), static_cast<double>(afterC) });
}

int main(int argc, char **argv) { return main_(argc, argv, { { "copies", copies }, { "recorded", recorded } }); }
