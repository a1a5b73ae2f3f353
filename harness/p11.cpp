// P11 - pack-level figures are exactly those of the cells inside.
#include "common.hpp"
using namespace H;

struct Fig
{
  size_t n{ 0 };
  double I{ 0 }, cap{ 0 }, ocv{ 0 }, R{ 0 }, vh{ 0 }, vl{ 0 }, th{ 0 }, Vmin{ 0 }, Vmax{ 0 }, VMIN{ 0 }, VMAX{ 0 };
};
using RcMap = std::map<SU *, std::vector<double>>;

static Fig figures(SU *u, RcMap &Rc)
{
  Fig f;
  if (asCell(u)) {
    f.n = 1, f.I = u->I(), f.cap = u->Cap(), f.ocv = safeOCV(u) < -100 ? NAN : safeOCV(u), f.R = u->getRtot();
    f.vh = f.vl = safeV(u);
    f.th = u->T();
    f.Vmin = 2.7, f.Vmax = 4.2, f.VMIN = 2.0, f.VMAX = 4.3;
    return f;
  }
  if (auto b = dynamic_cast<Battery *>(u)) return figures(b->getCells(), Rc);
  std::vector<Fig> k;
  for (auto c : children(u)) k.push_back(figures(c, Rc));
  f.th = u->T();
  if (k.empty()) return f;
  const auto &R = Rc[u];
  const bool ser = asSeries(u) != nullptr;
  f.cap = ser ? 1e300 : 0;
  f.vh = -1e300, f.vl = 1e300;
  if (!ser) f.Vmin = f.VMIN = -1e300, f.Vmax = f.VMAX = 1e300;
  for (size_t i = 0; i < k.size(); i++) {
    f.n += k[i].n;
    f.vh = std::max(f.vh, k[i].vh), f.vl = std::min(f.vl, k[i].vl), f.th = std::max(f.th, k[i].th);
    f.ocv += ser ? k[i].ocv : k[i].ocv / static_cast<double>(k.size());
    if (ser) {
      f.cap = std::min(f.cap, k[i].cap);
      f.R += k[i].R + R[i];
      f.Vmin += k[i].Vmin, f.Vmax += k[i].Vmax, f.VMIN += k[i].VMIN, f.VMAX += k[i].VMAX;
    } else {
      f.cap += k[i].cap;
      f.I += k[i].I;
      f.Vmin = std::max(f.Vmin, k[i].Vmin), f.Vmax = std::min(f.Vmax, k[i].Vmax), f.VMIN = std::max(f.VMIN, k[i].VMIN), f.VMAX = std::min(f.VMAX, k[i].VMAX);
    }
  }
  if (ser) f.I = k[0].I;
  else {
    double r = k.back().R + R.back();
    for (size_t i = k.size() - 1; i-- > 0;) r = R[i] + 1 / (1 / k[i].R + 1 / r);
    f.R = r;
  }
  return f;
}

static void compare(Ctx &ctx, SU *root, RcMap &Rc, const std::string &w, const std::string &path = "")
{
  const Fig f = figures(root, Rc);
  const auto p = path.empty() ? root->getID() : path + "_" + root->getID();
  const auto q = w + ": " + p + ": ";
  ctx.check(root->getFullID() == p, "P11/id", q + "full identification is " + root->getFullID());
  if (!dynamic_cast<Battery *>(root)) {
    ctx.check(root->getNcells() == f.n, "P11/cells", q + fmt("%zu cells, reports %zu", f.n, root->getNcells()));
    ctx.near(root->I(), f.I, "P11/current", q + "current", 1e-12, 1e-9);
    ctx.near(root->Cap(), f.cap, "P11/capacity", q + "capacity", 1e-13, 0);
    if (std::isfinite(f.ocv)) ctx.near(safeOCV(root), f.ocv, "P11/ocv", q + "open-circuit voltage", 1e-13, 0);
    ctx.near(root->getRtot(), f.R, "P11/resistance", q + "resistance", 1e-12, 0);
    ctx.near(root->getVhigh(), f.vh, "P11/vhigh", q + "highest cell voltage", 1e-14, 0);
    ctx.near(root->getVlow(), f.vl, "P11/vlow", q + "lowest cell voltage", 1e-14, 0);
    ctx.near(root->getThotSpot(), f.th, "P11/hot", q + "hottest temperature", 1e-14, 0);
    ctx.near(root->Vmin(), f.Vmin, "P11/limits", q + "Vmin", 1e-13, 0);
    ctx.near(root->Vmax(), f.Vmax, "P11/limits", q + "Vmax", 1e-13, 0);
    ctx.near(root->VMIN(), f.VMIN, "P11/limits", q + "VMIN", 1e-13, 0);
    ctx.near(root->VMAX(), f.VMAX, "P11/limits", q + "VMAX", 1e-13, 0);
  }
  for (auto k : children(root)) {
    ctx.check(k->getParent() == root, "P11/parent", q + "member " + k->getID() + " belongs to another unit");
    compare(ctx, k, Rc, w, p);
  }
}

// every shape with up to three levels; every position of the extreme cells; every short history
static std::string row(int n)
{
  std::string s = "@";
  for (int i = 1; i < n; i++) s += ",@";
  return s;
}
static std::vector<std::string> shapes(bool deep)
{
  std::vector<std::string> v{ "s(@,@)", "p(@,@)", "s(@,@,@)", "p(@,@,@)", "s(p(@,@),@)", "p(s(@,@),@)", "s(s(@,@),@)", "p(p(@,@),@)", "p(@,s(@,@))", "s(@,p(@,@),@)", "p(@)", "s(@)", "s(p(s(@,@),@),@)", "b2x3:s(p(@,@),@)", "b1x1:p(@,@)", "s(@,@,@,@,@,@,@,@,@)", "p(@,@,@,@,@,@,@,@)", "s(p(s(@,@),s(@,@)),p(s(@,@),s(@,@)),@)", "p(" + row(27) + ")", "p(" + row(100) + ")", "s(" + row(100) + ")", "s(p(" + row(34) + "),s(" + row(40) + "))" };
  if (deep)
    for (auto x : { "s(p(@,@),p(@,@))", "p(s(@,@),s(@,@))", "p(s(p(@,@),@),@)", "s(s(p(@),@),s(@,@))", "p(@,@,@,@,@)" }) v.push_back(x);
  return v;
}
static void positions(Ctx &ctx)
{
  const auto ss = shapes(ctx.thorough);
  std::string e = ss[static_cast<size_t>(ctx.choose(static_cast<int>(ss.size()), "shape"))];
  const int n = static_cast<int>(std::count(e.begin(), e.end(), '@'));
  const char kind = "BEMF"[ctx.choose(3, "cells")];
  const bool big = n > 6; // fewer combinations
  auto place = [&](const char *what) { return n <= 12 ? ctx.choose(n, what) : ctx.pick(std::vector<int>{ 0, 1, n / 2, n - 2, n - 1 }, what); };
  const int hi = place("highest"), lo = big ? (hi + n - 3) % n : ctx.choose(n, "lowest"), hot = place("hottest"), small = big ? (hot + 2) % n : ctx.choose(n, "smallest");
  std::string x;
  int i = 0;
  for (char ch : e)
    if (ch == '@') {
      x += fmt("%c%d", kind == 'M' && i == small ? 'B' : kind, i == hi ? 80 : i == lo ? 25 : 50);
      if (kind != 'M' || i == small) x += i == small ? "x7" : fmt("x%d", 10 + i);
      i++;
    } else
      x += ch;
  auto u = build(x);
  ctx.note("pack %s", x.c_str());
  RcMap Rc;
  for (auto m : nodes(u.get()))
    if (auto k = asModule(m)) Rc[m] = std::vector<double>(k->getNSUs(), 0.0);
  compare(ctx, u.get(), Rc, "built");
  const auto ls = leaves(u.get());
  ls[static_cast<size_t>(hot)]->setT(320.123456789);
  if (ctx.flag("contacts"))
    for (auto m : nodes(u.get()))
      if (auto k = asModule(m)) {
        auto &R = Rc[m];
        for (size_t j = 0; j < R.size(); j++) R[j] = 1e-3 * (1 + static_cast<double>((j * 7) % 4));
        k->setRcontact(R);
      }
  compare(ctx, u.get(), Rc, "hot cell");
  blockAll(u.get(), true);
  const int h = ctx.choose(5, "history");
  try {
    if (h == 1) u->setCurrent(8, true, false);
    if (h == 2) u->setCurrent(-6, true, false), u->timeStep_CC(10, 30);
    if (h == 3) u->setT(330.314159265);
    if (h == 4) {
      for (auto m : nodes(u.get()))
        if (asModule(m)) m->setT(300.141592654 + static_cast<double>(m->getID().size()));
      ls[static_cast<size_t>(lo)]->setSOC(0.2, false, false);
      ls[static_cast<size_t>(hi)]->setCurrent(3, false, false);
    }
  } catch (int) {
    ctx.cover("command refused");
  }
  ctx.step("history %d I %g", h, u->I());
  ctx.state({ u->I(), static_cast<double>(hi), static_cast<double>(lo), static_cast<double>(hot), static_cast<double>(small), static_cast<double>(n) });
  compare(ctx, u.get(), Rc, fmt("history %d", h));
  ctx.cover(u->getNcells() == 1 ? "single" : "pack");
}

// membership: the same unit offered to several modules, at every position of the offer
struct Pool
{
  std::vector<Deep_ptr<SU>> mods; // two series and one parallel module
  std::vector<Deep_ptr<SU>> cells;
};
static void membership(Ctx &ctx)
{
  std::vector<Deep_ptr<SU>> a, b, free1;
  auto cell = [](const char *id, double soc) { return Deep_ptr<SU>(new Cell_Bucket(id, 16, soc)); };
  const int na = 1 + ctx.choose(3, "members");
  for (int i = 0; i < na; i++) a.push_back(cell(fmt("a%d", i).c_str(), 0.4 + 0.05 * i));
  const bool ser1 = ctx.flag("first is series"), ser2 = ctx.flag("second is series");
  auto mk = [](bool s, const char *id) -> Deep_ptr<SU> {
    if (s) return Deep_ptr<SU>(new Module_s(id, settings::T_ENV, false, false, 4, 1, 1));
    return Deep_ptr<SU>(new Module_p(id, settings::T_ENV, false, false, 4, 1, 1));
  };
  auto m1 = mk(ser1, "m1"), m2 = mk(ser2, "m2");
  ctx.check(m1->getNcells() == 0 && m1->I() == 0, "P11/empty", fmt("an empty module reports %zu cells", m1->getNcells()));
  asModule(m1.get())->setSUs(a, ctx.flag("checked"), false);
  RcMap Rc;
  Rc[m1.get()] = std::vector<double>(static_cast<size_t>(na), 0.0);
  compare(ctx, m1.get(), Rc, "joined");
  // give m2 members of its own or none
  const int own = ctx.choose(3, "own members of the second");
  for (int i = 0; i < own; i++) b.push_back(cell(fmt("b%d", i).c_str(), 0.7));
  if (own) asModule(m2.get())->setSUs(b, true, false);
  Rc[m2.get()] = std::vector<double>(static_cast<size_t>(own), 0.0);
  if (own) {
    std::vector<double> R(static_cast<size_t>(own), 2e-3);
    asModule(m2.get())->setRcontact(R);
    Rc[m2.get()] = R;
  }
  // offer: new cells plus, at every position, one that already belongs to m1
  const int nn = ctx.choose(3, "new cells");
  const int pos = ctx.choose(nn + 1, "position");
  const int which = ctx.choose(na, "which");
  std::vector<Deep_ptr<SU>> offer;
  for (int i = 0; i < nn; i++) offer.push_back(cell(fmt("n%d", i).c_str(), 0.55));
  auto &taken = asModule(m1.get())->getSUs()[static_cast<size_t>(which)];
  SU *raw = taken.get();
  offer.insert(offer.begin() + pos, Deep_ptr<SU>());
  offer[static_cast<size_t>(pos)].swap(taken);
  std::vector<SU *> ptr;
  for (auto &o : offer) ptr.push_back(o.get());
  const auto w0 = statesOf(raw);
  bool refused = false;
  try {
    asModule(m2.get())->setSUs(offer, ctx.flag("check"), false);
  } catch (int) {
    refused = true;
  }
  ctx.step("offer of %zu with a taken cell at %d: %s", offer.size(), pos, refused ? "refused" : "accepted");
  ctx.check(refused, "P11/stolen", "a unit that belongs to another module was accepted");
  if (!refused) return;
  ctx.cover("refused member");
  for (size_t i = 0; i < offer.size(); i++) {
    ctx.check(offer[i].get() == ptr[i], "P11/lost", fmt("the refused offer lost its element %zu", i));
    if (static_cast<int>(i) != pos && offer[i].get()) ctx.check(offer[i]->getParent() == nullptr, "P11/half", fmt("refused, but element %zu now belongs to the module", i));
  }
  ctx.check(statesOf(raw) == w0 && raw->getParent() == m1.get(), "P11/changed", "the refused unit has changed");
  offer[static_cast<size_t>(pos)].swap(taken);
  compare(ctx, m1.get(), Rc, "after the refusal, first module");
  compare(ctx, m2.get(), Rc, "after the refusal, second module");
  // without the taken cell the same offer is accepted
  std::vector<Deep_ptr<SU>> rest;
  for (auto &o : offer)
    if (o.get()) {
      rest.emplace_back();
      rest.back().swap(o);
    }
  if (rest.empty()) return;
  asModule(m2.get())->setSUs(rest, true, false);
  Rc[m2.get()] = std::vector<double>(rest.size(), 0.0);
  compare(ctx, m2.get(), Rc, "replaced");
  ctx.check(asModule(m2.get())->getNSUs() == rest.size(), "P11/count", "number of members after replacing");
  // nested: the second joins a third, then gets other members
  std::vector<Deep_ptr<SU>> top;
  top.emplace_back();
  Module *inner = asModule(m2.get());
  top.back().swap(m2);
  top.push_back(cell("t", 0.5));
  auto m3 = mk(ctx.flag("third is series"), "m3");
  asModule(m3.get())->setSUs(top, true, false);
  Rc[m3.get()] = { 0.0, 0.0 };
  compare(ctx, m3.get(), Rc, "nested");
  std::vector<Deep_ptr<SU>> other;
  const int no = 1 + ctx.choose(3, "new members of the nested one");
  for (int i = 0; i < no; i++) other.push_back(cell(fmt("o%d", i).c_str(), 0.3));
  inner->setSUs(other, true, false);
  Rc[inner] = std::vector<double>(static_cast<size_t>(no), 0.0);
  ctx.step("nested module gets %d new members", no);
  compare(ctx, m3.get(), Rc, "nested module replaced its members");
  ctx.cover("replaced");
}

int main(int argc, char **argv) { return main_(argc, argv, { { "positions", positions }, { "membership", membership } }); }
