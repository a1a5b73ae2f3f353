// P18 - recorded data are complete, ordered and faithful.
// Every sequence of operations (stepping, recording, writing under several prefixes, cycler
// phases) runs on the real units in a results folder of its own; a reference notes what each
// cell was when a point was recorded, and the files are read back and compared with it.
#include "cycenv.hpp"
#include <dirent.h>
#include <iomanip>
using namespace H;

using Row = std::array<double, 7>;
constexpr auto LEVEL = settings::DATASTORE_CELL;
constexpr bool TIME = LEVEL == settings::cellDataStorageLevel::storeTimeData;
constexpr bool HIST = LEVEL == settings::cellDataStorageLevel::storeHistogramData;
constexpr bool CUM = LEVEL >= settings::cellDataStorageLevel::storeCumulativeData;
constexpr bool MOD = settings::DATASTORE_MODULE >= settings::moduleDataStorageLevel::storeTimeData;

// written with (at least) six significant digits
static bool same(double a, double b) { return a == b || (std::isfinite(a - b) && std::abs(a - b) <= 5.001e-6 * std::max(std::abs(a), std::abs(b)) + 1e-300); }

struct File
{
  std::vector<Row> rows;
  std::vector<std::vector<double>> heads; // states at every write
};
struct Log // what was recorded and where it has to be
{
  std::map<SU *, std::vector<Row>> pending, all;
  std::map<SU *, std::vector<std::array<double, 3>>> mpend;
  std::map<std::string, File> files;
  std::map<std::string, std::vector<std::array<double, 3>>> mfiles;
};

static std::string pathOf(const std::vector<SU *> &chain)
{
  std::string s;
  for (auto u : chain) s += (s.empty() ? "" : "_") + u->getID();
  return s;
}
static void eachWithPath(SU *u, std::vector<SU *> chain, const std::function<void(SU *, const std::string &)> &f)
{
  chain.push_back(u);
  f(u, pathOf(chain));
  for (auto k : children(u)) eachWithPath(k, chain, f);
}

static void noteStore(Log &l, SU *u)
{
  for (auto c : leaves(u)) {
    const auto t = c->getThroughputs();
    const Row r{ c->I(), c->V(), c->SOC(), c->T(), t.time(), t.Ah(), t.Wh() };
    l.pending[c].push_back(r);
    l.all[c].push_back(r);
  }
  for (auto n : nodes(u))
    if (asModule(n)) l.mpend[n].push_back({ n->I(), n->V(), n->T() });
}
static void noteWrite(Log &l, SU *u, const std::string &prefix)
{
  eachWithPath(u, {}, [&](SU *n, const std::string &id) {
    if (auto c = asCell(n)) {
      auto &f = l.files[prefix + "_" + id + "_cellData.csv"];
      f.rows.insert(f.rows.end(), l.pending[n].begin(), l.pending[n].end());
      l.pending[n].clear();
      auto vs = c->viewStates();
      f.heads.emplace_back(vs.begin(), vs.end());
    } else if (asModule(n) && MOD) {
      auto &f = l.mfiles[prefix + "_" + id + "_ModuleData.csv"];
      f.insert(f.end(), l.mpend[n].begin(), l.mpend[n].end());
      l.mpend[n].clear();
    }
  });
}

static std::vector<std::string> listDir(const std::string &d)
{
  std::vector<std::string> v;
  if (auto h = opendir(d.c_str())) {
    while (auto e = readdir(h))
      if (e->d_name[0] != '.') v.push_back(e->d_name);
    closedir(h);
  }
  std::sort(v.begin(), v.end());
  return v;
}
static std::string resDir() { return workerDir + "/results"; }
static void clean()
{
  for (auto &d : { resDir(), workerDir + "/a/b" })
    for (auto &f : listDir(d)) unlink((d + "/" + f).c_str());
}
static std::vector<std::string> lines(const std::string &f)
{
  std::vector<std::string> v;
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) v.push_back(l);
  return v;
}
// all the numbers of a line; false when there is anything else in it
static bool numbers(const std::string &l, std::vector<double> &v)
{
  const char *p = l.c_str();
  v.clear();
  while (*p) {
    char *e;
    v.push_back(strtod(p, &e));
    if (e == p) return false;
    p = e;
    if (*p == ',') {
      p++;
      if (!*p) return true; // a comma after the last number
    } else if (*p)
      return false;
  }
  return true;
}

static void compareFiles(Ctx &ctx, Log &l, const std::string &when)
{
  const auto got = listDir(resDir());
  std::vector<std::string> want;
  for (auto &kv : l.files) want.push_back(kv.first);
  for (auto &w : want) ctx.check(std::binary_search(got.begin(), got.end(), w), "P18/file", when + ": no file " + w);
  for (auto &g : got) ctx.check(std::binary_search(want.begin(), want.end(), g), "P18/file", when + ": unexpected file " + g);
  std::vector<double> v;
  for (auto &[name, f] : l.files) {
    size_t row = 0, head = 0;
    for (auto &ln : lines(resDir() + "/" + name)) {
      if (ln.empty()) continue;
      const std::string w = when + ": " + name;
      if (ln.rfind("States:", 0) == 0) {
        ctx.check(CUM, "P18/states", w + ": states although nothing is to be stored");
        ctx.check(numbers(ln.substr(ln.find(',') + 1), v), "P18/merged", w + ": a line that is not a list of states: " + ln);
        ctx.check(head < f.heads.size(), "P18/states", w + ": more states than writes");
        auto &h = f.heads[head++];
        ctx.check(v.size() == h.size(), "P18/states", w + fmt(": %zu states written, the cell has %zu", v.size(), h.size()));
        for (size_t i = 0; i < h.size(); i++)
          ctx.check(same(v[i], h[i]), "P18/states", w + fmt(": state %zu is written as %.17g, it was %.17g", i, v[i], h[i]));
        continue;
      }
      if constexpr (HIST) continue;
      if (!numbers(ln, v) || v.size() != 7) ctx.fail("P18/merged", w + ": a line that is not one row of data: " + ln);
      if (row >= f.rows.size()) ctx.fail("P18/rows", w + fmt(": more rows than the %zu recorded points", f.rows.size()));
      static const char *col[] = { "I", "V", "SOC", "T", "time", "Ah", "Wh" };
      for (size_t i = 0; i < 7; i++)
        if (ctx.checks++; !same(v[i], f.rows[row][i])) ctx.fail("P18/values", w + fmt(": %s in row %zu is %.17g, it was %.17g when recorded", col[i], row, v[i], f.rows[row][i]));
      row++;
    }
    if (TIME) ctx.check(row == f.rows.size(), "P18/rows", when + ": " + name + fmt(": %zu rows, %zu points were recorded", row, f.rows.size()));
    if (CUM) ctx.check(head == f.heads.size(), "P18/states", when + ": " + name + fmt(": %zu lists of states, written %zu times", head, f.heads.size()));
    if (row > 1) ctx.cover("rows compared");
    if (head > 1 && row > 1) ctx.cover("appended");
  }
  for (auto &[name, rows] : l.mfiles) {
    size_t row = 0;
    for (auto &ln : lines(name)) {
      if (ln.empty()) continue;
      const std::string w = when + ": " + name;
      ctx.check(numbers(ln, v) && v.size() == 6, "P18/merged", w + ": a line that is not one row of module data: " + ln);
      ctx.check(row < rows.size(), "P18/rows", w + ": more rows than recorded points");
      for (size_t i = 0; i < 3; i++) ctx.check(same(v[i + 3], rows[row][i]), "P18/values", w + fmt(": column %zu of row %zu of the module is %.17g, it was %.17g", i + 3, row, v[i + 3], rows[row][i]));
      row++;
    }
    ctx.check(row == rows.size(), "P18/rows", when + ": " + name + fmt(": %zu rows, %zu points were recorded", row, rows.size()));
    ctx.cover("module data");
  }
}

// the last histograms in the file hold every recorded point once, in the right bin
static void compareHist(Ctx &ctx, Log &l, SU *u, const std::string &prefix, const std::string &when)
{
  std::vector<double> e, b;
  eachWithPath(u, {}, [&](SU *n, const std::string &id) {
    if (!asCell(n)) return;
    std::vector<std::pair<std::vector<double>, std::vector<double>>> hs;
    const auto name = prefix + "_" + id + "_cellData.csv";
    auto ls = lines(resDir() + "/" + name);
    for (size_t i = 0; i + 3 < ls.size(); i++)
      if (ls[i] == "Edges:") {
        ctx.check(numbers(ls[i + 1], e) && ls[i + 2] == "Bins:" && numbers(ls[i + 3], b), "P18/histogram", when + ": " + name + " holds no histogram: " + ls[i + 1]);
        hs.push_back({ e, b });
      }
    const auto &all = l.all[n];
    if (hs.empty() && all.empty()) return;
    ctx.check(hs.size() >= 3, "P18/histogram", when + ": " + name + " does not hold three histograms");
    hs.erase(hs.begin(), hs.end() - 3);
    const size_t col[] = { 0, 1, 3 };
    for (size_t h = 0; h < 3; h++) {
      auto &ed = hs[h].first;
      auto &bi = hs[h].second;
      double n_ = 0;
      for (double x : bi) n_ += x;
      ctx.check(n_ == static_cast<double>(all.size()), "P18/histogram", when + ": " + name + fmt(": histogram %zu counts %g points, %zu were recorded", h, n_, all.size()));
      if (all.empty()) continue;
      const double x0 = ed[0], dx = (ed.back() - ed[0]) / static_cast<double>(ed.size() - 1);
      ctx.check(bi.size() == ed.size() + 1, "P18/histogram", when + fmt(": %zu bins, %zu edges", bi.size(), ed.size()));
      std::vector<double> lo(bi.size()), hi(bi.size()); // bounds of what each bin can hold, points on an edge may be on either side
      for (auto &r : all) {
        const double pos = (r[col[h]] - x0) / dx, eps = 1e-4;
        auto bin = [&](double p) { return p < 0 ? size_t{ 0 } : std::min(bi.size() - 1, static_cast<size_t>(p) + 1); };
        const auto a = bin(pos - eps), c = bin(pos + eps);
        if (a == c) lo[a]++;
        for (auto k = a; k <= c; k++) hi[k]++;
      }
      for (size_t i = 0; i < bi.size(); i++)
        ctx.check(bi[i] >= lo[i] && bi[i] <= hi[i], "P18/histogram", when + ": " + name + fmt(": bin %zu of histogram %zu holds %g points, recorded were %g to %g", i, h, bi[i], lo[i], hi[i]));
      ctx.cover("histogram");
    }
  });
}

static void finish(Ctx &ctx, Log &l, SU *u, const std::string &w)
{
  compareFiles(ctx, l, w);
  // flush what is left, everything is there now
  u->writeData("fin");
  noteWrite(l, u, "fin");
  compareFiles(ctx, l, w + ", flush");
  if (HIST) compareHist(ctx, l, u, "fin", w);
  uint64_t h = 7;
  for (auto &kv : l.files) {
    h = mc::fnv(kv.first.data(), kv.first.size(), h);
    if (!kv.second.rows.empty()) h = mc::fnv(kv.second.rows.data(), kv.second.rows.size() * sizeof(Row), h);
  }
  ctx.stateBits(h);
  clean();
}

static const std::vector<std::string> &packs(const Ctx &ctx)
{
  static const std::vector<std::string> q{ "B97.3", "E3.1", "F60", "M50", "s(B50,E50)", "p(B50,E50)", "s(p(E91.7,B93),B2.9)", "p(s(B50,B50),s(E50,F50))", "b2x3:s(B50,E50)", "s(3*p(3*s(4*B50)))" };
  static const std::vector<std::string> t{ "B50", "B97.3", "E3.1", "E40", "F60", "M50", "D50", "s(B50,E50)", "p(B50,E50)", "s(M50,M50)", "p(M50,M50)", "s(p(E50,B50),B50)", "p(s(B50,B50),s(E50,F50))", "b2x3:s(B50,E50)", "b1x1:p(B50,B50)" };
  return ctx.thorough ? t : q;
}

// ------------------------------------------------------------- any history ----
static void histories(Ctx &ctx)
{
  clean();
  const auto e = ctx.pick(packs(ctx), "pack");
  auto u = build(e);
  Log l;
  const int depth = TIME && !MOD ? (ctx.thorough ? 7 : 5) : (ctx.thorough ? 5 : 4);
  std::string w = e;
  for (int i = 0; i < depth; i++) {
    const int op = ctx.choose(5, "operation");
    switch (op) {
    case 0: {
      const double I = (i % 2 ? -0.21 : 0.83) * u->Cap();
      u->setCurrent(I, false, false);
      u->timeStep_CC(1.5 + i, 2);
      w += " step";
      break;
    }
    case 1:
      noteStore(l, u.get());
      u->storeData();
      w += " store";
      break;
    case 2:
    case 3: {
      const std::string p = op == 2 ? "one" : "two";
      u->writeData(p);
      noteWrite(l, u.get(), p);
      w += " write(" + p + ")";
      break;
    }
    default: // a copy records and writes under its own prefix, that is none of the original's business
      SUp c(u->copy());
      c->setCurrent(0.1 * c->Cap(), false, false);
      c->timeStep_CC(2, 1);
      c->storeData();
      c->writeData("copy");
      for (auto &f : listDir(resDir()))
        if (f.rfind("copy_", 0) == 0) unlink((resDir() + "/" + f).c_str());
      w += " copy";
    }
    ctx.step("%s", w.c_str());
    if (op >= 2) compareFiles(ctx, l, w);
  }
  finish(ctx, l, u.get(), w);
}

// ---------------------------------------------------- units under one folder ----
// two units recorded and written alternately under the same and other prefixes
static void units(Ctx &ctx)
{
  clean();
  const auto e1 = ctx.pick({ std::string("B50"), std::string("s(B50,B50)"), std::string("p(E50,B50)") }, "first");
  const auto e2 = ctx.pick({ std::string("B30"), std::string("s(B50,B50)"), std::string("E50"), std::string("s(s(B50,B50),B50)") }, "second");
  const int names = ctx.choose(3, "names");
  auto a = build(e1), b = build(e2);
  a->setID(names == 0 ? "left" : (names == 1 ? "u1" : "1"));
  b->setID(names == 0 ? "right" : (names == 1 ? "u11" : "2"));
  Log l;
  std::string w = e1 + " and " + e2;
  for (int i = 0; i < (TIME && !MOD ? (ctx.thorough ? 7 : 5) : 4); i++) {
    const int op = ctx.choose(4, "operation");
    SU *u = op % 2 ? b.get() : a.get();
    if (op < 2) {
      u->setCurrent((i - 2) * 0.1 * u->Cap(), false, false);
      u->timeStep_CC(1, 1);
      noteStore(l, u);
      u->storeData();
      w += op ? " store2" : " store1";
    } else {
      const std::string p = i % 2 ? "x" : "xx";
      u->writeData(p);
      noteWrite(l, u, p);
      w += (op % 2 ? " write2(" : " write1(") + p + ")";
    }
    ctx.step("%s", w.c_str());
  }
  compareFiles(ctx, l, w);
  b->writeData("fin2");
  noteWrite(l, b.get(), "fin2");
  finish(ctx, l, a.get(), w);
}

// ------------------------------------------------------------------ cycler ----
// the cycler records phases at any interval; checked from the file alone and against the unit
struct RecSU : public SpySU
{
  Log *l;
  RecSU(SU *u, Log *ll) : SpySU(u), l(ll) {}
  void storeData() override
  {
    SpySU::storeData();
    noteStore(*l, u);
    u->storeData();
  }
  void writeData(const std::string &p) override
  {
    SpySU::writeData(p);
    u->writeData(p);
    noteWrite(*l, u, p);
  }
};

static void cycler(Ctx &ctx)
{
  clean();
  static const std::vector<std::string> q{ "B50", "E50", "M50", "s(B50,E50)", "p(B50,E50)" }, t{ "B50", "E50", "F50", "M50", "s(B50,E50)", "p(B50,E50)", "s(p(B50,B50),B50)", "b2x2:s(B50,B50)" };
  const auto e = ctx.pick(ctx.thorough ? t : q, "pack");
  auto up = build(e);
  Log l;
  RecSU u(up.get(), &l);
  Cycler cyc(&u, "cyc");
  ThroughputData th{};
  std::string w = e;
  const int n = 2;
  for (int i = 0; i < n; i++) {
    const int phase = ctx.choose(5, "phase"), ndt = i == 0 || ctx.thorough ? ctx.pick({ 0, 1, 2, 3, 7, 10, 25 }, "interval") : ctx.pick({ 0, 3, 10 }, "interval");
    const double dt = ctx.thorough ? ctx.pick({ 2.0, 0.7 }, "dt") : 2.0, T = i == 0 ? ctx.pick({ 61.0, 20.0 }, "time") : 25;
    const size_t from = u.log.size(), rows0 = l.all[leaves(up.get())[0]].size();
    const double t0 = u.clock;
    Status s = Status::Success;
    const double c = up->Cap(), V = up->V();
    switch (phase) {
    case 0: s = cyc.rest(T, dt, ndt, th); break;
    case 1: s = cyc.CC(c, up->VMIN(), T, dt, ndt, th); break;
    case 2: s = cyc.CC(-0.5 * c, V + 0.0005 * static_cast<double>(up->getNcells()), TIME_INF, dt, ndt, th); break; // a voltage limit
    case 3: s = cyc.CV(V, 1e-9, T, dt, ndt, th); break;
    default: s = cyc.CCCV_with_tlim(c, std::min(up->Vmax(), V * 1.002), 0.02 * c, T, dt, ndt, th); break;
    }
    w += fmt(" %s(T=%g, dt=%g, ndt=%d)", phase == 0 ? "rest" : phase == 1 ? "CC" : phase == 2 ? "CC to voltage" : phase == 3 ? "CV" : "CCCV", T, dt, ndt);
    ctx.step("%s -> %s", w.c_str(), stName(s));
    std::vector<double> ts;
    for (size_t k = from; k < u.log.size(); k++)
      if (u.log[k].k == Ev::Store) ts.push_back(u.log[k].t - t0);
    const double T1 = u.clock - t0;
    if (ndt == 0)
      ctx.check(ts.empty(), "P18/interval", w + ": points were recorded although none were asked for");
    else {
      ctx.check(!ts.empty() && ts[0] == 0, "P18/interval", w + ": the start was not recorded");
      ctx.check(std::abs(ts.back() - T1) < 1e-9, "P18/interval", w + fmt(": the end (%g s, %s) was not recorded, the last point is at %g s", T1, stName(s), ts.back()));
      if (phase < 4)
        for (size_t k = 1; k < ts.size(); k++) {
          ctx.check(ts[k] - ts[k - 1] <= ndt * dt * (1 + 1e-9), "P18/interval", w + fmt(": nothing was recorded for %g s", ts[k] - ts[k - 1]));
          if (k + 2 < ts.size()) ctx.near(ts[k] - ts[k - 1], ndt * dt, "P18/interval", w + fmt(": interval %zu between the recorded points", k), 1e-9, 1e-9);
        }
      if (ts.size() > 3) ctx.cover("several intervals");
    }
    ctx.check(l.all[leaves(up.get())[0]].size() - rows0 == ts.size(), "P18/rows", w + ": recorded points and rows");
    if (ctx.flag("write")) {
      cyc.writeData();
      w += " write";
      compareFiles(ctx, l, w);
    }
  }
  finish(ctx, l, up.get(), w);
}

// ------------------------------------------------------- the cycler's buffer ----
static void bufferLimit(Ctx &ctx)
{
  clean();
  const auto e = ctx.pick({ std::string("B50"), std::string("s(B50,E50)") }, "pack");
  const size_t max = HIST ? 1000 : settings::CELL_NDATA_MAX;
  const size_t n = max + static_cast<size_t>(ctx.pick({ 0, 1, 4711 }, "beyond"));
  const size_t early = ctx.pick({ size_t{ 0 }, size_t{ 1 }, max - 1 }, "written after");
  const int reinit = early && ctx.flag("again initialised");
  if (!ctx.thorough && e != "B50" && early > 1) ctx.prune();
  auto up = build(e);
  Log l;
  RecSU u(up.get(), &l);
  Cycler cyc(&u, "buf");
  up->setCurrent(0.001 * up->Cap(), false, false);
  for (size_t i = 0; i < n; i++) {
    cyc.storeData();
    up->timeStep_CC(0.25, 1);
    if (i + 1 == early) {
      cyc.writeData();
      if (reinit) cyc.initialise(&u, "buf2");
    }
  }
  cyc.writeData();
  ctx.step("%s: %zu points, written after %zu", e.c_str(), n, early);
  for (auto c : leaves(up.get())) ctx.check(l.all[c].size() == n, "P18/rows", fmt("%zu points were recorded instead of %zu", l.all[c].size(), n));
  if (n > max) ctx.cover("buffer full");
  finish(ctx, l, up.get(), fmt("%s: %zu points", e.c_str(), n));
}

int main(int argc, char **argv)
{
  std::vector<mc::Scenario> s;
  s.push_back({ "histories", histories });
  s.push_back({ "units", units });
  if (TIME && !MOD) s.push_back({ "cycler", cycler });
  if (TIME && !MOD) s.push_back({ "bufferLimit", bufferLimit });
  return main_(argc, argv, s);
}
