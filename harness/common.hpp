// common.hpp - builders and observers shared by the harnesses.  Only the public API of
// the library is used, so that refactorings of its internals keep compiling.
#pragma once

#include "mc.hpp"

#include "cells/cells.hpp"
#include "modules/modules.hpp"
#include "procedures/Cycler.hpp"
#include "system/Battery.hpp"
#include "cooling/cooling.hpp"
#include "settings/settings.hpp"

#include <memory>
#include <cstdint>

namespace H {
using namespace slide;
using mc::Ctx;
using mc::fmt;
using SU = StorageUnit;
using SUp = std::unique_ptr<StorageUnit>;

// ------------------------------------------------------------------ cells ----
// Degradation configuration in text form "SEI ids;porosity;CS ids;CSdiff;LAM ids;pl", digits.
struct Deg
{
  std::string sei, cs, lam;
  int por{ 0 }, csd{ 0 }, pl{ 0 };
  std::string str() const { return "sei" + sei + (por ? "+por" : "") + "/cs" + cs + (csd ? "+dif" : "") + "/lam" + lam + "/pl" + std::to_string(pl); }
  DEG_ID id() const
  {
    DEG_ID d;
    for (char c : sei) d.SEI_id.add_model(static_cast<DEG_ID::data_t>(c - '0'));
    for (char c : cs) d.CS_id.add_model(static_cast<DEG_ID::data_t>(c - '0'));
    for (char c : lam) d.LAM_id.add_model(static_cast<DEG_ID::data_t>(c - '0'));
    d.SEI_porosity = static_cast<DEG_ID::data_t>(por);
    d.CS_diffusion = static_cast<DEG_ID::data_t>(csd);
    d.pl_id = static_cast<DEG_ID::data_t>(pl);
    return d;
  }
};

// lithium fractions at a given SOC-like level of the Kokam cell (0 empty .. 1 full)
inline void spmFractions(double soc, double &fp, double &fn)
{
  const double fp0 = 0.983959, fp1 = 0.394705, fn0 = 0.0229, fn1 = 0.9356; // about 0 % and 100 %
  fp = fp0 + (fp1 - fp0) * soc;
  fn = fn0 + (fn1 - fn0) * soc;
}

inline const Cell_SPM &spmProto()
{
  static Cell_SPM c; // reads the curves from file once per process
  return c;
}

inline Cell_SPM *newSPM(double soc = 0.5, const std::string &id = "spm")
{
  auto c = new Cell_SPM(spmProto()); // plain C++ copy construction of a pristine default cell
  c->setID(id);
  if (soc != 0.5) {
    double fp, fn;
    spmFractions(soc, fp, fn);
    c->setC(fp, fn);
    c->setSOC(soc, false, false);
  }
  return c;
}
inline Cell_SPM *newSPMdeg(const Deg &d, double capf = 1, double resf = 1, double fsei = 1, double flam = 1, const std::string &id = "spmd", double soc = 0.5)
{
  static std::map<std::string, Cell_SPM *> cache;
  auto key = d.str() + fmt("|%.17g|%.17g|%.17g|%.17g", capf, resf, fsei, flam);
  auto &p = cache[key];
  if (!p) p = new Cell_SPM(id, d.id(), capf, resf, fsei, flam);
  auto c = new Cell_SPM(*p);
  c->setID(id);
  if (soc != 0.5) {
    double fp, fn;
    spmFractions(soc, fp, fn);
    c->setC(fp, fn);
    c->setSOC(soc, false, false);
  }
  return c;
}

// ------------------------------------------------------------------ packs ----
// A pack is described by a small expression:
//   B<soc>[x<cap>]  bucket cell (SOC in percent)      E<soc>[x<cap>]  one RC pair
//   F<soc>[x<cap>]  two RC pairs                       M<soc>          single particle cell, fresh
//   D<soc>          single particle cell with every degradation mechanism on
//   s(...) series, p(...) parallel; suffixes: ~<mOhm> contact resistance of every child,
//   <n>*<unit> n of them with a little more charge each,
//   ! multi-threaded, ^ coolers: h HVAC, o open, r regular (default: HVAC on top,
//   open for modules that contain modules, regular otherwise)
struct Builder
{
  const std::string &s;
  size_t p{ 0 };
  int nextId{ 0 };
  bool blockThermal{ false };
  int coolControl{ 1 };
  double num()
  {
    size_t q = p;
    while (q < s.size() && (isdigit(static_cast<unsigned char>(s[q])) || s[q] == '.')) q++;
    double v = std::stod(s.substr(p, q - p));
    p = q;
    return v;
  }
  double shift{ 0 }; // charge added to repeated units, so that they differ
  Deep_ptr<StorageUnit> parse(int depth)
  {
    char k = s[p++];
    if (k == 's' || k == 'p') {
      std::vector<Deep_ptr<StorageUnit>> kids;
      bool sub = false;
      p++; // (
      while (s[p] != ')') {
        if (s[p] == ',') p++;
        int rep = 1; // 7*B50: seven of them, with a little more charge each
        if (isdigit(static_cast<unsigned char>(s[p]))) rep = static_cast<int>(num()), p++;
        if (s[p] == 's' || s[p] == 'p') sub = true;
        const auto at = p;
        const auto shift0 = shift;
        for (int r = 0; r < rep; r++) {
          p = at;
          kids.push_back(parse(depth + 1));
          shift += 0.0037;
        }
        shift = rep > 1 ? shift : shift0;
      }
      p++;
      double rc = 0;
      bool par = false;
      char ck = depth == 0 ? 'h' : (sub ? 'o' : 'r');
      while (p < s.size() && (s[p] == '~' || s[p] == '!' || s[p] == '^')) {
        if (s[p] == '~') {
          p++;
          rc = num() * 1e-3;
        } else if (s[p] == '!') {
          par = true;
          p++;
        } else {
          ck = s[p + 1];
          p += 2;
        }
      }
      size_t nc = 0;
      for (auto &c : kids) nc += c->getNcells();
      int ct = ck == 'h' ? 1 : (ck == 'o' ? 2 : 0);
      std::string id = std::string(1, k) + std::to_string(nextId++);
      Module *m;
      if (k == 's')
        m = new Module_s(id, settings::T_ENV, false, par, static_cast<int>(nc), coolControl, ct);
      else
        m = new Module_p(id, settings::T_ENV, false, par, static_cast<int>(nc), coolControl, ct);
      const auto n = kids.size();
      m->setSUs(kids, false, false);
      if (rc > 0) {
        std::vector<double> R(n);
        for (size_t i = 0; i < n; i++) R[i] = rc * (1.0 + 0.25 * static_cast<double>(i));
        m->setRcontact(R);
      }
      return Deep_ptr<StorageUnit>(m);
    }
    double soc = num() / 100 + shift, cap = 16;
    if (p < s.size() && s[p] == 'x') {
      p++;
      cap = num();
    }
    std::string id = std::string(1, static_cast<char>(tolower(k))) + std::to_string(nextId++);
    StorageUnit *u = nullptr;
    if (k == 'B') u = new Cell_Bucket(id, cap, soc);
    else if (k == 'E') u = new Cell_ECM<1>(id, cap, soc);
    else if (k == 'F') u = new Cell_ECM<2>(id, cap, soc);
    else if (k == 'M') u = newSPM(soc, id);
    else if (k == 'D') u = newSPMdeg({ "123", "12345", "1234", 1, 1, 1 }, 1, 1, 1, 1, id, soc);
    else if (k == 'G') u = newSPMdeg({ "123", "345", "234", 1, 1, 1 }, 1, 1, 1, 1, id, soc); // ageing without stress models
    else
      throw std::runtime_error("bad pack expression " + s);
    return Deep_ptr<StorageUnit>(u);
  }
};

inline bool wide(const std::string &e) { return e.find('*') != std::string::npos; }
// take the module out of a Deep_ptr<StorageUnit>
inline Module *asModuleOf(Deep_ptr<StorageUnit> &p)
{
  Deep_ptr<StorageUnit> q;
  q.swap(p);
  auto m = dynamic_cast<Module *>(q.get());
  auto *c = m->copy(); // Deep_ptr has no release()
  for (auto &k : c->getSUs()) k->setParent(c);
  return c;
}
// "b<series>x<parallel>:<module>" makes a battery of that module
inline Deep_ptr<StorageUnit> build(const std::string &expr, int coolControl = 1)
{
  if (expr[0] == 'b') {
    const auto c = expr.find(':');
    unsigned ns = 1, np = 1;
    sscanf(expr.c_str(), "b%ux%u", &ns, &np);
    const std::string rest = expr.substr(c + 1) + "^r";
    Builder b{ rest };
    b.coolControl = coolControl;
    auto m = b.parse(0);
    Deep_ptr<Module> mp(asModuleOf(m));
    auto bat = new Battery("bat");
    bat->setSeriesandParallel(ns, np);
    bat->setModule(std::move(mp));
    return Deep_ptr<StorageUnit>(bat);
  }
  Builder b{ expr };
  b.coolControl = coolControl;
  return b.parse(0);
}

inline Module *asModule(SU *u) { return dynamic_cast<Module *>(u); }
inline Module_s *asSeries(SU *u) { return dynamic_cast<Module_s *>(u); }
inline Module_p *asParallel(SU *u) { return dynamic_cast<Module_p *>(u); }
inline Cell *asCell(SU *u) { return dynamic_cast<Cell *>(u); }

inline std::vector<SU *> children(SU *u)
{
  std::vector<SU *> v;
  if (auto m = asModule(u))
    for (auto &c : m->getSUs()) v.push_back(c.get());
  else if (auto b = dynamic_cast<Battery *>(u)) {
    if (b->getCells()) v.push_back(b->getCells());
  }
  return v;
}
inline void leaves(SU *u, std::vector<Cell *> &out)
{
  if (auto c = asCell(u)) out.push_back(c);
  for (auto k : children(u)) leaves(k, out);
}
inline std::vector<Cell *> leaves(SU *u)
{
  std::vector<Cell *> v;
  leaves(u, v);
  return v;
}
inline void nodes(SU *u, std::vector<SU *> &out)
{
  out.push_back(u);
  for (auto k : children(u)) nodes(k, out);
}
inline std::vector<SU *> nodes(SU *u)
{
  std::vector<SU *> v;
  nodes(u, v);
  return v;
}
inline void blockAll(SU *u, bool b)
{
  for (auto n : nodes(u)) n->setBlockDegAndTherm(b);
}

// Everything that can be stored: the states of the unit.
inline std::vector<double> statesOf(SU *u)
{
  std::vector<double> s;
  u->getStates(s);
  return s;
}
inline double safeV(SU *u)
{
  try {
    return u->V();
  } catch (int e) {
    return -1000.0 - e;
  }
}
inline double safeOCV(SU *u)
{
  try {
    return u->getOCV();
  } catch (int e) {
    return -1000.0 - e;
  }
}

// The cached terminal voltage of an SPM cell is part of its state vector; comparing it is
// only meaningful once it has been refreshed.  obs() is what a user can observe.
struct Obs
{
  std::vector<double> v;
  std::vector<std::string> name;
  void add(const std::string &n, double x)
  {
    v.push_back(x);
    name.push_back(n);
  }
};
inline void observe(SU *u, Obs &o, const std::string &path = "")
{
  const auto p = path + "/" + u->getID();
  o.add(p + ".V", safeV(u));
  o.add(p + ".I", u->I());
  o.add(p + ".OCV", safeOCV(u));
  o.add(p + ".T", u->T());
  o.add(p + ".R", u->getRtot());
  o.add(p + ".Cap", u->Cap());
  if (auto c = asCell(u)) {
    o.add(p + ".SOC", c->SOC());
    auto t = c->getThroughputs();
    o.add(p + ".time", t.time());
    o.add(p + ".Ah", t.Ah());
    o.add(p + ".Wh", t.Wh());
    auto vs = c->viewStates();
    for (size_t i = 0; i < vs.size(); i++) o.add(p + ".st" + std::to_string(i), vs[i]);
  }
  for (auto k : children(u)) observe(k, o, p);
}
inline Obs observe(SU *u)
{
  Obs o;
  observe(u, o);
  return o;
}
// "" when equal within tolerance, else a description of the first difference
inline std::string diff(const Obs &a, const Obs &b, double rel = 0, double abs_ = 0)
{
  if (a.v.size() != b.v.size()) return fmt("different number of observables: %zu vs %zu", a.v.size(), b.v.size());
  for (size_t i = 0; i < a.v.size(); i++) {
    if (std::isnan(a.v[i]) && std::isnan(b.v[i])) continue;
    if (!Ctx::close(a.v[i], b.v[i], rel, abs_))
      return fmt("%s: %.17g vs %.17g", a.name[i].c_str(), a.v[i], b.v[i]);
  }
  return "";
}

// ---------------------------------------------------------------- scratch ----
// The library reads ../../data and writes ../../results relative to the working
// directory.  Every worker gets its own tree, in the scratch folder of the run.
inline std::string scratchRoot;
inline std::string workerDir; // .../wNNN ; cwd is workerDir/a/b, results in workerDir/results
inline void enterScratch()
{
  workerDir = scratchRoot + "/w" + std::to_string(getpid());
  auto mk = [](const std::string &d) { mkdir(d.c_str(), 0755); };
  mk(workerDir);
  mk(workerDir + "/a");
  mk(workerDir + "/a/b");
  mk(workerDir + "/results");
  const char *data = getenv("SLIDE_DATA");
  if (symlink(data, (workerDir + "/data").c_str()) != 0 && errno != EEXIST) _exit(77);
  if (chdir((workerDir + "/a/b").c_str()) != 0) _exit(77);
  std::srand(12345);
}
inline int main_(int argc, char **argv, const std::vector<mc::Scenario> &scs)
{
  for (int i = 1; i + 1 < argc; i++)
    if (std::string(argv[i]) == "--tmp") scratchRoot = argv[i + 1];
  mc::onWorkerStart = enterScratch;
  return mc::run(argc, argv, scs);
}

} // namespace H
