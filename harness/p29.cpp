// P29 - the open circuit voltage fit: only legal curves are accepted, the simulated slow discharge
// exchanges lithium one to one, and the fit which is reported is the best of all candidates examined.
#include "common.hpp"
#include "procedures/determine_OCV.cpp"
using namespace H;
using Curve = slide::XYdata_vv;

static Curve curve(const std::vector<double> &x, const std::vector<double> &y)
{
  Curve c;
  c.x = x;
  c.y = y;
  return c;
}
static int counter = 0;
static std::string dir()
{
  const auto d = workerDir + fmt("/ocv%d_%d", getpid(), counter++);
  std::filesystem::create_directories(d);
  return d;
}
static void writeCurve(const std::string &p, const std::vector<double> &x, const std::vector<double> &y)
{
  std::ofstream o(p);
  o.precision(17);
  for (size_t i = 0; i < x.size(); i++) o << x[i] << ',' << y[i] << '\n';
}
// straight lines between the points
static bool at(const std::vector<double> &x, const std::vector<double> &y, double v, double &r)
{
  if (!(v >= x.front() && v <= x.back())) return false;
  size_t k = 1;
  while (k + 1 < x.size() && v > x[k]) k++;
  r = x.size() == 1 ? y[0] : y[k - 1] + (y[k] - y[k - 1]) * (v - x[k - 1]) / (x[k] - x[k - 1]);
  return true;
}
constexpr double Far = 96487; // the project's Faraday constant

// ------------------------------------------------------------ scenario: legal curves ----
static bool legal(bool range, const std::vector<double> &x, const std::vector<double> &y)
{
  if (x.empty()) return false;
  bool ok = std::abs(x[0]) < 1e-5 && (!range || std::abs(x.back() - 1) < 1e-5);
  for (size_t i = 1; i < x.size(); i++) ok = ok && x[i] > x[i - 1];
  for (double v : y) ok = ok && v >= 0 && v <= 10;
  return ok;
}
static void valid(Ctx &ctx)
{
  const double nan = std::nan(""), inf = std::numeric_limits<double>::infinity();
  const int n = 1 + ctx.choose(ctx.thorough ? 5 : 4, "points");
  const bool range = ctx.flag("electrode");
  const bool badx = ctx.flag("any fractions");
  std::vector<double> x, y;
  for (int i = 0; i < n; i++) {
    x.push_back(badx ? ctx.pick({ 0.0, 1e-6, -1e-6, 1e-3, 0.4, 0.5, 1.0, 1 - 1e-6, 1.01, nan, -0.3 }, "x") : n == 1 ? 0 : double(i) / (n - 1));
    y.push_back(badx ? 3.0 + 0.1 * (i % 2) : ctx.pick({ 0.0, 3.5, 10.0, -1e-3, 10.001, nan, inf, -inf, 4.2 }, "y"));
  }
  Curve c = curve(x, y);
  const bool ok = slide::validOCV(range, c), want = legal(range, x, y);
  ctx.step("validOCV of %d points: %d", n, ok);
  ctx.checks++;
  if (ok != want) {
    std::string s;
    for (int i = 0; i < n; i++) s += fmt(" (%g,%g)", x[size_t(i)], y[size_t(i)]);
    ctx.fail("P29/legal", fmt("validOCV(%d) of", range) + s + (ok ? " accepts it" : " refuses it"));
  }
  ctx.check(c.x.size() == size_t(n) && c.y.size() == size_t(n), "P29/legal", "checking a curve changes it");
  ctx.cover(ok ? "legal" : "illegal");
  ctx.state({ double(n), double(range), double(ok) });
}

// ------------------------------------------------------------ scenario: reading ----
static void reading(Ctx &ctx)
{
  PathVar::data = dir();
  const char *names[3]{ "p.csv", "n.csv", "c.csv" };
  std::vector<double> X[3], Y[3];
  int bad = -1, kind = 0;
  for (int k = 0; k < 3; k++) {
    X[k] = { 0, 0.2, 0.55, 1 };
    Y[k] = { 4.1 - k, 3.9 - k, 3.2 - k, 3 - 0.5 * k };
  }
  X[2] = { 0, 0.7, 1.9, 2.6, 2.7 };
  Y[2] = { 4.2, 3.9, 3.6, 3.1, 2.7 };
  bad = ctx.choose(4, "bad file") - 1;
  if (bad >= 0) {
    kind = ctx.choose(7, "what is wrong");
    auto &x = X[bad], &y = Y[bad];
    if (kind == 0) x[0] = 0.1;
    else if (kind == 1)
      x.back() = 0.99 * x.back();
    else if (kind == 2)
      x[2] = x[1];
    else if (kind == 3)
      std::swap(x[1], x[2]);
    else if (kind == 4)
      y[1] = -0.1;
    else if (kind == 5)
      y.back() = 11;
  }
  for (int k = 0; k < 3; k++)
    if (!(bad == k && kind == 6)) writeCurve((PathVar::data / names[k]).string(), X[k], Y[k]);
  Curve c[3];
  const bool hint = ctx.flag("used before");
  if (hint)
    for (auto &q : c) q = curve({ 9, 8, 7, 6, 5, 4, 3 }, { 1, 2, 3, 4, 5, 6, 7 });
  int err = 0;
  try {
    slide::readOCVinput(names[0], names[1], names[2], c[0], c[1], c[2]);
  } catch (int e) {
    err = e;
  } catch (...) {
    err = -1;
  }
  ctx.step("readOCVinput: file %d is wrong in way %d -> %d", bad, kind, err);
  const bool fine = bad < 0 || (bad == 2 && kind == 1); // the curve of the cell can end anywhere
  ctx.check(fine == (err == 0), "P29/reading", fmt("file %d is wrong in way %d: error %d", bad, kind, err));
  if (!fine && kind < 6) ctx.check(err == 10000, "P29/reading", fmt("file %d is wrong in way %d: error %d instead of 10000", bad, kind, err));
  if (fine)
    for (int k = 0; k < 3; k++) ctx.check(c[k].x == X[k] && c[k].y == Y[k], "P29/reading", fmt("curve %d is not the one in its file", k));
  ctx.cover(fine ? "read" : "not read");
  ctx.state({ double(bad), double(kind) });
}

// ------------------------------------------------------------ scenario: error ----
static void error(Ctx &ctx)
{
  const int n = 1 + ctx.choose(3, "simulated points"), m = 1 + ctx.choose(3, "measured points");
  const bool bound = ctx.flag("bound");
  std::vector<double> xs, ys, xm, ym;
  double x = 0;
  for (int i = 0; i < n; i++) {
    xs.push_back(x);
    ys.push_back(ctx.pick({ 4.0, 3.3, 2.7 }, "v"));
    x += ctx.pick({ 0.5, 1.5 }, "dx");
  }
  x = 0;
  for (int i = 0; i < m; i++) {
    xm.push_back(x);
    ym.push_back(4.1 - 0.4 * i);
    x += ctx.pick({ 0.25, 0.5, 1.3 }, "dx");
  }
  Curve cell = curve(xm, ym), sim = curve(xs, ys);
  const double e = slide::calculateError(bound, cell, sim);
  double s = 0;
  for (size_t i = 0; i < xm.size(); i++) {
    double v = 0;
    if (!at(xs, ys, xm[i], v)) v = bound ? 0 : xm[i] < xs[0] ? ys[0] : ys.back();
    s += (ym[i] - v) * (ym[i] - v);
  }
  ctx.step("calculateError %g", e);
  ctx.near(e, std::sqrt(s / double(m)), "P29/error", fmt("error between %d simulated and %d measured points, bound %d", n, m, bound), 1e-9, 1e-12);
  if (xm.back() > xs.back()) ctx.cover("shorter simulation");
  ctx.state({ e });
}

// ------------------------------------------------------------ the two electrodes ----
struct Electrodes
{
  std::vector<double> xp, yp, xn, yn;
};
static Electrodes electrodes(int k)
{
  if (k == 0) return { { 0, 0.3, 0.5, 0.8, 1 }, { 4.7, 4.25, 3.95, 3.65, 2.9 }, { 0, 0.1, 0.35, 0.7, 1 }, { 1.3, 0.35, 0.18, 0.11, 0.04 } };
  if (k == 1) return { { 0, 1 }, { 4.6, 3.1 }, { 0, 1 }, { 0.9, 0.05 } };
  return { { 0, 0.25, 0.5, 0.75, 1 }, { 4.4, 4.2, 3.9, 3.7, 3.2 }, { 0, 0.02, 0.3, 1 }, { 1.5, 0.4, 0.2, 0.01 } };
}
struct Par
{
  double AMp, AMn, sp, sn, cmaxp, cmaxn;
};
static double fracP(const Par &p, double Ah) { return p.sp + Ah * 3600 / (Far * p.AMp * p.cmaxp); }
static double fracN(const Par &p, double Ah) { return p.sn - Ah * 3600 / (Far * p.AMn * p.cmaxn); }
static bool volt(const Electrodes &e, const Par &p, double Ah, double &v)
{
  double a = 0, b = 0;
  if (!at(e.xp, e.yp, fracP(p, Ah), a) || !at(e.xn, e.yn, fracN(p, Ah), b)) return false;
  v = a - b;
  return true;
}
// charge at which the voltage is reached or an electrode is full or empty
static double endCharge(const Electrodes &e, const Par &p, double Vend)
{
  double lo = 0, hi = std::min((1 - p.sp) * p.AMp * p.cmaxp, p.sn * p.AMn * p.cmaxn) * Far / 3600;
  double v;
  if (!volt(e, p, 0, v) || v <= Vend) return 0;
  for (int i = 0; i < 200; i++) {
    const double m = (lo + hi) / 2;
    (volt(e, p, m, v) && v > Vend ? lo : hi) = m;
  }
  return lo;
}

// ------------------------------------------------------------ scenario: discharge ----
static void dis(Ctx &ctx)
{
  const auto e = electrodes(ctx.choose(3, "electrodes"));
  const double cap = ctx.pick({ 0.5, 2.7, 16.0 }, "capacity");
  Par p;
  p.cmaxp = ctx.pick({ 51385.0, 30000.0 }, "cmaxp");
  p.cmaxn = 30555;
  p.AMp = cap * 3600 / (Far * p.cmaxp) * ctx.pick({ 1.0, 1.7, 2.5 }, "cathode");
  p.AMn = cap * 3600 / (Far * p.cmaxn) * ctx.pick({ 1.0, 1.4, 2.5 }, "anode");
  p.sp = ctx.pick({ 0.05, 0.38, 0.7 }, "sp");
  p.sn = ctx.pick({ 0.95, 0.56, 0.3 }, "sn");
  const double Vend = ctx.pick({ 2.7, 3.4, 0.5 }, "end voltage");
  const auto P = curve(e.xp, e.yp), N = curve(e.xn, e.yn);
  Curve o, a, c;
  double fp[3]{}, fn[3]{};
  const auto w = fmt("discharge of %g Ah (AM %g %g, start %g %g) to %g V", cap, p.AMp, p.AMn, p.sp, p.sn, Vend);
  slide::discharge(P, N, cap, p.AMp, p.AMn, p.cmaxp, p.cmaxn, p.sp, p.sn, Vend, o, a, c, fp, fn);
  ctx.step("%s: %zu points", w.c_str(), o.x.size());
  const size_t n = o.x.size();
  ctx.check(n >= 2 && o.y.size() == n && a.x.size() == n && a.y.size() == n && c.x.size() == n && c.y.size() == n, "P29/discharge", w + ": incomplete curves");
  ctx.check(o.x[0] == 0 && c.x[0] == p.sp && a.x[0] == p.sn && fp[0] == p.sp && fn[0] == p.sn, "P29/discharge", w + ": does not start at the start");
  const double q = 0.1 * cap * 5 / 3600; // one time step; the voltage can be that of the step before
  for (size_t i = 0; i < n; i++) {
    const auto wi = w + fmt(": point %zu of %zu", i, n);
    if (i) ctx.check(o.x[i] > o.x[i - 1], "P29/discharge", wi + ": charge goes back");
    ctx.near(c.x[i], fracP(p, o.x[i]), "P29/lithium", wi + ": lithium in the cathode", 1e-9, 1e-10);
    ctx.near(a.x[i], fracN(p, o.x[i]), "P29/lithium", wi + ": lithium in the anode", 1e-9, 1e-10);
    ctx.near(o.y[i], c.y[i] - a.y[i], "P29/voltage", wi + ": cell voltage against the electrodes", 1e-12, 1e-12);
    auto between = [&](const std::vector<double> &x, const std::vector<double> &y, double f0, double f1, double v) {
      double v0 = 0, v1 = 0;
      f0 = std::clamp(f0, 0.0, 1.0); // the last point can be a step behind the end
      if (!at(x, y, f0, v0)) return false;
      if (!at(x, y, f1, v1)) v1 = v0;
      double lo = std::min(v0, v1), hi = std::max(v0, v1);
      for (size_t k = 0; k < x.size(); k++)
        if ((x[k] - f0) * (x[k] - f1) < 0) lo = std::min(lo, y[k]), hi = std::max(hi, y[k]);
      return v >= lo - 1e-9 && v <= hi + 1e-9;
    };
    const double Ab = i ? o.x[i] - q : 0;
    ctx.check(between(e.xp, e.yp, fracP(p, Ab), fracP(p, o.x[i]), c.y[i]), "P29/voltage", wi + fmt(": cathode at %g has %g V", c.x[i], c.y[i]));
    ctx.check(between(e.xn, e.yn, fracN(p, Ab), fracN(p, o.x[i]), a.y[i]), "P29/voltage", wi + fmt(": anode at %g has %g V", a.x[i], a.y[i]));
    if (i + 1 < n) ctx.check(i == 0 || o.y[i] > Vend, "P29/discharge", wi + ": goes on below the end voltage");
  }
  ctx.near(o.x.back(), endCharge(e, p, Vend), "P29/discharge", w + ": charge at the end", 1e-9, 2.01 * q);
  ctx.check(fp[2] == c.x.back() && fn[2] == a.x.back(), "P29/discharge", w + ": fractions at the end");
  ctx.near(fp[1], (fp[0] + fp[2]) / 2, "P29/discharge", w + ": cathode half way", 1e-12, 1e-12);
  ctx.near(fn[1], (fn[0] + fn[2]) / 2, "P29/discharge", w + ": anode half way", 1e-12, 1e-12);
  ctx.cover(o.y.back() <= Vend ? "end voltage" : "electrode full or empty");
  ctx.state({ o.x.back(), o.y.back() });
}

// ------------------------------------------------------------ the measured curve ----
static void measured(const Electrodes &e, const Par &p, double Vend, int n, std::vector<double> &x, std::vector<double> &y)
{
  const double Q = endCharge(e, p, Vend);
  for (int i = 0; i < n; i++) {
    x.push_back(Q * i / (n - 1));
    double v = 0;
    volt(e, p, x.back() * (1 - 1e-12), v);
    y.push_back(v);
  }
}
// sum of squares over the measured points, [lo, hi] when rounding decides where the simulation ends
static void cost(const Electrodes &e, const Par &p, const std::vector<double> &x, const std::vector<double> &y, size_t i, double s, double &lo, double &hi)
{
  const double Vend = y.back();
  for (; i < x.size(); i++) {
    double v = 0;
    const double fp = fracP(p, x[i]), fn = fracN(p, x[i]);
    const bool in = volt(e, p, x[i], v);
    const bool unsure = std::abs(fp) < 1e-10 || std::abs(fn) < 1e-10 || std::abs(fp - 1) < 1e-10 || std::abs(fn - 1) < 1e-10;
    if (unsure) { // both
      double rest = 0;
      for (size_t k = i; k < x.size(); k++) rest += y[k] * y[k];
      lo = std::min(lo, s), hi = std::max(hi, s + rest);
      hi = std::max(hi, 1e9);
      return;
    }
    s += (y[i] - (in ? v : 0)) * (y[i] - (in ? v : 0));
    bool end = !in || v <= Vend;
    double rest = 0;
    for (size_t k = i + 1; k < x.size(); k++) rest += y[k] * y[k];
    if (in && std::abs(v - Vend) < 1e-9) {
      lo = std::min(lo, s + rest), hi = std::max(hi, s + rest);
      end = false;
    }
    if (end) {
      s += rest;
      break;
    }
  }
  lo = std::min(lo, s);
  hi = std::max(hi, s);
}
static void rmse(const Electrodes &e, const Par &p, const std::vector<double> &x, const std::vector<double> &y, double &lo, double &hi)
{
  lo = 1e300, hi = 0;
  if (!(p.AMp > 0 && p.AMn > 0)) {
    lo = hi = 1e300; // there is no such electrode
    return;
  }
  cost(e, p, x, y, 0, 0, lo, hi);
  lo = std::sqrt(lo / double(x.size())), hi = std::sqrt(hi / double(x.size()));
}
static std::map<std::string, double> table(const std::filesystem::path &f)
{
  std::map<std::string, double> m;
  std::ifstream in(f);
  for (std::string l; std::getline(in, l);)
    if (const auto k = l.find(','); k != std::string::npos && !m.count(l.substr(0, k))) {
      char *end = nullptr;
      const double v = std::strtod(l.c_str() + k + 1, &end);
      if (end != l.c_str() + k + 1) m[l.substr(0, k)] = v;
    }
  return m;
}

// ------------------------------------------------------------ scenario: fit ----
static void fit(Ctx &ctx)
{
  const auto d = dir();
  PathVar::data = d;
  PathVar::results = d;
  const auto e = electrodes(ctx.choose(3, "electrodes"));
  const double cap = 2.7;
  Par t{ 0, 0, 0, 0, 51385, 30555 };
  const double gp = cap * 3600 / (Far * t.cmaxp), gn = cap * 3600 / (Far * t.cmaxn);
  t.AMp = gp * ctx.pick({ 1.6, 1.97 }, "cathode");
  t.AMn = gn * ctx.pick({ 1.5, 1.23 }, "anode");
  t.sp = ctx.pick({ 0.31, 0.4 }, "sp");
  t.sn = ctx.pick({ 0.57, 0.9 }, "sn");
  std::vector<double> x, y;
  measured(e, t, ctx.pick({ 3.0, 2.7 }, "end voltage"), ctx.pick({ 4, 9 }, "points"), x, y);
  if (ctx.flag("measurement error"))
    for (size_t i = 0; i < y.size(); i++) y[i] += 0.01 * double(int(i * 7 % 5) - 2);
  writeCurve(d + "/p.csv", e.xp, e.yp);
  writeCurve(d + "/n.csv", e.xn, e.yn);
  writeCurve(d + "/c.csv", x, y);
  const int nA = ctx.pick({ 3, 4, 2 }, "values"), nS = ctx.pick({ 5, 4 }, "starts"), levels = 1 + ctx.choose(3, "levels");
  const int where = ctx.choose(4, "search space");
  auto AMp = slide::linspace_fix((where == 2 ? 0.1 : where ? 1.6 : 1.2) * gp, (where ? 2.3 : 2.0) * gp, nA);
  auto AMn = slide::linspace_fix((where == 2 ? 0.2 : 1.0) * gn, 2.0 * gn, nA);
  auto SP = where == 3 ? slide::linspace_fix(0.66, 0.97, nS) : slide::linspace_fix(where == 2 ? 0 : 0.21, where ? 0.5 : 0.41, nS), SN = slide::linspace_fix(0.47, where ? 1.0 : 0.67, nS);
  const auto w = fmt("fit of %zu points with %dx%dx%dx%d candidates, %d levels, search space %d", x.size(), nA, nA, nS, nS, levels, where);
  const auto [par, err] = slide::hierarchicalOCVfit(levels, AMp, AMn, SP, SN, "p.csv", "n.csv", "c.csv", t.cmaxp, t.cmaxn);
  ctx.step("%s -> %g %g %g %g error %g", w.c_str(), par[0], par[1], par[2], par[3], err);
  double lo, hi, best = 1e300;
  std::array<double, 4> now{};
  auto same = [](double a, double b) { return std::abs(a - b) <= 2e-5 * std::abs(b) + 1e-12; };
  std::vector<std::array<double, 4>> seen; // the best so far, they can come from an earlier level
  for (int h = 0; h < levels; h++) {
    auto m = table(PathVar::results / fmt("OCVFit_%d_param.csv", h));
    ctx.check(m.size() == 4, "P29/fit-file", w + fmt(": file of level %d", h));
    const std::array<double, 4> f{ m["AMp"], m["AMn"], m["start pos"], m["start neg"] };
    std::array<double, 4> hit{};
    bool found = false;
    double besth = 1e300, hitHi = 0, hitLo = 1e300;
    for (const double a : AMp)
      for (const double b : AMn)
        for (const double p : SP)
          for (const double n : SN) {
            Par c{ a, b, p, n, t.cmaxp, t.cmaxn };
            rmse(e, c, x, y, lo, hi);
            besth = std::min(besth, hi);
            if (same(f[0], a) && same(f[1], b) && same(f[2], p) && same(f[3], n)) found = true, hit = { a, b, p, n }, hitHi = hi, hitLo = lo;
          }
    best = std::min(best, besth);
    if (!found && h > 0 && same(f[0], now[0]) && same(f[1], now[1]) && same(f[2], now[2]) && same(f[3], now[3])) { // an earlier one is the best still
      found = true, hit = now;
      rmse(e, Par{ now[0], now[1], now[2], now[3], t.cmaxp, t.cmaxn }, x, y, hitLo, hitHi);
      ctx.cover("an earlier level is better");
    }
    const auto wh = w + fmt(": level %d", h);
    ctx.check(found, "P29/fit-candidate", wh + fmt(": %g %g %g %g is not a candidate", f[0], f[1], f[2], f[3]));
    ctx.check(hit[0] > 0 && hit[1] > 0 && hit[2] >= 0 && hit[2] <= 1 && hit[3] >= 0 && hit[3] <= 1, "P29/fit-range", wh + fmt(": %g %g %g %g is impossible", f[0], f[1], f[2], f[3]));
    ctx.check(hitLo <= best + 1e-9, "P29/fit-best", wh + fmt(": an error of %.9g is reported as the best, there is a candidate with %.9g", hitLo, best));
    now = hit;
    if (h == levels - 1) {
      ctx.check(err >= hitLo - 1e-9 && err <= hitHi + 1e-9, "P29/fit-error", wh + fmt(": error %.9g, it is %.9g", err, hitLo));
      for (size_t k = 0; k < 4; k++) ctx.near(par[k], now[k], "P29/fit-candidate", wh + fmt(": parameter %zu", k), 1e-9, 1e-15);
    }
    // the region around the best
    auto zoom = [&](slide::FixedData<double> &s, double v, bool frac) {
      double a = v - s.dstep(), b = v + s.dstep();
      if (frac) a = std::max(a, 0.0), b = std::min(b, 1.0);
      s = slide::linspace_fix(a, b, static_cast<int>(s.size()));
    };
    zoom(AMp, now[0], false), zoom(AMn, now[1], false), zoom(SP, now[2], true), zoom(SN, now[3], true);
    if (AMp.front() <= 0 || AMn.front() <= 0) ctx.cover("no material left");
  }
  if (best < 1e-6) ctx.cover("recovered");
  if (best > 1.5) ctx.cover("nothing fits");
  ctx.cover(levels > 1 ? "several levels" : "one level");
  ctx.state({ par[0], par[1], par[2], par[3], err });
  std::filesystem::remove_all(d);
}

// ------------------------------------------------------------ scenario: estimate ----
static void estimate(Ctx &ctx)
{
  const auto d = dir();
  PathVar::data = d;
  PathVar::results = d;
  const auto e = electrodes(ctx.choose(ctx.thorough ? 3 : 1, "electrodes"));
  Par t{ 0, 0, 0, 0, 51385, 30555 };
  std::vector<double> x, y;
  // the capacity decides about the search space: the parameters are candidates of the first level
  const int kp = ctx.pick({ 60, 77 }, "cathode"), kn = ctx.thorough ? ctx.pick({ 60, 90 }, "anode") : 60;
  t.sp = 0.38 + 0.02 * 20 / 50, t.sn = 0.55 + 0.03 * 35 / 50;
  const double cap = 2.5;
  t.AMp = cap * 3600 / (Far * t.cmaxp) * (1 + 1.5 * kp / 99);
  t.AMn = cap * 3600 / (Far * t.cmaxn) * (1 + 1.5 * kn / 99);
  // with 2.5 Ah between the voltages of the cell at 0 and at 2.5 Ah
  double v0, v1, v2;
  if (!volt(e, t, 0, v0) || !volt(e, t, cap / 2, v1) || !volt(e, t, cap, v2)) ctx.prune();
  x = { 0, cap / 2, cap }, y = { v0, v1, v2 };
  writeCurve(d + "/OCVfit_cathode.csv", e.xp, e.yp);
  writeCurve(d + "/OCVfit_anode.csv", e.xn, e.yn);
  writeCurve(d + "/OCVfit_cell.csv", x, y);
  slide::estimateOCVparameters();
  auto m = table(PathVar::results / "OCVfit_parameters.csv");
  const auto w = fmt("estimate of a cell with %g %g %g %g", t.AMp, t.AMn, t.sp, t.sn);
  Par p{ m["AMp"], m["AMn"], m["start pos"], m["start neg"], t.cmaxp, t.cmaxn };
  ctx.step("%s -> %g %g %g %g", w.c_str(), p.AMp, p.AMn, p.sp, p.sn);
  const double err = m["The error on the OCV curve with this fit is"];
  double lo, hi;
  rmse(e, t, x, y, lo, hi);
  ctx.check(err <= hi + 1e-6, "P29/fit-best", w + fmt(": the error is %g, the cell itself is a candidate with %g", err, hi));
  const double A = m["electrode surface ele_surf"];
  ctx.near(m["cathode thickness thickp"] * m["cathode volume fraction ep"] * A, p.AMp, "P29/estimate", w + ": cathode geometry", 1e-4, 0);
  ctx.near(m["anode thickness thickn"] * m["anode volume fraction en"] * A, p.AMn, "P29/estimate", w + ": anode geometry", 1e-4, 0);
  ctx.near(m["capacity of the cell in Ah"], cap, "P29/estimate", w + ": capacity", 1e-5, 0);
  ctx.near(m["maximum voltage of the cell"], v0, "P29/estimate", w + ": maximum voltage", 1e-5, 0);
  ctx.near(m["minimum voltage of the cell"], v2, "P29/estimate", w + ": minimum voltage", 1e-5, 0);
  const double q = endCharge(e, p, v2), tol = 2e-3;
  ctx.near(m["cathode lithium fraction at 100% SOC"], p.sp, "P29/estimate", w + ": full cathode", 0, 1e-5);
  ctx.near(m["anode lithium fraction at 100% SOC"], p.sn, "P29/estimate", w + ": full anode", 0, 1e-5);
  ctx.near(m["cathode lithium fraction at 0% SOC"], fracP(p, q), "P29/estimate", w + ": empty cathode", 0, tol);
  ctx.near(m["anode lithium fraction at 0% SOC"], fracN(p, q), "P29/estimate", w + ": empty anode", 0, tol);
  for (const std::string s : { "cathode", "anode" })
    ctx.near(m[s + " lithium fraction at 50% SOC"], (m[s + " lithium fraction at 100% SOC"] + m[s + " lithium fraction at 0% SOC"]) / 2, "P29/estimate", w + ": half full " + s, 0, 1e-5);
  // the simulated curve
  std::ifstream in(PathVar::results / "OCVfit_sim.csv");
  size_t rows = 0;
  double last = 0;
  for (std::string l; std::getline(in, l); rows++) {
    std::vector<double> f;
    std::istringstream s(l);
    for (std::string q; std::getline(s, q, ',');) f.push_back(std::stod(q));
    ctx.check(f.size() == 6, "P29/estimate-curve", w + ": " + l);
    ctx.near(f[5] - f[3], f[1], "P29/estimate-curve", w + ": " + l, 0, 3e-5);
    ctx.near(f[4], fracP(p, f[0]), "P29/estimate-curve", w + ": " + l, 0, 1e-4);
    ctx.near(f[2], fracN(p, f[0]), "P29/estimate-curve", w + ": " + l, 0, 1e-4);
    last = f[0];
  }
  ctx.check(rows >= 2, "P29/estimate-curve", w + ": no curve");
  ctx.near(last, q, "P29/estimate-curve", w + ": charge at the end", 0, 2e-3 * cap);
  ctx.cover("estimated");
  ctx.state({ p.AMp, p.AMn, p.sp, p.sn });
  std::filesystem::remove_all(d);
}

int main(int argc, char **argv)
{
  return H::main_(argc, argv, { { "valid", valid }, { "reading", reading }, { "error", error }, { "discharge", dis }, { "fit", fit }, { "estimate", estimate } });
}
