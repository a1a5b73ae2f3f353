// P23 - histograms count every sample exactly once, in the right bin.
#include "common.hpp"
#include "types/Histogram.hpp"
using namespace H;

struct Range
{
  double a, b;
};
static const std::vector<Range> ranges{ { 0, 1 }, { -16, 16 }, { 2.7, 4.2 }, { 273, 333 }, { -1, 0.3 }, { 1e-3, 2e-3 }, { 0, 0.3 }, { -1e6, 1e6 }, { -5, -4 } };

static std::vector<double> samples(const Range &r, int n)
{
  std::vector<double> s;
  const double dx = (r.b - r.a) / n;
  for (int i = 0; i <= n; i++) {
    const double e = r.a + i * dx;
    for (double x : { e, std::nextafter(e, 1e300), std::nextafter(e, -1e300), e + 1e-6 * dx, e - 1e-6 * dx, e + 0.5 * dx, e + 0.25 * dx, e - 0.25 * dx }) s.push_back(x);
  }
  const double w = r.b - r.a;
  for (double f : { 1.0, 2.0, 1e3, 1e9, 1e10, 1e12, 1e100, 1e300 }) {
    s.push_back(r.a - f * w);
    s.push_back(r.b + f * w);
  }
  s.push_back(HUGE_VAL);
  s.push_back(-HUGE_VAL);
  s.push_back(0.0);
  s.push_back(-0.0);
  return s;
}

// allowed bins: the one containing x; at an edge (up to rounding of the edge itself) also the neighbour
static std::pair<int, int> allowed(const Range &r, int n, double x)
{
  const double dx = (r.b - r.a) / n, tol = 8 * 2.3e-16 * std::max({ std::abs(r.a), std::abs(r.b), dx });
  auto bin = [&](double y) {
    int k = 0;
    if (y < r.a) return 0;
    if (y >= r.b) return n + 1;
    while (k < n && y >= r.a + k * dx) k++;
    return k;
  };
  if (!std::isfinite(x)) return x < 0 ? std::make_pair(0, 0) : std::make_pair(n + 1, n + 1);
  return { bin(x - tol), bin(x + tol) };
}

static std::vector<size_t> counts(Histogram<> &h)
{
  auto v = h.viewBinValues();
  return { v.begin(), v.end() };
}

static void one(Ctx &ctx)
{
  const auto r = ctx.pick(ranges, "range");
  const int n = ctx.thorough ? 1 + ctx.choose(130, "bins") : ctx.pick({ 1, 2, 3, 4, 5, 7, 10, 29, 49, 100 }, "bins");
  Histogram<> h(r.a, r.b, n);
  ctx.check(h.size() == static_cast<size_t>(n) + 2, "P23/size", fmt("%d bins: container of %zu", n, h.size()));
  size_t total = 0;
  for (double x : samples(r, n)) {
    const auto before = counts(h);
    h.add(x);
    total++;
    ctx.transitions++;
    const auto after = counts(h);
    ctx.check(after.size() == before.size(), "P23/size", "adding a sample changes the number of bins");
    int hit = -1;
    for (size_t i = 0; i < after.size(); i++)
      if (after[i] != before[i]) {
        ctx.check(hit < 0 && after[i] == before[i] + 1, "P23/count", fmt("[%g,%g] %d bins: sample %.17g changes bin %zu from %zu to %zu", r.a, r.b, n, x, i, before[i], after[i]));
        hit = static_cast<int>(i);
      }
    const auto [lo, hi] = allowed(r, n, x);
    ctx.check(hit >= lo && hit <= hi, "P23/bin", fmt("[%g,%g] %d bins: sample %.17g counted in bin %d instead of %d", r.a, r.b, n, x, hit, hi));
    size_t sum = 0;
    for (auto c : after) sum += c;
    ctx.check(sum == total, "P23/total", fmt("%zu samples counted after %zu", sum, total));
    ctx.cover(hit == 0 ? "below" : hit == n + 1 ? "above" : "inside");
  }
  // edges
  const auto e = h.getEdgeValues();
  std::vector<double> ev;
  for (size_t i = 0; i < e.size(); i++) ev.push_back(e[static_cast<int>(i)]);
  ctx.check(ev.size() == static_cast<size_t>(n) + 1, "P23/edges", fmt("[%g,%g] %d bins have %zu edges", r.a, r.b, n, ev.size()));
  for (size_t i = 0; i < ev.size(); i++) {
    ctx.near(ev[i], r.a + (r.b - r.a) / n * static_cast<double>(i), "P23/edges", fmt("[%g,%g] %d bins: edge %zu", r.a, r.b, n, i), 1e-12, 1e-12 * (r.b - r.a));
    if (i) ctx.check(ev[i] > ev[i - 1], "P23/edges", "edges are not increasing");
  }
  // what is written is what was counted
  std::ostringstream os;
  os << h;
  std::istringstream is(os.str());
  std::string l1, l2, l3, l4;
  std::getline(is, l1), std::getline(is, l2), std::getline(is, l3), std::getline(is, l4);
  auto nums = [](const std::string &l) {
    std::vector<double> v;
    std::stringstream ss(l);
    std::string t;
    while (std::getline(ss, t, ','))
      if (!t.empty()) v.push_back(std::stod(t));
    return v;
  };
  const auto we = nums(l2), wb = nums(l4);
  ctx.check(l1 == "Edges:" && l3 == "Bins:", "P23/written", "unexpected headings: " + l1 + " / " + l3);
  ctx.check(we.size() == ev.size(), "P23/written", fmt("%zu edges written of %zu", we.size(), ev.size()));
  for (size_t i = 0; i < we.size(); i++) ctx.near(we[i], ev[i], "P23/written", "written edge", 1e-5, 1e-5 * (r.b - r.a));
  const auto c = counts(h);
  ctx.check(wb.size() == c.size(), "P23/written", fmt("%zu bins written of %zu", wb.size(), c.size()));
  for (size_t i = 0; i < wb.size(); i++) ctx.check(wb[i] == static_cast<double>(c[i]), "P23/written", fmt("bin %zu written as %g, is %zu", i, wb[i], c[i]));
  ctx.cover("written");
  ctx.state({ r.a, r.b, static_cast<double>(n) });
}

// histories: every sequence of samples; copies are independent
static void sequences(Ctx &ctx)
{
  const auto r = ctx.pick(ranges, "range");
  const int n = 1 + ctx.choose(3, "bins");
  Histogram<> h(r.a, r.b, n);
  std::vector<size_t> model(static_cast<size_t>(n) + 2);
  const double dx = (r.b - r.a) / n;
  const int depth = ctx.choose(ctx.thorough ? 7 : 5, "length");
  for (int i = 0; i < depth; i++) {
    const int k = ctx.choose(n + 3, "sample");
    double x;
    int bin;
    if (k == n + 2) x = 1e15 * (r.b - r.a), bin = n + 1; // far away
    else
      x = r.a + (k - 0.5) * dx, bin = k;
    Histogram<> before = h;
    const auto c0 = counts(h);
    h.add(x);
    model[static_cast<size_t>(bin)]++;
    ctx.step("add %g", x);
    ctx.check(counts(h) == model, "P23/sequence", fmt("[%g,%g] %d bins: wrong counts after adding %g", r.a, r.b, n, x));
    ctx.check(counts(before) == c0, "P23/copy", "a copy of a histogram counts samples of the original");
    std::vector<double> s(model.begin(), model.end());
    ctx.state(s, static_cast<uint64_t>(n));
  }
  ctx.cover("sequence");
}

int main(int argc, char **argv) { return main_(argc, argv, { { "samples", one }, { "sequences", sequences } }); }
