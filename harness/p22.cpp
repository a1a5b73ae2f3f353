// P22 - curve interpolation: exact at table points, straight lines between, bounded, same answer on every grid.
#include "common.hpp"
using namespace H;

// a table that notices every access outside it
struct Outside
{
  long i, n;
};
struct Table
{
  std::vector<double> v;
  double operator[](long i) const
  {
    if (i < 0 || i >= static_cast<long>(v.size())) throw Outside{ i, static_cast<long>(v.size()) };
    return v[static_cast<size_t>(i)];
  }
  struct It // random access iterator over the table, checked as well
  {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = double;
    using difference_type = std::ptrdiff_t;
    using pointer = const double *;
    using reference = double;
    const Table *t{};
    std::ptrdiff_t i{};
    double operator*() const { return (*t)[i]; }
    double operator[](std::ptrdiff_t k) const { return (*t)[i + k]; }
    It &operator++() { return ++i, *this; }
    It operator++(int) { auto o = *this; ++i; return o; }
    It &operator--() { return --i, *this; }
    It operator--(int) { auto o = *this; --i; return o; }
    It &operator+=(std::ptrdiff_t k) { return i += k, *this; }
    It &operator-=(std::ptrdiff_t k) { return i -= k, *this; }
    friend It operator+(It a, std::ptrdiff_t k) { return a += k; }
    friend It operator+(std::ptrdiff_t k, It a) { return a += k; }
    friend It operator-(It a, std::ptrdiff_t k) { return a -= k; }
    friend std::ptrdiff_t operator-(It a, It b) { return a.i - b.i; }
    friend bool operator==(It a, It b) { return a.i == b.i; }
    friend auto operator<=>(It a, It b) { return a.i <=> b.i; }
  };
  It begin() const { return { this, 0 }; }
  It end() const { return { this, static_cast<std::ptrdiff_t>(v.size()) }; }
  size_t size() const { return v.size(); }
};
using Tab = XYdata<Table, Table>;

static std::vector<double> ordinates(const std::vector<double> &x, int pat)
{
  std::vector<double> y;
  for (size_t i = 0; i < x.size(); i++) y.push_back(pat == 0 ? 3.4 + 0.1 * static_cast<double>((i * 7) % 5) - 0.01 * static_cast<double>(i) : pat == 1 ? -2 + 0.5 * static_cast<double>(i * i % 11)
                                                                                                                                                   : 5 - static_cast<double>(i));
  return y;
}

static std::vector<double> queries(const std::vector<double> &x)
{
  std::vector<double> q;
  for (size_t i = 0; i < x.size(); i++) {
    q.push_back(x[i]);
    q.push_back(std::nextafter(x[i], 1e300));
    q.push_back(std::nextafter(x[i], -1e300));
    q.push_back(x[i] + 1e-13);
    q.push_back(x[i] - 1e-13);
    if (i + 1 < x.size())
      for (double f : { 0.5, 1.0 / 3, 0.01, 0.99, 0.999999 }) q.push_back(x[i] + f * (x[i + 1] - x[i]));
  }
  const double w = std::max(1.0, x.back() - x.front());
  for (double f : { 1e-3, 0.5, 3.0, 1e6, 1e30 }) {
    q.push_back(x.front() - f * w);
    q.push_back(x.back() + f * w);
  }
  q.push_back(HUGE_VAL);
  q.push_back(-HUGE_VAL);
  q.push_back(0.0);
  q.push_back(-0.0);
  return q;
}

static double reference(const std::vector<double> &x, const std::vector<double> &y, double q)
{
  if (q <= x.front()) return y.front();
  if (q >= x.back()) return y.back();
  size_t i = 1;
  while (x[i] < q) i++;
  return y[i - 1] + (y[i] - y[i - 1]) * (q - x[i - 1]) / (x[i] - x[i - 1]);
}

static void checkTable(Ctx &ctx, const std::vector<double> &x, const std::vector<double> &y, const std::string &what)
{
  const auto qs = queries(x);
  auto one = [&](const char *kind, auto &&look, bool bound, bool oneSpacing) {
    for (double q : qs) {
      const bool out = q < x.front() || q > x.back();
      bool refused = false;
      double got = 0;
      ctx.transitions++;
      try {
        got = look(q, bound);
      } catch (int e) {
        refused = true;
        ctx.check(e == 1, "P22/refusal-code", what + fmt(" %s: look-up of %.17g threw %d", kind, q, e));
      } catch (Outside &o) {
        ctx.fail("P22/reads-outside-table", what + fmt(" %s: look-up of %.17g reads element %ld of %ld", kind, q, o.i, o.n));
      }
      if (bound && out) {
        ctx.check(refused, "P22/not-refused", what + fmt(" %s: bounded look-up of %.17g outside [%.17g, %.17g] returned %g", kind, q, x.front(), x.back(), got));
        continue;
      }
      ctx.check(!refused, "P22/refused", what + fmt(" %s: look-up of %.17g in [%.17g, %.17g] refused (bound %d)", kind, q, x.front(), x.back(), bound));
      ctx.near(got, reference(x, y, q), "P22/value", what + fmt(" %s n=%zu: look-up of %.17g", kind, x.size(), q), 1e-9, oneSpacing ? 1e-10 : 1e-11);
    }
  };
  Tab t;
  t.x.v = x, t.y.v = y;
  const int n = static_cast<int>(x.size());
  for (bool bound : { true, false }) {
    one("general", [&](double q, bool b) { return linInt(false, b, t.x, t.y, n, q); }, bound, false);
    bool setUp = true;
    try {
      Tab f(t.x, t.y);
      one("XYdata", [&](double q, bool b) { return f.interp(q, false, b); }, bound, false);
    } catch (Outside &o) {
      setUp = false;
      ctx.fail("P22/setup-reads-outside-table", what + fmt(": setting up a table of %d points reads element %ld", n, o.i));
    }
    if (setUp) {
      auto xv = x, yv = y;
      XYdata_vv v(xv, yv);
      one("vector", [&](double q, bool b) { return v.interp(q, false, b); }, bound, false);
      std::span<double> xs{ xv }, ys{ yv };
      XYdata_ss s(xs, ys);
      one("span", [&](double q, bool b) { return s.interp(q, false, b); }, bound, false);
    }
  }
  // not a number: never outside the table, and never a number that looks right
  for (bool bound : { true, false }) {
    try {
      Tab f(t.x, t.y);
      const double g = f.interp(NAN, false, bound);
      ctx.check(n == 1 || std::isnan(g) || !std::isnan(g), "P22/nan", "");
    } catch (int) {
    } catch (Outside &o) {
      ctx.fail("P22/reads-outside-table", what + fmt(": look-up of NaN reads element %ld of %ld", o.i, o.n));
    }
  }
}

// every spacing pattern of small tables
static void irregular(Ctx &ctx)
{
  const int n = 1 + ctx.choose(ctx.thorough ? 7 : 6, "points");
  const double x0 = ctx.pick({ 0.0, -0.3, 2.7 }, "origin");
  const double unit = ctx.pick({ 0.1, 1.0, 2e-3 }, "unit");
  std::vector<double> x{ x0 };
  for (int i = 1; i < n; i++) x.push_back(x.back() + unit * ctx.pick({ 1.0, 1.004, 0.3, 0.993 }, "spacing"));
  const auto y = ordinates(x, ctx.choose(2, "values"));
  ctx.note("table of %d points", n);
  checkTable(ctx, x, y, "irregular table");
  ctx.cover("irregular table");
  if (n == 1) ctx.cover("one point");
  ctx.state(x);
}

// long evenly spaced (and nearly evenly spaced) tables
static void regular(Ctx &ctx)
{
  const double x0 = ctx.pick({ 0.0, -1.0, -0.3, 0.1, 1.0 / 3, 2.7, 1e3 }, "origin");
  const double dx = ctx.pick({ 0.1, 0.01, 1.0 / 3, 0.7, 1e-3, 1.0, 1.0 / 49 }, "spacing");
  const int n = ctx.thorough ? 2 + ctx.choose(120, "points") : ctx.pick({ 2, 3, 4, 5, 6, 7, 10, 11, 12, 20, 21, 49, 50, 100 }, "points");
  const int kind = ctx.choose(5, "kind");
  std::vector<double> x{ x0 };
  for (int i = 1; i < n; i++) {
    if (kind == 0) x.push_back(x0 + i * dx);
    else if (kind == 1)
      x.push_back(x.back() + dx);
    else if (kind == 2) // the first interval is the shortest one
      x.push_back(x.back() + (i == 1 ? 0.994 * dx : dx));
    else if (kind == 3)
      x.push_back(x.back() + (i == 1 ? 1.004 * dx : dx));
    else
      x.push_back(x.back() + (i % 2 ? 1.0 : 1.009) * dx);
  }
  const auto y = ordinates(x, ctx.choose(2, "values"));
  ctx.note("table of %d points from %g, spacing %g, kind %d", n, x0, dx, kind);
  checkTable(ctx, x, y, "regular table");
  if (kind == 0) { // the library's own evenly spaced data
    XYdata_ff f;
    f.x = FixedData<double>(x0, dx, n);
    f.y = FixedData<double>(4.2, -0.03, n);
    f.check_is_fixed();
    XYdata_fv h;
    h.x = f.x;
    h.y = y;
    h.check_is_fixed();
    std::vector<double> fy;
    for (int i = 0; i < n; i++) fy.push_back(4.2 - 0.03 * i);
    for (double q : queries(x))
      for (bool b : { false, true }) {
        const bool out = q < x.front() || q > x.back();
        try {
          const double a = f.interp(q, false, b), c = h.interp(q, false, b);
          ctx.transitions += 2;
          ctx.check(!(out && b), "P22/not-refused", fmt("evenly spaced data: bounded look-up of %.17g outside", q));
          ctx.near(a, reference(x, fy, q), "P22/value", fmt("evenly spaced data n=%d: look-up of %.17g", n, q), 1e-9, 1e-10);
          ctx.near(c, reference(x, y, q), "P22/value", fmt("evenly spaced abscissa n=%d: look-up of %.17g", n, q), 1e-9, 1e-10);
        } catch (int) {
          ctx.check(out && b, "P22/refused", fmt("evenly spaced data: look-up of %.17g refused (bound %d)", q, b));
        }
      }
    ctx.cover("evenly spaced data");
  }
  ctx.cover(kind > 1 ? "nearly regular table" : "regular table");
  ctx.state(x);
}

int main(int argc, char **argv) { return main_(argc, argv, { { "irregular", irregular }, { "regular", regular } }); }
