// P24 - data files load exactly what they contain, or are refused.
#include "common.hpp"
using namespace H;

struct File
{
  std::string text;
  std::vector<std::vector<double>> rows; // what it contains
};

static const std::vector<std::string> numbers{ "1", "-2.5", "3e-2", "0.25", "12.125", "-7E1", "0", "400", "-.5", ".75" };

static File make(Ctx &ctx, int maxRows, int cols, bool bomOk, bool blankOk)
{
  File f;
  const int rows = ctx.choose(maxRows + 1, "rows");
  const std::string nl = ctx.flag("crlf") ? "\r\n" : "\n";
  const std::string sep = ctx.pick<std::string>({ ",", ", ", " ,", "\t,\t" }, "separator");
  const int end = ctx.choose(blankOk ? 4 : 3, "end"); // none, newline, newline and blanks, blank line
  const bool bom = bomOk && ctx.flag("bom");
  const int first = ctx.choose(4, "first number");
  int k = first;
  for (int r = 0; r < rows; r++) {
    std::vector<double> v;
    if (r) f.text += nl;
    for (int c = 0; c < cols; c++) {
      const auto &n = numbers[static_cast<size_t>(k++) % numbers.size()];
      v.push_back(std::stod(n));
      f.text += (c ? sep : "") + n;
    }
    f.rows.push_back(v);
  }
  if (end == 1) f.text += nl;
  if (end == 2) f.text += nl + "  ";
  if (end == 3) f.text += nl + nl + nl;
  if (bom) f.text = "\xEF\xBB\xBF" + f.text;
  if (bom) ctx.cover("byte order mark");
  if (rows == 0) ctx.cover("empty file");
  return f;
}

static int counter = 0;
static std::filesystem::path write(const std::string &text, Ctx &ctx)
{
  const std::filesystem::path p = workerDir + fmt("/f%d_%d.csv", getpid(), counter++ % 64);
  std::ofstream o(p, std::ios::binary);
  o << text;
  ctx.step("file of %zu bytes", text.size());
  return p;
}
static std::string show(const std::string &t)
{
  std::string s;
  for (unsigned char c : t) s += c < 32 || c > 126 ? fmt("\\x%02x", c) : std::string(1, static_cast<char>(c));
  return "\"" + s + "\"";
}

// containers of fixed size with guards on both sides
template <size_t N>
struct Guarded
{
  std::array<double, 64> before;
  std::array<double, N> a;
  std::array<double, 256> after;
  Guarded()
  {
    before.fill(-77);
    a.fill(-55);
    after.fill(-77);
  }
  bool intact() const
  {
    for (double x : before)
      if (x != -77) return false;
    for (double x : after)
      if (x != -77) return false;
    return true;
  }
};

template <size_t N>
static void fixed2(Ctx &ctx, const File &f, const std::filesystem::path &p, int n)
{
  Guarded<N> x, y;
  loadCSV_2col(p, x.a, y.a, n);
  ctx.check(x.intact() && y.intact(), "P24/outside-container", show(f.text) + fmt(": loading into arrays of %zu writes outside them", N));
  const size_t want = std::min({ N, f.rows.size(), n == 0 ? N : static_cast<size_t>(n) });
  for (size_t i = 0; i < want; i++) {
    ctx.check(x.a[i] == f.rows[i][0] && y.a[i] == f.rows[i][1], "P24/value", show(f.text) + fmt(": row %zu of arrays of %zu is %g,%g", i, N, x.a[i], y.a[i]));
  }
  ctx.cover(f.rows.size() > N ? "more rows than container" : f.rows.size() < N ? "fewer rows than container" : "exact container");
}

template <typename X, typename Y>
static void compare(Ctx &ctx, const std::string &what, const File &f, const X &x, const Y &y, size_t rows)
{
  ctx.check(x.size() == rows && y.size() == rows, "P24/rows", what + " " + show(f.text) + fmt(": %zu and %zu numbers loaded, the file has %zu rows to load", x.size(), y.size(), rows));
  for (size_t i = 0; i < rows; i++)
    ctx.check(x[i] == f.rows[i][0] && y[i] == f.rows[i][1], "P24/value", what + " " + show(f.text) + fmt(": row %zu loaded as %g,%g", i, x[i], y[i]));
}

static void twoColumns(Ctx &ctx)
{
  const auto f = make(ctx, ctx.thorough ? 6 : 4, 2, true, true);
  auto p = write(f.text, ctx);
  const int n = ctx.choose(static_cast<int>(f.rows.size()) + 3, "rows asked for");
  const size_t want = n == 0 ? f.rows.size() : std::min(f.rows.size(), static_cast<size_t>(n));
  std::vector<double> x(7, -1), y(2, -1);
  for (int i = 0; i < 2; i++) {
    loadCSV_2col(p, x, y, n);
    compare(ctx, "vectors", f, x, y, want);
  }
  fixed2<1>(ctx, f, p, n);
  fixed2<2>(ctx, f, p, n);
  fixed2<3>(ctx, f, p, n);
  fixed2<5>(ctx, f, p, n);
  XYdata_vv d;
  loadCSV_2col(p, d, +n);
  compare(ctx, "curve", f, d.x, d.y, want);
  // curves shared between users: the same file again and again
  static long uniq = 0;
  const std::filesystem::path q = workerDir + fmt("/s%d_%ld.csv", getpid(), uniq++);
  std::filesystem::copy_file(p, q);
  std::vector<int> order{ n, 0, n };
  std::span<double> kx, ky;
  for (int i = 0; i < 3; i++) {
    std::span<double> sx, sy;
    const size_t w = order[static_cast<size_t>(i)] == 0 ? f.rows.size() : std::min(f.rows.size(), static_cast<size_t>(order[static_cast<size_t>(i)]));
    loadCSV_2col(q, sx, sy, order[static_cast<size_t>(i)]);
    compare(ctx, "shared", f, sx, sy, w);
    if (i == 0) kx = sx, ky = sy;
    compare(ctx, "shared, held", f, kx, ky, want);
  }
  std::filesystem::remove(q);
  if (f.rows.size() > 1) {
    const std::filesystem::path q2 = workerDir + fmt("/c%d_%ld.csv", getpid(), uniq++);
    std::filesystem::copy_file(p, q2);
    XYdata_ss c;
    c.setCurve(q2);
    compare(ctx, "setCurve", f, c.x, c.y, f.rows.size());
    XYdata_vv cv;
    cv.setCurve(q2);
    compare(ctx, "setCurve", f, cv.x, cv.y, f.rows.size());
    std::filesystem::remove(q2);
  }
  ctx.cover("two columns");
  ctx.stateBits(mc::fnv(f.text.data(), f.text.size()));
}

template <size_t R, size_t C>
static void matrixCase(Ctx &ctx, const File &f, const std::filesystem::path &p)
{
  struct
  {
    std::array<double, 16> before;
    Matrix<double, R, C> m;
    std::array<double, 16> after;
  } g;
  g.before.fill(-77), g.after.fill(-77);
  for (auto &r : g.m) r.fill(-55);
  for (int t = 0; t < 2; t++) {
    loadCSV_mat(p, g.m);
    for (double v : g.before) ctx.check(v == -77, "P24/outside-container", "matrix written outside");
    for (double v : g.after) ctx.check(v == -77, "P24/outside-container", "matrix written outside");
    if (f.rows.size() >= R)
      for (size_t i = 0; i < R; i++)
        for (size_t j = 0; j < C; j++) ctx.check(g.m[i][j] == f.rows[i][j], "P24/value", show(f.text) + fmt(": %zux%zu matrix element %zu,%zu loaded as %g", R, C, i, j, g.m[i][j]));
  }
}

static void matrices(Ctx &ctx)
{
  const int cols = 1 + ctx.choose(3, "columns");
  const auto f = make(ctx, 4, cols, true, true);
  auto p = write(f.text, ctx);
  if (cols == 1) {
    matrixCase<1, 1>(ctx, f, p);
    matrixCase<3, 1>(ctx, f, p);
    Guarded<3> g;
    loadCSV_1col(p, g.a);
    ctx.check(g.intact(), "P24/outside-container", "one column written outside");
    if (f.rows.size() >= 3)
      for (size_t i = 0; i < 3; i++) ctx.check(g.a[i] == f.rows[i][0], "P24/value", show(f.text) + fmt(": element %zu loaded as %g", i, g.a[i]));
  } else if (cols == 2) {
    matrixCase<1, 2>(ctx, f, p);
    matrixCase<2, 2>(ctx, f, p);
    matrixCase<4, 2>(ctx, f, p);
  } else {
    matrixCase<2, 3>(ctx, f, p);
    matrixCase<3, 3>(ctx, f, p);
  }
  // any number of columns
  for (int n = 0; n < 4; n++) {
    DynamicMatrix<double> m(2, 3, -5);
    loadCSV_Ncol(p, m, n);
    const size_t want = n == 0 ? f.rows.size() : std::min(f.rows.size(), static_cast<size_t>(n));
    ctx.check(m.data.size() == want * static_cast<size_t>(cols), "P24/rows", show(f.text) + fmt(": %zu numbers loaded of %zu (n=%d)", m.data.size(), want * static_cast<size_t>(cols), n));
    ctx.check(want == 0 || (static_cast<size_t>(m.cols()) == want && m.rows() == cols), "P24/shape", show(f.text) + fmt(": loaded as %d x %d, n=%d", m.cols(), m.rows(), n));
    for (size_t i = 0; i < want; i++)
      for (int j = 0; j < cols; j++)
        ctx.check(m(j, static_cast<int>(i)) == f.rows[i][static_cast<size_t>(j)], "P24/value", show(f.text) + fmt(": row %zu column %d loaded as %g", i, j, m(j, static_cast<int>(i))));
  }
  ctx.cover("matrix");
  ctx.stateBits(mc::fnv(f.text.data(), f.text.size()));
}

// a file cut off at any byte: whole rows before the cut are loaded, nothing invented before them, nothing hangs
static void truncated(Ctx &ctx)
{
  const int cols = 1 + ctx.choose(3, "columns");
  auto f = make(ctx, 3, cols, true, true);
  const size_t cut = static_cast<size_t>(ctx.choose(static_cast<int>(f.text.size()) + 1, "cut"));
  const auto t = f.text.substr(0, cut);
  size_t whole = 0; // rows that are complete, including their line end
  for (size_t i = 0; i < t.size(); i++) whole += t[i] == '\n';
  whole = std::min(whole, f.rows.size());
  auto p = write(t, ctx);
  if (cols == 2) {
    std::vector<double> x, y;
    loadCSV_2col(p, x, y);
    ctx.check(x.size() == y.size() && x.size() >= whole && x.size() <= f.rows.size(), "P24/truncated-rows", show(t) + fmt(": %zu rows loaded", x.size()));
    for (size_t i = 0; i < whole; i++) ctx.check(x[i] == f.rows[i][0] && y[i] == f.rows[i][1], "P24/value", show(t) + fmt(": row %zu loaded as %g,%g", i, x[i], y[i]));
    Guarded<2> a, b;
    loadCSV_2col(p, a.a, b.a);
    ctx.check(a.intact() && b.intact(), "P24/outside-container", show(t));
  }
  if (cols == 3) {
    Matrix<double, 3, 3> m{};
    loadCSV_mat(p, m);
    for (size_t i = 0; i < whole; i++)
      for (size_t j = 0; j < 3; j++) ctx.check(m[i][j] == f.rows[i][j], "P24/value", show(t) + fmt(": element %zu,%zu loaded as %g", i, j, m[i][j]));
  }
  DynamicMatrix<double> d;
  loadCSV_Ncol(p, d);
  ctx.check(d.data.size() >= whole * static_cast<size_t>(cols), "P24/truncated-rows", show(t) + fmt(": %zu numbers loaded", d.data.size()));
  for (size_t i = 0; i < whole; i++)
    for (size_t j = 0; j < static_cast<size_t>(cols); j++)
      ctx.check(d.data[i * static_cast<size_t>(cols) + j] == f.rows[i][j], "P24/value", show(t) + fmt(": number %zu of row %zu loaded as %g", j, i, d.data[i * static_cast<size_t>(cols) + j]));
  ctx.cover("truncated");
  ctx.stateBits(mc::fnv(t.data(), t.size()));
}

// every file over a small alphabet: never hangs, crashes or reads outside
static void arbitrary(Ctx &ctx)
{
  static const char alphabet[] = { '1', '-', ',', '\n', ' ', 'x', '\xEF', '.' };
  const int len = ctx.choose(ctx.thorough ? 6 : 5, "length");
  std::string t;
  for (int i = 0; i < len; i++) t += alphabet[ctx.choose(8, "byte")];
  auto p = write(t, ctx);
  std::vector<double> x, y;
  loadCSV_2col(p, x, y);
  ctx.check(x.size() == y.size(), "P24/columns", show(t) + ": columns of different length");
  Guarded<1> a, b;
  loadCSV_2col(p, a.a, b.a);
  Guarded<2> c;
  loadCSV_1col(p, c.a);
  ctx.check(a.intact() && b.intact() && c.intact(), "P24/outside-container", show(t));
  Matrix<double, 2, 2> m{};
  loadCSV_mat(p, m);
  DynamicMatrix<double> d;
  loadCSV_Ncol(p, d);
  ctx.check(static_cast<size_t>(d.rows()) * static_cast<size_t>(d.cols()) <= d.data.size(), "P24/shape", show(t) + fmt(": %d x %d elements in %zu numbers", d.rows(), d.cols(), d.data.size()));
  ctx.cover("arbitrary");
  ctx.stateBits(mc::fnv(t.data(), t.size()));
}

static void missing(Ctx &ctx)
{
  const std::filesystem::path p = workerDir + "/does-not-exist.csv";
  const int k = ctx.choose(6, "loader");
  int got = 0;
  std::vector<double> x{ 1, 2 }, y{ 3 };
  std::array<double, 2> a{ 5, 6 }, b{ 7, 8 };
  std::span<double> s, q;
  Matrix<double, 2, 2> m{};
  DynamicMatrix<double> d(1, 2, 9);
  XYdata_vv c;
  for (int i = 0; i < 2; i++) {
    got = 0;
    try {
      if (k == 0) loadCSV_2col(p, x, y);
      if (k == 1) loadCSV_2col(p, a, b);
      if (k == 2) loadCSV_2col(p, s, q);
      if (k == 3) loadCSV_mat(p, m);
      if (k == 4) loadCSV_Ncol(p, d);
      if (k == 5) c.setCurve(p);
    } catch (int e) {
      got = e;
    }
    ctx.step("loader %d -> %d", k, got);
    ctx.check(got == 2, "P24/missing-file", fmt("loader %d of a file that does not exist gives %d", k, got));
  }
  ctx.check(x.size() == 2 && y.size() == 1 && a[0] == 5 && b[1] == 8 && d.data.size() == 2, "P24/missing-file", "a missing file changed the container");
  ctx.cover("missing file");
}

// any sequence of loads of curves which share their data: files of the same name in different
// folders, files whose names begin alike, files which do not exist yet; what was loaded stays
static void sharing(Ctx &ctx)
{
  static long uniq = 0;
  const std::filesystem::path dir = workerDir + fmt("/d%d_%ld", getpid(), uniq++);
  std::filesystem::create_directories(dir / "a");
  std::filesystem::create_directories(dir / "b");
  const std::vector<std::filesystem::path> path{ dir / "a" / "curve.csv", dir / "b" / "curve.csv", dir / "curve.csv", dir / "a" / "curve", dir / "a" / "curve.csv.csv" };
  std::vector<File> files(path.size());
  auto create = [&](size_t i) {
    std::ofstream o(path[i]);
    for (size_t r = 0; r < 2 + i; r++) {
      files[i].rows.push_back({ 1.0 + static_cast<double>(r), 10.0 * static_cast<double>(i + 1) + 0.5 * static_cast<double>(r * r) });
      o << files[i].rows.back()[0] << ',' << files[i].rows.back()[1] << '\n';
    }
  };
  for (size_t i = 0; i < path.size(); i++)
    if (i != 3) create(i);
  struct Held
  {
    size_t file, rows;
    std::span<double> x, y;
  };
  std::vector<Held> held;
  const int depth = ctx.thorough ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    const auto i = static_cast<size_t>(ctx.choose(static_cast<int>(path.size()), "file"));
    const int n = ctx.pick({ 0, 1, 3 }, "rows");
    Held h{ i, 0, {}, {} };
    int got = 0;
    try {
      if (ctx.flag("curve")) {
        XYdata_ss c;
        c.setCurve(path[i]);
        h.x = c.x, h.y = c.y, h.rows = files[i].rows.size();
      } else {
        loadCSV_2col(path[i], h.x, h.y, n);
        h.rows = n == 0 ? files[i].rows.size() : std::min(files[i].rows.size(), static_cast<size_t>(n));
      }
    } catch (int e) {
      got = e;
    }
    ctx.step("load %s (%d rows): %d", path[i].c_str(), n, got);
    const bool there = !files[i].rows.empty();
    ctx.check(got == (there ? 0 : 2), "P24/missing-file", path[i].string() + fmt(there ? " is refused with %d" : " does not exist, but gives %d", got));
    if (there) held.push_back(h);
    else
      create(i), ctx.cover("file created after a refused load");
    for (auto &k : held) compare(ctx, "shared by several curves: " + path[k.file].string(), files[k.file], k.x, k.y, k.rows);
  }
  std::filesystem::remove_all(dir);
  ctx.cover("files of the same name");
}

int main(int argc, char **argv)
{
  mc::execTimeout = 20;
  return main_(argc, argv, { { "two-columns", twoColumns }, { "matrices", matrices }, { "truncated", truncated }, { "arbitrary", arbitrary }, { "missing", missing }, { "sharing", sharing } });
}
