// P25 - containers behave like the abstract type they stand for.
#include "common.hpp"
#include "types/SmallVector.hpp"
#include "types/data_storage/StateStorage.hpp"
#include "utility/utility.hpp"
using namespace H;

// ---- small vectors -----------------------------------------------------------------
template <typename T, T Nmax>
static void small(Ctx &ctx, int depth)
{
  using SV = SmallVector<T, Nmax>;
  SV v[2];
  std::vector<T> m[2];
  if (ctx.flag("sized")) {
    const int n = ctx.choose(Nmax + 2, "size");
    bool refused = false;
    try {
      v[0] = SV(static_cast<T>(n));
      m[0].assign(static_cast<size_t>(n), 0);
    } catch (int) {
      refused = true;
    }
    ctx.check(refused == (n > Nmax), "P25/small-size", fmt("size %d of at most %d: %s", n, Nmax, refused ? "refused" : "accepted"));
    if (refused) ctx.prune();
  }
  T next = 3;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(5, "op");
    if (op == 4) break;
    const int k = ctx.choose(2, "which");
    if (op == 0) {
      bool refused = false;
      try {
        v[k].push_back(static_cast<T>(next));
      } catch (int) {
        refused = true;
      }
      ctx.check(refused == (m[k].size() == static_cast<size_t>(Nmax)), "P25/small-capacity", fmt("push to %zu of %d elements %s", m[k].size(), Nmax, refused ? "refused" : "accepted"));
      if (!refused) m[k].push_back(next);
      if (refused) ctx.cover("small vector full");
      next++;
    } else if (op == 1) {
      const int i = ctx.choose(Nmax + 1, "index");
      bool refused = false;
      try {
        v[k][static_cast<T>(i)] = next;
      } catch (int) {
        refused = true;
      }
      ctx.check(refused == (static_cast<size_t>(i) >= m[k].size()), "P25/small-index", fmt("element %d of %zu %s", i, m[k].size(), refused ? "refused" : "accepted"));
      if (!refused) m[k][static_cast<size_t>(i)] = next;
      next++;
    } else if (op == 2) {
      v[1 - k] = v[k];
      m[1 - k] = m[k];
    } else {
      SV c(v[k]);
      if (!m[k].empty()) c[0] = static_cast<T>(99); // only the copy
      try {
        c.push_back(static_cast<T>(98));
      } catch (int) {
      }
    }
    ctx.step("op %d on %d", op, k);
    for (int j = 0; j < 2; j++) {
      std::vector<T> got(v[j].begin(), v[j].end()), cgot(v[j].cbegin(), v[j].cend());
      ctx.check(got == m[j] && cgot == m[j], "P25/small-elements", fmt("vector %d iterates over %zu elements, expected %zu (or others)", j, got.size(), m[j].size()));
      ctx.check(v[j].N == m[j].size() && v[j].empty() == m[j].empty(), "P25/small-elements", "size");
      const SV &cv = v[j];
      for (size_t i = 0; i < m[j].size(); i++) ctx.check(cv[static_cast<T>(i)] == m[j][i] && v[j][static_cast<T>(i)] == m[j][i], "P25/small-elements", fmt("element %zu", i));
    }
    std::vector<double> st;
    for (auto &x : m) {
      st.push_back(-1);
      st.insert(st.end(), x.begin(), x.end());
    }
    ctx.state(st, static_cast<uint64_t>(Nmax));
  }
  ctx.cover("small vector");
}
static void smallVectors(Ctx &ctx)
{
  const int k = ctx.choose(3, "capacity");
  const int depth = ctx.thorough ? 7 : 5;
  if (k == 0) small<int, 1>(ctx, depth);
  if (k == 1) small<uint_fast8_t, 2>(ctx, depth);
  if (k == 2) small<int, 3>(ctx, depth);
}
// the sets of degradation models are such vectors
static void degModels(Ctx &ctx)
{
  DEG_ID d;
  const int n = ctx.choose(DEG_ID::len + 3, "models");
  int accepted = 0;
  for (int i = 0; i < n; i++) {
    bool refused = false;
    try {
      d.SEI_id.add_model(static_cast<DEG_ID::data_t>(i % 4 + 1));
      accepted++;
    } catch (int) {
      refused = true;
    }
    ctx.step("add model");
    (void)refused;
    int cnt = 0;
    for (auto x : d.SEI_id) {
      ctx.check(x == cnt % 4 + 1, "P25/deg-models", fmt("model %d is %d", cnt, static_cast<int>(x)));
      cnt++;
    }
    ctx.check(cnt == accepted, "P25/deg-models", fmt("%d models listed, %d added", cnt, accepted));
    ctx.check(d.CS_id.empty() && d.LAM_id.empty(), "P25/deg-models", "other mechanisms changed");
  }
}

// ---- deep pointers -----------------------------------------------------------------
struct Node
{
  static int live;
  int v;
  explicit Node(int x) : v(x) { live++; }
  Node(const Node &o) : v(o.v) { live++; }
  virtual ~Node() { live--; }
  virtual Node *copy() { return new Node(*this); }
  virtual int kind() const { return 0; }
  int copy_kind()
  {
    std::unique_ptr<Node> c(copy());
    return c->kind();
  }
};
int Node::live = 0;
struct Sub : Node
{
  explicit Sub(int x) : Node(x) {}
  Sub *copy() override { return new Sub(*this); }
  int kind() const override { return 1; }
};
struct SubSub : Sub
{
  explicit SubSub(int x) : Sub(x) {}
  SubSub *copy() override { return new SubSub(*this); }
  int kind() const override { return 2; }
};
struct Ref
{
  bool has{ false };
  int v{ 0 }, kind{ 0 };
};
static void deepPtr(Ctx &ctx)
{
  Node::live = 0;
  {
    constexpr int S = 3;
    Deep_ptr<Node> p[S];
    Ref m[S];
    int next = 1;
    const int depth = ctx.thorough ? 5 : 4;
    for (int d = 0; d < depth; d++) {
      const int op = ctx.choose(13, "op");
      if (op == 12) break;
      const int i = op == 11 ? 0 : ctx.choose(S, "i");
      int j = 0;
      if (op >= 5 && op < 10) j = ctx.choose(S, "j");
      switch (op) {
      case 0: p[i] = Deep_ptr<Node>(new Node(next)), m[i] = { true, next++, 0 }; break;
      case 1: p[i].reset(new Sub(next)), m[i] = { true, next++, 1 }; break;
      case 2: p[i].reset(), m[i] = {}; break;
      case 3:
        if (m[i].has) p[i]->v = next, m[i].v = next++;
        break;
      case 4: p[i] = make<Sub>(next), m[i] = { true, next++, 1 }; break; // converting move
      case 5: {
        Deep_ptr<Node> q(p[j]); // copy construction
        if (q) q->v += 1000;    // independent of the original
        p[i] = std::move(q);
        const Ref r = m[j];
        m[i] = r;
        if (m[i].has) m[i].v += 1000;
        break;
      }
      case 6: p[i].swap(p[j]), std::swap(m[i], m[j]); break;
      case 7: { // move assignment
        if (i == j) break;
        p[i] = std::move(p[j]);
        m[i] = m[j], m[j] = {};
        break;
      }
      case 8: // copy assignment, self assignment included
        p[i] = p[j], m[i] = m[j];
        break;
      case 9: { // converting copy
        Deep_ptr<Sub> s = make_Deep_ptr<Sub>(next);
        Deep_ptr<Node> q(s);
        ctx.check(q.get() != static_cast<Node *>(s.get()), "P25/deep-ptr", "converting copy shares its object");
        ctx.check(q->kind() == 1 && q->copy_kind() == 1, "P25/deep-ptr", "converting copy lost the type of its object");
        {
          Deep_ptr<Sub> t(new SubSub(next)); // an object of a type derived from that of the pointer
          Deep_ptr<Node> r(t);
          ctx.check(r && r->kind() == 2 && r->v == next && t->kind() == 2, "P25/deep-ptr", "converting copy lost the type of its object");
          Deep_ptr<Sub> t2(t);
          ctx.check(t2->kind() == 2, "P25/deep-ptr", "copy lost the type of its object");
        }
        s->v = -1;
        p[i] = std::move(q), m[i] = { true, next++, 1 };
        if (i != j) {
          Deep_ptr<Sub> empty;
          Deep_ptr<Node> e(empty);
          ctx.check(!e, "P25/deep-ptr", "copy of an empty pointer is not empty");
        }
        break;
      }
      case 10: {
        std::unique_ptr<Node> u(new Node(next));
        p[i] = Deep_ptr<Node>(std::move(u)), m[i] = { true, next++, 0 };
        break;
      }
      case 11: { // a sequence of pointers is copied element by element
        std::vector<Deep_ptr<Node>> a(p, p + S), b = a;
        for (int k = 0; k < S; k++) {
          ctx.check(static_cast<bool>(b[static_cast<size_t>(k)]) == m[k].has, "P25/deep-ptr", "copied sequence");
          if (m[k].has) a[static_cast<size_t>(k)]->v = -5;
        }
        for (int k = 0; k < S; k++)
          if (m[k].has) ctx.check(b[static_cast<size_t>(k)]->v == m[k].v, "P25/deep-ptr", "copied sequences share objects");
        break;
      }
      }
      ctx.step("op %d i %d j %d", op, i, j);
      int have = 0;
      std::vector<double> st;
      for (int k = 0; k < S; k++) {
        ctx.check(static_cast<bool>(p[k]) == m[k].has && (p[k] == nullptr) == !m[k].has && (p[k] != nullptr) == m[k].has && (nullptr == p[k]) == !m[k].has && (nullptr != p[k]) == m[k].has && (p[k].get() != nullptr) == m[k].has,
                  "P25/deep-ptr", fmt("pointer %d emptiness", k));
        st.push_back(m[k].has);
        if (!m[k].has) continue;
        have++;
        st.push_back(m[k].v);
        ctx.check(p[k]->v == m[k].v && (*p[k]).v == m[k].v && p[k].get()->v == m[k].v, "P25/deep-ptr", fmt("pointer %d leads to %d, expected %d", k, p[k]->v, m[k].v));
        ctx.check(p[k]->kind() == m[k].kind, "P25/deep-ptr", fmt("pointer %d lost the type of its object", k));
        for (int l = 0; l < k; l++) ctx.check(p[l].get() != p[k].get(), "P25/deep-ptr", "two pointers own one object");
      }
      ctx.check(Node::live == have, "P25/deep-ptr", fmt("%d objects alive for %d pointers", Node::live, have));
      ctx.state(st);
    }
  }
  ctx.check(Node::live == 0, "P25/deep-ptr", fmt("%d objects left over", Node::live));
  ctx.cover("deep pointers");
}

// ---- evenly and geometrically spaced ranges ----------------------------------------
template <typename FD>
static void rangeCheck(Ctx &ctx, FD f, const std::vector<double> &want, const std::string &what)
{
  const int n = static_cast<int>(want.size());
  auto near = [&](double g, double w, const std::string &s) { ctx.near(g, w, "P25/range", what + " " + s, 1e-10, 1e-13); };
  ctx.check(f.size() == want.size(), "P25/range-size", what + fmt(": size %zu, expected %zu", static_cast<size_t>(f.size()), want.size()));
  FD copy = f;
  for (int i = 0; i < n; i++) near(f[i], want[static_cast<size_t>(i)], fmt("[%d]", i)), near(f(i), want[static_cast<size_t>(i)], fmt("(%d)", i));
  int i = 0;
  for (auto x : f) {
    ctx.check(i < n, "P25/range-iteration", what + ": iterates too often");
    near(x, want[static_cast<size_t>(i)], fmt("iteration %d", i));
    i++;
  }
  ctx.check(i == n, "P25/range-iteration", what + fmt(": iterates %d times, expected %d", i, n));
  i = n;
  for (auto it = f.end(); it != f.begin();) {
    i--;
    --it;
    near(*it, want[static_cast<size_t>(i)], fmt("backwards %d", i));
  }
  ctx.check(i == 0, "P25/range-iteration", what + ": backwards");
  ctx.check(f.end() - f.begin() == n && slide::distance(f.begin(), f.end()) == n, "P25/range-iteration", what + ": distance");
  auto it = f.begin();
  for (int k = 0; k < n; k++) {
    near(*(f.begin() + k), want[static_cast<size_t>(k)], "begin + k");
    auto old = it++;
    near(*old, want[static_cast<size_t>(k)], "post-increment");
  }
  ctx.check(it == f.end(), "P25/range-iteration", what + ": post-increment");
  if (n > 0) near(f.front(), want.front(), "front"), near(f.back(), want.back(), "back");
  for (int k = 0; k + 1 < n; k++) {
    near(f.next(want[static_cast<size_t>(k)]), want[static_cast<size_t>(k) + 1], "next");
    near(f.prev(want[static_cast<size_t>(k) + 1]), want[static_cast<size_t>(k)], "prev");
    near(f[k], want[static_cast<size_t>(k)], "after next");
  }
  copy.clear();
  ctx.check(copy.size() == 0 && !(copy.begin() != copy.end()), "P25/range-size", what + ": not empty after clear");
  ctx.check(f.size() == want.size(), "P25/range-size", what + ": clearing a copy changed the original");
  ctx.step("%s", what.c_str());
}
static void ranges(Ctx &ctx)
{
  const double x0 = ctx.pick({ 0.0, -3.0, 0.1, 2.5, 1e-18, 12345.678 }, "x0");
  const double step = ctx.pick({ 1.0, 0.1, -0.25, 1e-3, 7.0, 1.0 / 3 }, "step");
  const int n = ctx.choose(ctx.thorough ? 30 : 12, "n");
  const int kind = ctx.choose(6, "kind");
  std::vector<double> w;
  if (kind == 5) {
    for (int i = 0; i < n; i++) w.push_back(x0 * std::pow(std::abs(step), i));
    rangeCheck(ctx, logstep_fix(x0, std::abs(step), n), w, fmt("logstep(%g,%g,%d)", x0, std::abs(step), n));
    return;
  }
  for (int i = 0; i < n; i++) w.push_back(x0 + step * i);
  const double x1 = x0 + step * (n - 1);
  if (kind == 0) {
    rangeCheck(ctx, FixedData<double>(x0, step, n), w, fmt("FixedData(%g,%g,%d)", x0, step, n));
    const FixedData<double, false> g(x0, step, n); // refuses what lies outside
    rangeCheck(ctx, g, w, fmt("FixedData(%g,%g,%d) without extrapolation", x0, step, n));
    for (int i = -2; i < n + 3; i++) {
      bool refused = false;
      try {
        g[i];
      } catch (const std::out_of_range &) {
        refused = true;
      }
      ctx.check(refused == (i < 0 || i >= n), "P25/range-bounds", fmt("FixedData(%g,%g,%d) without extrapolation: element %d is %s", x0, step, n, i, refused ? "refused" : "given"));
    }
  }
  if (kind == 1) rangeCheck(ctx, linstep_fix(x0, step, n), w, fmt("linstep(%g,%g,%d)", x0, step, n));
  if (kind == 2) {
    if (n == 0) ctx.prune();
    rangeCheck(ctx, range_fix(x0, x1, step), w, fmt("range(%g,%g,%g)", x0, x1, step));
    if (n > 1) { // a maximum between two points
      rangeCheck(ctx, range_fix(x0, x1 + 0.4 * step, step), w, "range with a remainder");
      w.pop_back();
      rangeCheck(ctx, range_fix(x0, x1 - 0.4 * step, step), w, "range with a remainder");
    }
  }
  if (kind == 3) {
    rangeCheck(ctx, linspace_fix(x0, x1, n), n == 1 ? std::vector<double>{ x1 } : w, fmt("linspace_fix(%g,%g,%d)", x0, x1, n));
  }
  if (kind == 4) {
    auto v = linspace(x0, x1, n);
    ctx.check(v.size() == w.size(), "P25/range-size", "linspace");
    for (size_t i = 0; i < w.size(); i++) ctx.near(v[i], w[i], "P25/range", fmt("linspace(%g,%g,%d)[%zu]", x0, x1, n, i), 1e-10, 1e-13);
    if (n > 0) ctx.check(v.back() == x1, "P25/range", "linspace does not end at its end");
    ctx.check(linspace(x0, x1, -3).empty(), "P25/range-size", "linspace of a negative number of points");
    auto a = linspace<5>(x0, x1);
    auto a1 = linspace<1>(x0, x1);
    for (size_t i = 0; i < 5; i++) ctx.near(a[i], x0 + (x1 - x0) * static_cast<double>(i) / 4, "P25/range", "linspace<5>", 1e-10, 1e-13);
    ctx.near(a1[0], x1, "P25/range", "linspace<1>");
    ctx.step("linspace");
  }
  ctx.cover("ranges");
  ctx.state({ x0, step, static_cast<double>(n) });
}

// ---- matrices ----------------------------------------------------------------------
static void dynMatrix(Ctx &ctx)
{
  DynamicMatrix<double> a;
  std::map<std::pair<int, int>, double> ref;
  int m = 0, n = 0;
  double next = 1;
  const int depth = ctx.thorough ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(5, "op");
    if (op == 0) {
      m = ctx.choose(4, "rows"), n = ctx.choose(4, "columns");
      a = DynamicMatrix<double>(m, n, next);
      ref.clear();
      for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) ref[{ i, j }] = next;
      next++;
    } else if (op == 1) {
      m = n = ctx.choose(4, "size");
      a = DynamicMatrix<double>(m);
      ref.clear();
      for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) ref[{ i, j }] = 0;
    } else if (op == 2) {
      const int i = ctx.choose(3, "i"), j = ctx.choose(3, "j");
      if (i >= m || j >= n) ctx.prune();
      a(i, j) = next, ref[{ i, j }] = next;
      next++;
    } else if (op == 3) { // columns are added or removed
      const int k = ctx.choose(4, "columns");
      a.resize(m, k, next);
      for (int i = 0; i < m; i++) {
        for (int j = n; j < k; j++) ref[{ i, j }] = next;
        for (int j = k; j < n; j++) ref.erase({ i, j });
      }
      n = k;
      next++;
    } else { // a copy is independent
      auto c = a;
      for (auto &x : c.data) x = -9;
      c.resize(5, 5);
    }
    ctx.step("op %d", op);
    ctx.check(a.rows() == m && a.cols() == n && a.size() == m * n && a.data.size() == static_cast<size_t>(m * n), "P25/matrix-shape", fmt("%d x %d with %zu elements, expected %d x %d", a.rows(), a.cols(), a.data.size(), m, n));
    const auto &ca = a;
    std::ostringstream os, want;
    os << a;
    for (int i = 0; i < m; i++) {
      for (int j = 0; j < n; j++) {
        ctx.check(a(i, j) == ref[{ i, j }] && ca(i, j) == ref[{ i, j }], "P25/matrix-element", fmt("element %d,%d of %d x %d is %g, expected %g", i, j, m, n, a(i, j), ref[{ i, j }]));
        want << ref[{ i, j }] << ", ";
      }
      want << '\n';
    }
    ctx.check(os.str() == want.str(), "P25/matrix-print", "printed matrix: " + os.str());
    std::vector<double> st{ static_cast<double>(m), static_cast<double>(n) };
    for (auto &x : ref) st.push_back(x.second);
    ctx.state(st);
  }
  ctx.cover("dynamic matrix");
}

template <int N>
static void chol(Ctx &ctx)
{
  // lower triangular factor from a small set of values
  Matrix<double, N, N> L = zeros<N>();
  for (int i = 0; i < N; i++)
    for (int j = 0; j <= i; j++) L[i][j] = i == j ? ctx.pick({ 2.0, 5.0 }, "diagonal") : ctx.pick({ 0.0, -1.0, 0.5 }, "element");
  std::array<double, N> x;
  for (auto &v : x) v = ctx.pick({ 0.0, 0.7, -1.5 }, "x");
  auto full = [&](const Matrix<double, N, N> &A, int i, int j) {
    double s = 0;
    for (int k = 0; k < N; k++) s += A[i][k] * A[j][k];
    return s;
  };
  auto U = L;
  cholUpdate<N>(U, x);
  ctx.step("update");
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) {
      ctx.near(full(U, i, j), full(L, i, j) + x[i] * x[j], "P25/cholesky", fmt("updated element %d,%d of %d", i, j, N), 1e-9, 1e-9);
      if (j > i) ctx.check(U[i][j] == 0, "P25/cholesky", "factor is not triangular");
    }
  auto D = U;
  cholUpdate<N>(D, x, true); // take it away again
  ctx.step("downdate");
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) ctx.near(full(D, i, j), full(L, i, j), "P25/cholesky", fmt("downdated element %d,%d of %d", i, j, N), 1e-8, 1e-8);
  ctx.cover("cholesky");
}
template <size_t N, size_t M>
static void shapes(Ctx &ctx, double k)
{
  auto e = eye<N, M>(k), z = zeros<N, M>();
  auto o = ones<static_cast<int>(N), static_cast<int>(M)>(k);
  ctx.check(e.size() == M && e[0].size() == N && z.size() == M && o.size() == M, "P25/matrix-shape", "eye, zeros or ones");
  for (size_t i = 0; i < M; i++)
    for (size_t j = 0; j < N; j++)
      ctx.check(e[i][j] == (i == j ? k : 0) && z[i][j] == 0 && o[i][j] == k, "P25/matrix-element", fmt("eye, zeros or ones %zux%zu element %zu,%zu", M, N, i, j));
  ctx.step("eye zeros ones");
}
static void matrices(Ctx &ctx)
{
  const int k = ctx.choose(4, "kind");
  if (k == 0) chol<1>(ctx);
  if (k == 1) chol<2>(ctx);
  if (k == 2) chol<3>(ctx);
  if (k == 3) {
    const double v = ctx.pick({ 1.0, -2.0, 0.0 }, "value");
    shapes<1, 1>(ctx, v), shapes<2, 2>(ctx, v), shapes<3, 3>(ctx, v), shapes<2, 3>(ctx, v), shapes<3, 2>(ctx, v), shapes<1, 4>(ctx, v), shapes<5, 1>(ctx, v);
  }
}

// ---- arrays and reductions ---------------------------------------------------------
static void arrays(Ctx &ctx)
{
  const int n = ctx.choose(5, "length");
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(ctx.pick({ 0.0, -2.0, 3.5, 3.5 + 1e-9, -2.0 - 1e-9, 1e6 }, "element"));
  std::vector<int> calls(static_cast<size_t>(n), 0);
  auto f = [&](const double &x) { calls[static_cast<size_t>(&x - v.data())]++; return 2 * x; };
  double s = 0, mx = -1e300, mn = 1e300;
  for (double x : v) s += 2 * x, mx = std::max(mx, 2 * x), mn = std::min(mn, 2 * x);
  if (n > 0) {
    ctx.near(transform_max(v, f), mx, "P25/reduce", "max", 0, 0);
    ctx.near(transform_min(v, f), mn, "P25/reduce", "min", 0, 0);
    ctx.near(transform_mean(v, f), s / n, "P25/reduce", "mean");
    ctx.near(transform_sum(v, f), s, "P25/reduce", "sum");
  } else {
    ctx.check(transform_max(v, f) == 0 && transform_min(v, f) == 0 && transform_mean(v, f) == 0, "P25/reduce", "empty");
  }
  ctx.step("reduce %d", n);
  if (n >= 3) {
    std::array<double, 3> a{ v[0], v[1], v[2] }, b{ v[2], 1, v[0] };
    const auto c = arrSum(a, b, 2, -3), p = a + b, q = a - b;
    auto r = a, t = a;
    r += b, t -= b;
    for (size_t i = 0; i < 3; i++) {
      ctx.near(c[i], 2 * a[i] - 3 * b[i], "P25/array", "arrSum");
      ctx.check(p[i] == a[i] + b[i] && r[i] == p[i] && q[i] == a[i] - b[i] && t[i] == q[i], "P25/array", "sum or difference");
    }
    ctx.check(a[0] == v[0] && b[1] == 1, "P25/array", "operands changed");
  }
  ctx.cover("arrays");
  ctx.state(v);
}

// ---- snapshots ---------------------------------------------------------------------
static void snapshots(Ctx &ctx)
{
  std::vector<std::vector<double>> mem{ { 1 }, { 2, 3 }, { 4 }, { 5, 6, 7 } };
  std::map<int, std::vector<double>> saved; // what the snapshot holds, by position in mem
  std::vector<int> order;
  StateStorage st;
  double next = 10;
  const int depth = ctx.thorough ? 7 : 5;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(5, "op");
    if (op == 4) break;
    if (op == 0) {
      const int k = ctx.choose(4, "what");
      if (saved.count(k)) ctx.prune();
      auto &x = mem[static_cast<size_t>(k)];
      if (x.size() == 1) st.add(x[0]);
      else
        st.add(std::span<double>(x));
      saved[k] = x;
      order.push_back(k);
    } else if (op == 1) {
      auto &x = mem[static_cast<size_t>(ctx.choose(4, "what"))];
      for (auto &v : x) v = next++;
    } else if (op == 2) {
      st.restore();
      for (auto &s : saved) mem[static_cast<size_t>(s.first)] = s.second; // the expected result
      // (mem is compared with the snapshot below; elements outside it must be untouched)
    } else {
      st.clear();
      saved.clear();
      order.clear();
    }
    ctx.step("op %d", op);
    if (op == 2) continue;
    std::vector<double> want;
    for (int k : order)
      for (double v : saved[k]) want.push_back(v);
    std::vector<double> got(st.begin(), st.end());
    ctx.check(got == want, "P25/snapshot", fmt("the snapshot holds %zu numbers, expected %zu (or others)", got.size(), want.size()));
    auto before = mem;
    st.restore();
    for (int k = 0; k < 4; k++)
      ctx.check(mem[static_cast<size_t>(k)] == (saved.count(k) ? saved[k] : before[static_cast<size_t>(k)]), "P25/snapshot", fmt("restoring gives other numbers in element %d", k));
    for (int k = 0; k < 4; k++) std::copy(before[static_cast<size_t>(k)].begin(), before[static_cast<size_t>(k)].end(), mem[static_cast<size_t>(k)].begin());
    std::vector<double> s;
    for (auto &x : mem) s.insert(s.end(), x.begin(), x.end());
    ctx.state(s, order.size());
  }
  ctx.cover("snapshots");
}

int main(int argc, char **argv)
{
  mc::execTimeout = 20;
  return main_(argc, argv, { { "small-vectors", smallVectors }, { "degradation-models", degModels }, { "deep-pointers", deepPtr }, { "ranges", ranges }, { "dynamic-matrix", dynMatrix }, { "matrices", matrices }, { "arrays", arrays }, { "snapshots", snapshots } });
}
