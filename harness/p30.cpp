// P30 - the parameter estimation tools compute the statistics they name.
#include "common.hpp"
#include "optimisation/MCMC.hpp"
using namespace H;

template <size_t N>
using Mat = slide::Matrix<double, N, N>;

template <size_t N>
static Mat<N> gram(const Mat<N> &S)
{
  Mat<N> G{};
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < N; j++)
      for (size_t k = 0; k < N; k++) G[i][j] += S[i][k] * S[j][k];
  return G;
}

// a sequence of adaptations of the proposal: S S' <- S (1 + n^-1/2 (alpha - 0.234) w w' / |w|^2) S'
template <size_t N>
static void adaptN(Ctx &ctx)
{
  Mat<N> S{};
  const int start = ctx.choose(4, "start");
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j <= i; j++) S[i][j] = start == 0 ? (i == j) : start == 1 ? (i == j ? 0.01 * (1 + static_cast<double>(i)) : 0) :
                                              start == 2 ? (i == j ? 2.5 - 0.4 * static_cast<double>(i) : 0.3 - 0.41 * static_cast<double>(j)) :
                                                           (i == j ? 1e3 : -250.0 * static_cast<double>(i + j));
  const int depth = ctx.thorough ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    std::array<double, N> w{};
    const int kind = ctx.choose(5, "draw");
    for (size_t i = 0; i < N; i++) {
      const double k = static_cast<double>(i);
      w[i] = kind == 0 ? (i == 0 ? 1 : 0) : kind == 1 ? 0.37 - 0.81 * k : kind == 2 ? -1.3 + 0.2 * k : kind == 3 ? 1e-6 * (1 + k) : (i + 1 == N ? 40 : 0);
    }
    const double alpha = ctx.pick({ 0.0, 0.1, 0.234, 0.6, 1.0 }, "acceptance");
    const double n = ctx.pick({ 1.0, 2.0, 731.0 }, "iteration");
    const auto before = S;
    S = slide::S_update<N>(S, w, alpha, n);
    double ww = 0;
    for (double x : w) ww += x * x;
    Mat<N> A{};
    const double m = (alpha - 0.234) / std::sqrt(n) / ww;
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) A[i][j] = (i == j) + m * w[i] * w[j];
    Mat<N> SA{}, want{};
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++)
        for (size_t k = 0; k < N; k++) SA[i][j] += before[i][k] * A[k][j];
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++)
        for (size_t k = 0; k < N; k++) want[i][j] += SA[i][k] * before[j][k];
    const auto got = gram<N>(S);
    ctx.step("draw %d, acceptance %g, iteration %g", kind, alpha, n);
    for (size_t i = 0; i < N; i++) {
      ctx.check(S[i][i] > 0, "P30/factor", "a diagonal element of the proposal is not positive");
      for (size_t j = 0; j < N; j++) {
        const double scale = std::sqrt(std::abs(want[i][i] * want[j][j]));
        ctx.near(got[i][j], want[i][j], "P30/adapt", fmt("covariance of the proposal, element %zu,%zu of %zu", i, j, N), 1e-9, 1e-9 * scale);
        if (j > i) ctx.check(S[i][j] == 0, "P30/factor", "the factor of the proposal is not triangular");
      }
    }
    if (alpha > 0.234) ctx.cover("wider");
    if (alpha < 0.234) ctx.cover("narrower");
    std::vector<double> v;
    for (auto &r : S)
      for (double x : r) v.push_back(x);
    ctx.state(v);
  }
}
static void adapt(Ctx &ctx)
{
  const int n = ctx.choose(4, "parameters");
  n == 0 ? adaptN<1>(ctx) : n == 1 ? adaptN<2>(ctx) : n == 2 ? adaptN<3>(ctx) : adaptN<5>(ctx);
}

// ------------------------------------------------------------------- likelihood ------
static double gammaDensity(double a, double b, double x) { return std::exp((a - 1) * std::log(x) - x / b - std::lgamma(a) - a * std::log(b)); }
static const std::vector<std::pair<double, double>> &shapes()
{
  static const std::vector<std::pair<double, double>> s{ { 1, 1 }, { 2, 0.5 }, { 0.5, 3 }, { 7.3, 0.21 } };
  return s;
}
static void likelihood(Ctx &ctx)
{
  std::vector<slide::GammaDensityFunctor> ds;
  std::array<double, 3> p{}, scale{};
  bool legal = true;
  double logp = 0;
  const auto scales = ctx.pick(std::vector<std::array<double, 3>>{ { 1, 1, 1 }, { 2, -3, 1e-14 } }, "scales");
  for (size_t i = 0; i < 3; i++) {
    const auto [a, b] = shapes()[static_cast<size_t>(ctx.choose(4, "prior"))];
    ds.emplace_back(a, b);
    p[i] = ctx.pick({ 1.0, 0.013, 6.5, 60.0, 0.0, -2.0, static_cast<double>(NAN) }, "value");
    scale[i] = scales[i];
    if (!(p[i] > 0)) legal = false;
    if (p[i] > 0) {
      const double want = gammaDensity(a, b, p[i]);
      ctx.near(ds.back()(p[i]), want, "P30/density", fmt("gamma density with shape %g and scale %g at %g", a, b, p[i]), 1e-9, 1e-300);
      logp += std::log(want);
    }
  }
  slide::Prior<slide::GammaDensityFunctor> prior(ds);
  const auto [P, ok] = prior(p);
  ctx.check(ok == legal, "P30/prior", legal ? "parameters within the prior are refused" : "a parameter which is not positive is possible");
  if (legal) ctx.near(P, logp, "P30/prior", "logarithm of the prior", 1e-9, 1e-9);
  slide::MCMCSettings<3> settings;
  settings.theta_scalar = scale;
  slide::MCMC_Input<3> in{ p, { ctx.pick({ 0.0, -6.2, 1.7 }, "log variance") } };
  const size_t N = ctx.pick({ size_t(1), size_t(250) }, "observations");
  const double err = ctx.pick({ 0.0, 3.3 }, "squared error");
  int calls = 0;
  std::array<double, 3> seen{};
  auto cost = [&](const std::array<double, 3> &x) {
    calls++, seen = x;
    return err;
  };
  const auto [r, done] = slide::LL(in, prior, cost, N, settings);
  ctx.step("log variance %g, %zu observations, error %g", in.logR[0], N, err);
  ctx.check(done == legal, "P30/likelihood", "verdict of the likelihood");
  ctx.check(std::memcmp(in.param.data(), p.data(), sizeof(p)) == 0, "P30/likelihood", "evaluating a candidate changes it");
  if (!legal) {
    ctx.cover("impossible parameter");
    ctx.check(calls == 0, "P30/likelihood", "the model is evaluated with an impossible parameter");
    return;
  }
  const double R = std::exp(in.logR[0]);
  ctx.check(calls == 1, "P30/likelihood", fmt("the model is evaluated %d times", calls));
  for (size_t i = 0; i < 3; i++) ctx.near(seen[i], p[i] * scale[i], "P30/scale", fmt("parameter %zu given to the model", i), 1e-14, 0);
  const double a = 0.5 * static_cast<double>(N) * std::log(2 * 3.14159265358979323846 * R), b = err / (2 * R);
  const std::array<double, 5> want{ a + b - logp, a, b, logp, err };
  for (size_t i = 0; i < 5; i++) ctx.near(r[i], want[i], "P30/likelihood", fmt("value %zu of the likelihood (total, noise, misfit, prior, error)", i), 1e-9, 1e-9);
  ctx.cover("likelihood");
  ctx.state({ r[0], r[3] });
  // the record gives inputs followed by results
  slide::MCMC_Record<3> rec{ in, r };
  ctx.check(rec.size() == 9 && in.size() == 4 && in.input_size() == 3 && in.output_size() == 1, "P30/record", "sizes");
  for (size_t i = 0; i < 9; i++) ctx.near(rec[i], i < 3 ? p[i] : i == 3 ? in.logR[0] : r[i - 4], "P30/record", fmt("value %zu of a record", i), 0, 0);
  ctx.near(rec.back(), err, "P30/record", "last value of a record", 0, 0);
}

// candidates with several outputs
static void records(Ctx &ctx)
{
  slide::MCMC_Input<2, 3> in{ { 1.5, -2.5 }, { 0.25, 7, -9 } };
  const slide::LL_Result r{ 11, 12, 13, 14, 15 };
  const double all[] = { 1.5, -2.5, 0.25, 7, -9, 11, 12, 13, 14, 15 };
  const size_t i = static_cast<size_t>(ctx.choose(12, "index"));
  const bool write = ctx.flag("write");
  auto val = [&](auto &&f) {
    try {
      return std::pair(f(), true);
    } catch (int) {
      return std::pair(0.0, false);
    }
  };
  if (write) {
    const auto [x, ok] = val([&] { return in[i] = 42, 42.0; });
    ctx.check(ok == (i < 5), "P30/record", fmt("writing value %zu of five", i));
    for (size_t k = 0; k < 5; k++) ctx.near(k < 2 ? in.param[k] : in.logR[k - 2], k == i ? 42 : all[k], "P30/record", fmt("value %zu after writing value %zu", k, i), 0, 0);
    ctx.cover("written");
    return;
  }
  const slide::MCMC_Record<2, 3> rec{ in, r };
  ctx.check(rec.size() == 10 && in.size() == 5, "P30/record", "sizes");
  const auto &cin = rec.input;
  const auto [x, ok] = val([&] { return cin[i]; });
  ctx.check(ok == (i < 5), "P30/record", fmt("reading value %zu of five", i));
  if (ok) ctx.near(x, all[i], "P30/record", fmt("value %zu of a candidate", i), 0, 0);
  if (i < 10) {
    const auto [y, good] = val([&] { return rec[i]; });
    ctx.check(good, "P30/record", fmt("value %zu of ten cannot be read", i));
    if (good) ctx.near(y, all[i], "P30/record", fmt("value %zu of a record", i), 0, 0);
  }
}

// ------------------------------------------------------------------------ norms ------
template <int N>
static void normN(Ctx &ctx, const std::vector<double> &v)
{
  double s = 0;
  for (double x : v) s += std::pow(std::abs(x), N);
  ctx.near(slide::norm_sq<N>(v), s, "P30/norm", fmt("sum of the powers %d of %zu numbers", N, v.size()), 1e-12, 1e-14);
  ctx.near(slide::norm<N>(v), std::pow(s, 1.0 / N), "P30/norm", fmt("norm %d of %zu numbers", N, v.size()), 1e-12, 1e-14);
}
static void norms(Ctx &ctx)
{
  std::vector<double> v(static_cast<size_t>(ctx.choose(5, "size")));
  for (auto &x : v) x = ctx.pick({ 0.0, 1.5, -2.0, 1e-3, -77.7 }, "number");
  normN<1>(ctx, v), normN<2>(ctx, v), normN<3>(ctx, v), normN<4>(ctx, v);
  std::array<double, 3> a{ 3, -4, 12 };
  ctx.near(slide::norm<2>(a), 13, "P30/norm", "norm of an array");
  ctx.cover("norm");
  ctx.state(v);
}

// ------------------------------------------------------------------------ units ------
static void units(Ctx &ctx)
{
  const double t = ctx.pick({ -273.0, -40.0, 0.0, 15.0, 25.5, 60.0, 1e3 }, "temperature");
  ctx.near(K_to_Celsius(C_to_Kelvin(t)), t, "P30/units", "degrees Celsius to Kelvin and back", 1e-12, 1e-10);
  ctx.near(C_to_Kelvin(t) - C_to_Kelvin(0), t, "P30/units", "a degree is a Kelvin", 1e-12, 1e-10);
  ctx.near(C_to_Kelvin(static_cast<int>(t)), C_to_Kelvin(static_cast<double>(static_cast<int>(t))), "P30/units", "whole degrees", 1e-12, 1e-10);
  if (t == 15) {
    const double I[] = { 2.5_kA, 2500.0_A, 2.5e6_mA, 2.5e9_uA }, V[] = { 0.0037_kV, 3.7_V, 3700.0_mV, 3.7e6_uV };
    for (double x : I) ctx.near(x, 2500, "P30/units", "current", 1e-14, 0);
    for (double x : V) ctx.near(x, 3.7, "P30/units", "voltage", 1e-14, 0);
    ctx.near(15_degC, C_to_Kelvin(15), "P30/units", "15 degrees", 0, 0);
    ctx.near(15.0_degC, C_to_Kelvin(15), "P30/units", "15.0 degrees", 0, 0);
    ctx.near(288_K, 288, "P30/units", "288 Kelvin", 0, 0);
    ctx.near(288.5_K, 288.5, "P30/units", "288.5 Kelvin", 0, 0);
    ctx.cover("units");
  }
}

int main(int argc, char **argv)
{
  return main_(argc, argv, { { "adapt", adapt }, { "likelihood", likelihood }, { "records", records }, { "norms", norms }, { "units", units } });
}
