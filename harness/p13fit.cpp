// P13, second part - the open circuit voltage fit examines its candidates in parallel: every
// schedule gives the outcome of one worker, and no two workers touch the same data.
#include "sched.hpp"
#include "procedures/determine_OCV.cpp"
using namespace H;

static void write(const std::string &p, const std::vector<double> &x, const std::vector<double> &y)
{
  std::ofstream o(p);
  o.precision(17);
  for (size_t i = 0; i < x.size(); i++) o << x[i] << ',' << y[i] << '\n';
}
static std::string text(const std::filesystem::path &p)
{
  std::ifstream i(p);
  return std::string(std::istreambuf_iterator<char>(i), {});
}
static void fit(Ctx &ctx)
{
  const auto d = workerDir + "/fit";
  std::filesystem::create_directories(d);
  PathVar::data = d;
  PathVar::results = d;
  const int k = ctx.choose(3, "cell");
  write(d + "/p.csv", { 0, 0.3, 0.5, 0.8, 1 }, { 4.7, 4.25, 3.95, 3.65, 2.9 });
  write(d + "/n.csv", { 0, 0.1, 0.35, 0.7, 1 }, { 1.3, 0.35, 0.18, 0.11, 0.04 });
  write(d + "/c.csv", { 0, 0.9, 2.1, 2.6 + 0.1 * k }, { 4.11, 3.83 - 0.05 * k, 3.52, 2.8 });
  const unsigned cores = ctx.pick({ 2u, 3u }, "processors");
  const int nA = 2 + ctx.choose(3, "values"), levels = 1 + ctx.choose(2, "levels");
  const double gp = 2.7 * 3600 / (96487 * 51385.0), gn = 2.7 * 3600 / (96487 * 30555.0);
  auto go = [&] {
    return slide::hierarchicalOCVfit(levels, slide::linspace_fix(1.2 * gp, 2.2 * gp, nA), slide::linspace_fix(1.1 * gn, 2.0 * gn, 3), slide::linspace_fix(0.2, 0.5, 3), slide::linspace_fix(0.5, 1.0, 3), "p.csv", "n.csv", "c.csv", 51385, 30555);
  };
  auto run = [&](unsigned c, bool mon, std::array<double, 4> &par, double &err, std::string &files, bool &joined, int &conflicts, char *rep, size_t nrep) {
    uint64_t acc = 0;
    std::filesystem::remove(d + "/OCVFit_0_param.csv");
    sched::begin(ctx, c, mon ? (ctx.thorough ? 2 : 1) : 0);
    if (mon) monBegin();
    std::tie(par, err) = go();
    conflicts = mon ? monEnd(rep, nrep, &acc) : 0;
    if (sched::g.created > 1) ctx.cover("fit in threads");
    joined = sched::end();
    if (acc > 100) ctx.cover("accesses monitored in the fit");
    files.clear();
    for (int h = 0; h < levels; h++) files += text(d + fmt("/OCVFit_%d_param.csv", h));
  };
  std::array<double, 4> p1{}, p2{};
  double e1 = 0, e2 = 0;
  std::string f1, f2;
  bool j1 = true, j2 = true;
  int c1 = 0, c2 = 0;
  char report[512]{};
  const auto w = fmt("fit with %d values, %d levels on %u processors", nA, levels, cores);
  run(cores, true, p1, e1, f1, j1, c1, report, sizeof report);
  run(1, false, p2, e2, f2, j2, c2, nullptr, 0);
  ctx.step("%s: error %g, one worker %g", w.c_str(), e1, e2);
  ctx.check(j1 && j2, "P13/late", w + ": workers still run after the fit returned");
  ctx.check(c1 == 0, "P13/conflict", w + ": " + report);
  ctx.check(p1 == p2 && e1 == e2, "P13/fit", w + fmt(": %.17g %.17g %.17g %.17g error %.17g, with one worker %.17g %.17g %.17g %.17g error %.17g", p1[0], p1[1], p1[2], p1[3], e1, p2[0], p2[1], p2[2], p2[3], e2));
  ctx.check(!f1.empty() && f1 == f2, "P13/fit", w + ": the files differ");
  ctx.state({ p1[0], p1[1], p1[2], p1[3], e1 });
}

int main(int argc, char **argv)
{
  return main_(argc, argv, { { "fit", fit } });
}
