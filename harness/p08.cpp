// P08 - degradation acts only as configured, and only ever damages.
#include "spmref.hpp"
using namespace H;

// the ageing quantities of a cell
struct Age
{
  double delta, LLI, thp, thn, ep, en, ap, an, CS, Dp, Dn, pl, rp, rn, rc;
  double zn[5];
  double S; // electrode surface
};
static const char *ageName[] = { "SEI thickness", "lost lithium", "cathode thickness", "anode thickness", "cathode volume fraction", "anode volume fraction", "cathode area", "anode area", "crack surface", "cathode diffusivity", "anode diffusivity", "plated lithium", "cathode resistance", "anode resistance", "collector resistance", "zn0", "zn1", "zn2", "zn3", "zn4" };
enum { DELTA, LLI, THP, THN, EP, EN, AP, AN, CSU, DP, DN, PL, RP, RN, RC, ZN0, NAGE = 20 };
using Vec = std::array<double, NAGE>;
static Vec age(Cell_SPM *c)
{
  auto &s = c->getStateObj();
  return { s.delta(), s.LLI(), s.thickp(), s.thickn(), s.ep(), s.en(), s.ap(), s.an(), s.CS(), s.Dp(), s.Dn(), s.delta_pl(), s.rDCp(), s.rDCn(), s.rDCcc(), s.zn(0), s.zn(1), s.zn(2), s.zn(3), s.zn(4) };
}
// everything else
static std::vector<double> rest(Cell_SPM *c)
{
  auto &s = c->getStateObj();
  std::vector<double> v{ s.I(), s.T(), s.SOC(), s.time(), s.Ah() };
  for (size_t i = 0; i < 5; i++) v.push_back(s.zp(i));
  return v;
}
static std::string bits(int m, int n)
{
  std::string s;
  for (int i = 0; i < n; i++)
    if (m >> i & 1) s += static_cast<char>('1' + i);
  return s;
}
static bool has(const std::string &s, char c) { return s.find(c) != std::string::npos; }
static std::unique_ptr<Cell_SPM> cell(const Deg &g, double soc, double T, double fs = 1, double fl = 1, double capf = 1)
{
  std::unique_ptr<Cell_SPM> c(newSPMdeg(g, capf, 1, fs, fl, "c", soc));
  c->setT(T);
  return c;
}

// ------------------------------------------------------------- every combination ----
// all subsets of the 4 SEI, 5 crack, 4 material-loss and 1 plating models with both switches:
// one call from the same state; effects add up, only concerned quantities move.
static void combinations(Ctx &ctx)
{
  const int m1 = ctx.choose(16, "SEI models"), por = ctx.choose(2, "SEI porosity");
  // quick: crack and loss models all subsets, but not every pair of subsets
  int m2, csd, m3, pl;
  pl = ctx.choose(2, "plating");
  if (ctx.thorough) {
    m2 = ctx.choose(32, "crack models"), csd = ctx.choose(2, "crack diffusion"), m3 = ctx.choose(16, "loss models");
  } else if (ctx.choose(2, "vary") == 0) {
    m2 = ctx.choose(32, "crack models"), csd = ctx.choose(2, "crack diffusion"), m3 = 0;
  } else {
    m3 = ctx.choose(16, "loss models");
    m2 = ctx.pick({ 0, 31, 4 }, "crack models"), csd = 1;
  }
  struct At
  {
    double soc, T, I;
    int n;
  };
  const auto at = ctx.pick(std::vector<At>{ { 0.5, 298, 16, 10 }, { 0.9, 310, -24, 5 }, { 0.2, 283, 0, 3 } }, "condition");
  const Deg g{ bits(m1, 4), bits(m2, 5), bits(m3, 4), por, csd, pl };
  const auto w = g.str() + fmt(" at fraction %g, %g K, %g A: ", at.soc, at.T, at.I);
  auto run = [&](const Deg &d, Vec &change, std::vector<double> &r) {
    auto c = cell(d, at.soc, at.T);
    c->setCurrent(at.I, false, false);
    const auto a = age(c.get());
    c->timeStep_CC(1, at.n);
    const auto b = age(c.get());
    for (size_t i = 0; i < NAGE; i++) change[i] = b[i] - a[i];
    r = rest(c.get());
  };
  // the effects of each mechanism on its own, computed once
  static std::map<std::string, std::pair<Vec, std::vector<double>>> cache;
  auto single = [&](const Deg &d) -> std::pair<Vec, std::vector<double>> & {
    const auto k = d.str() + fmt("|%g|%g|%g|%d", at.soc, at.T, at.I, at.n);
    auto it = cache.find(k);
    if (it == cache.end()) {
      std::pair<Vec, std::vector<double>> p;
      run(d, p.first, p.second);
      it = cache.emplace(k, p).first;
    }
    return it->second;
  };
  try {
    const auto none = single({});
    Vec sum = none.first, ch;
    std::vector<double> r;
    auto add = [&](const Deg &d) {
      auto &s = single(d).first;
      for (size_t i = 0; i < NAGE; i++) sum[i] += s[i] - none.first[i];
    };
    for (char c : g.sei) add({ std::string(1, c) });
    for (char c : g.cs) add({ "", std::string(1, c) });
    for (char c : g.lam) add({ "", "", std::string(1, c) });
    if (pl) add({ "", "", "", 0, 0, 1 });
    // the porosity effect of an SEI current includes the reversible part once
    if (por) {
      const auto p0 = single({ "", "", "", 1 }).first;
      for (size_t i = 0; i < NAGE; i++) sum[i] += p0[i] - none.first[i];
      for (char c : g.sei) {
        const auto p1 = single({ std::string(1, c), "", "", 1 }).first, q1 = single({ std::string(1, c) }).first;
        for (size_t i = 0; i < NAGE; i++) sum[i] += (p1[i] - q1[i]) - (p0[i] - none.first[i]);
      }
    }
    // extra SEI growth on the cracks: proportional to the SEI current and the crack surface, once per crack model
    {
      auto c = cell(g, at.soc, at.T);
      const double ratio = c->getStateObj().CS() / c->getAnodeSurface() * static_cast<double>(g.cs.size());
      Vec s{};
      for (char x : g.sei) {
        const auto &p = single({ std::string(1, x) }).first;
        for (size_t i = 0; i < NAGE; i++) s[i] += p[i] - none.first[i];
      }
      sum[LLI] += ratio * s[LLI];
      for (size_t i = ZN0; i < NAGE; i++) sum[i] += ratio * s[i];
    }
    run(g, ch, r);
    ctx.step("%s", w.c_str());
    // the diffusivity follows from the total crack growth, with a cap
    if (csd) {
      auto c = cell(g, at.soc, at.T);
      const double Amax = std::max(5 * c->getAnodeSurface(), c->getStateObj().CS());
      const double rate = std::min(2e-7, 2 * (1 - c->getStateObj().CS() / Amax) / Amax * ch[CSU] / at.n);
      sum[DN] = -rate * c->getStateObj().Dn() * at.n;
    }
    const auto base = age(cell(g, at.soc, at.T).get());
    for (size_t i = 0; i < NAGE; i++) ctx.near(ch[i], sum[i], "P08/sum", w + "change of " + ageName[i], 1e-7, 1e-14 * std::abs(base[i]) + 1e-30);
    ctx.check(r == none.second, "P08/other", w + "ageing changes something else");
    // nothing that is not concerned moves
    auto same = [&](int i, bool moves) {
      if (!moves) ctx.near(ch[static_cast<size_t>(i)], none.first[static_cast<size_t>(i)], "P08/only", w + ageName[i] + " must not move", 0, 0);
    };
    const bool l1 = has(g.lam, '1'), l2 = has(g.lam, '2'), l3 = has(g.lam, '3'), l4 = has(g.lam, '4');
    same(DELTA, m1), same(LLI, m1 || pl), same(THP, l1), same(THN, l1), same(EP, l2 || l3 || l4), same(EN, l2 || l4 || por), same(AP, l2 || l3 || l4), same(AN, l2 || l4 || por);
    same(CSU, m2), same(DN, csd && m2), same(PL, pl);
    for (int i : { DP, RP, RN, RC }) ctx.near(ch[static_cast<size_t>(i)], 0, "P08/only", w + ageName[i] + " must not move", 0, 0);
    if (!m1 && !pl)
      for (int i = ZN0; i < NAGE; i++) same(i, false);
    // what is switched on does move
    if (m1) ctx.check(ch[DELTA] > 0 && ch[LLI] > 0, "P08/acts", w + "the SEI does not grow");
    if (pl) ctx.check(ch[PL] > 0 && ch[LLI] > 0, "P08/acts", w + "no lithium is plated");
    if (l4) ctx.check(ch[AP] < 0 && ch[AN] < 0, "P08/acts", w + "no active area is lost");
    if (l3) ctx.check(ch[EP] < 0, "P08/acts", w + "no cathode is lost");
    if (l2 && at.I != 0) ctx.check(ch[EP] < 0 && ch[EN] < 0, "P08/acts", w + "no active material is lost");
    ctx.state({ ch[DELTA], ch[LLI], ch[EP], ch[EN], ch[CSU], ch[DN], ch[PL], ch[THP] });
    ctx.cover(m1 && m2 && m3 && pl && por && csd ? "all kinds" : "some kinds");
  } catch (int x) {
    ctx.check(false, "P08/throws", w + fmt("throws %d", x));
  }
}

// ------------------------------------------------------- rates against the laws ------
// stress in a particle after Dai, Cai, White (2014), equation 13 and 31/33: k (2 <c>) etc., nodes from the surface to the centre
struct Dai
{
  std::vector<double> r, t, h;
  double max{ 0 }, scale{ 0 };
  Dai(const std::vector<double> &c, double omega, double E, double nu)
  {
    static const auto Q = ref::numbers("Cheb_Q.csv"); // Chebyshev integration matrix over [-1, x]
    auto &x = ref::Data::get().x;
    const int n = static_cast<int>(c.size()) - 1, N = 2 * n + 1; // n+1 nodes on each side, the centre is shared
    auto pos = [&](int i) { return i == 0 ? 1.0 : i == n ? 0.0 : x[static_cast<size_t>(i - 1)]; };
    auto at = [&](int j) { return j <= n ? j : 2 * n - j; }; // node of a symmetric pair
    auto prim = [&](int row) {
      double s = 0;
      for (int j = 0; j < N; j++) s += Q[static_cast<size_t>(row * N + j)] * c[static_cast<size_t>(at(j))] * pos(at(j)) * pos(at(j));
      return s;
    };
    const double F0 = prim(n), total = prim(N - 1) - F0;
    const double k = omega * E / (3 * (1 - nu));
    for (int i = 0; i <= n; i++) {
      const double ci = c[static_cast<size_t>(i)];
      scale = std::max(scale, std::abs(k * ci));
      if (i == n) {
        r.push_back(k * 2 / 3 * (3 * total - ci)), t.push_back(r.back());
      } else {
        const double part = (prim(2 * n - i) - F0) / std::pow(pos(i), 3);
        r.push_back(2 * k * (total - part)), t.push_back(k * (2 * total + part - ci));
      }
      h.push_back((r.back() + 2 * t.back()) / 3);
    }
    for (int i = n; i >= 0; i--)
      if (std::abs(h[static_cast<size_t>(i)]) > std::abs(max)) max = h[static_cast<size_t>(i)];
  }
  static Dai p(const ref::Spm &s) { return { s.cp(), 2.1e-6, 138.73, 0.3 }; }
  static Dai n(const ref::Spm &s) { return { s.cn(), 3.17e-6, 10, 0.3 }; }
};
struct Laws : ref::Spm // reference of the ageing models
{
  double LLIv{ 0 }, CS, pl{ 0 }, Amax, slares{ 0 }, sp{ 0 }, sn{ 0 };
  ref::Curve dn{ "Kokam_entropic_C.csv" };
  bool entropyAtZn{ false };
  Laws()
  {
    CS = 0.01 * an * S * thn;
    Amax = 5 * an * S * thn;
  }
  double lares() const
  {
    static const double y[] = { 0, 5.5, 8.5, 9.5, 10, 10, 10.5, 13, 16.5, 21, 23.5 };
    const double z = cn()[0] / Cn * 10;
    const int i = std::min(9, static_cast<int>(z));
    return y[i] + (z - i) * (y[i + 1] - y[i]);
  }
  // one call of n steps of dt
  void call(double dt, int n, const Deg &g) // NOLINT
  {
    for (int i = 0; i < n; i++) step(dt);
    using ref::F, ref::Rg, ref::Tref;
    const double tt = dt * n;
    const double arr = (1 / Tref - 1 / T) / Rg, f = F / (Rg * T);
    const double zs = cn()[0] / Cn, zps = cp()[0] / Cp;
    const double on = ocvn.at(zs) + (T - Tref) * dn.at(entropyAtZn ? zs : zps), eta = etan();
    const double film = rsei * delta * I;
    double isei = 0;
    for (char c : g.sei) {
      const double tafel = std::exp(-f * (on + eta - 0.4 + film)), ox = std::exp(-f * (on - 0.4));
      if (c == '1') isei += F * 0.075e-14 * std::exp(130e3 * arr) * tafel;
      if (c == '2') isei += 4.541e-3 / (1 / (F * 2.75e-11 * std::exp(130e3 * arr) * tafel) + delta / (F * 1.125e-14 * std::exp(20e3 * arr)));
      if (c == '3') isei += 0.134461 * std::exp(-f * (eta + film)) / (1 / (F * 1.1458e-15 * std::exp(65e3 * arr) * ox) + delta / (F * 0.25e-15 * std::exp(200e3 * arr)));
      if (c == '4') isei += 0.134461 * std::exp(-f * eta) / (1 / (F * 0.375e-14 * std::exp(130e3 / 1.5 * arr) * ox) + delta / (F * (0.5e-16 / 15) * std::exp(80e3 * arr)));
    }
    double dcs = 0, mult = 0;
    const double old = slares;
    if (has(g.cs, '1')) slares = lares();
    const double sp0 = sp, sn0 = sn;
    if (has(g.cs, '2') || has(g.lam, '1')) sp = Dai::p(*this).max, sn = Dai::n(*this).max;
    for (char c : g.cs) {
      if (c == '1') dcs += 4.25e-5 * std::sqrt(std::abs(slares - old) / tt);
      if (c == '2') dcs += 6.3e-7 * std::sqrt(std::abs(sn - sn0) / tt);
      if (c == '3') {
        const auto cc = cn();
        dcs += 2.31e-16 * std::pow((cc[0] - cc[6]) / Cn, 2);
      }
      if (c == '4') dcs += 4.3306e-8 * (std::max(Amax, CS) - CS) * std::abs(I);
      if (c == '5' && I <= 0) {
        const double k = 1e-18 * std::exp(-127040 * arr) * (zs < 0.3 ? 2 : zs < 0.7 ? 0 : 1);
        dcs += F * k * std::exp(-f * (on + eta - 0.4 + film));
      }
      mult += CS / (an * S * thn);
    }
    double dep = 0, den = 0, dthp = 0, dthn = 0;
    for (char c : g.lam) {
      if (c == '1') dthp -= 3.4985e-10 * std::abs(sp - sp0) / tt, dthn -= 1.176e-8 * std::abs(sn - sn0) / tt;
      if (c == '2') dep += -1.675e-5 * std::exp(54611 * arr) * std::abs(jp()), den += -1.675e-5 * std::exp(54611 * arr) * std::abs(jn());
      if (c == '3') dep += std::max(-5e-6, -12.5e-6 * std::exp(27305 * arr) * std::exp(f * (ocvp.at(zps) + etap() - 4.1)) / F);
      if (c == '4') dep += -8.3333e-9 * ep, den += -8.3333e-9 * en;
    }
    if (g.por) den += -3 * 7.5e-7 * (jn() * 13 + isei * 64.39);
    const double ipl = g.pl ? F * 4.5e-10 * std::exp(-2.014008e5 * arr) * std::exp(-f * (on + eta + film)) : 0;
    const double dDn = g.csd ? std::min(2e-7, 2 * (1 - CS / std::max(Amax, CS)) / std::max(Amax, CS) * dcs) * Dn : 0;
    const double side = isei * (1 + mult) + ipl;
    LLIv += tt * side * S * thn * an;
    for (size_t k = 0; k < 5; k++) zn[k] += tt * ref::Data::get().n.B[k] * side / F;
    delta += tt * isei / (F * 100e3);
    CS += tt * dcs;
    Dn -= tt * dDn;
    ep += tt * dep, en += tt * den;
    thp += tt * dthp, thn += tt * dthn;
    ap = 3 * ep / 8.5e-6, an = 3 * en / 1.25e-5;
    pl += tt * ipl / (F * 10e6);
  }
};
static void laws(Ctx &ctx)
{
  // one model of each kind or none
  Deg g;
  const int sei = ctx.choose(5, "SEI model"), cs = ctx.choose(6, "crack model"), lam = ctx.choose(5, "loss model");
  if (sei) g.sei = std::string(1, static_cast<char>('0' + sei));
  if (cs) g.cs = std::string(1, static_cast<char>('0' + cs));
  if (lam) g.lam = std::string(1, static_cast<char>('1' + lam));
  g.por = ctx.choose(2, "SEI porosity");
  g.csd = cs ? ctx.choose(2, "crack diffusion") : 0;
  g.pl = ctx.choose(2, "plating");
  const bool hot = g.lam == "3" && ctx.flag("hot"); // nearly full, hot and charged quickly
  const double soc = hot ? 0.97 : ctx.thorough ? ctx.pick({ 0.5, 0.85, 0.15 }, "start") : ctx.pick({ 0.5, 0.85 }, "start");
  const double T = hot ? 331.0 : ctx.pick({ 298.0, 288.0, 313.0 }, "temperature");
  const int used = soc == 0.5 && T == 298 ? ctx.choose(3, "age") : 0; // fresh, used, with more cracks than the models expect
  auto c = cell(g, soc, T);
  Laws a, b;
  if (used) {
    for (auto l : { &a, &b }) {
      l->delta *= 4, l->LLIv = 321, l->ep *= 0.93, l->en *= 0.95, l->ap = 3 * l->ep / 8.5e-6, l->an = 3 * l->en / 1.25e-5;
      l->Dn *= 0.85, l->Dp *= 0.9, l->pl = 2e-10;
      l->CS = (used == 1 ? 0.5 : 5.5) * l->an * l->S * l->thn;
    }
    auto &s = c->getStateObj();
    s.delta() = a.delta, s.LLI() = a.LLIv, s.ep() = a.ep, s.en() = a.en, s.ap() = a.ap, s.an() = a.an, s.Dn() = a.Dn, s.Dp() = a.Dp, s.delta_pl() = a.pl, s.CS() = a.CS;
    auto st = statesOf(c.get());
    std::span<double> sp{ st };
    ctx.check(!isStatusBad(c->setStates(sp, false, false)), "P08/valid", "a used cell is refused");
    ctx.cover("used cell");
  }
  const Laws f = a;
  double fp, fn;
  if (soc != 0.5) {
    spmFractions(soc, fp, fn);
    for (auto l : { &a, &b }) l->setC(fp, fn), l->SOC = soc;
  }
  a.T = b.T = T;
  b.entropyAtZn = true;
  bool okA = true, okB = true;
  const int depth = ctx.thorough ? 3 : 2;
  for (int d = 0; d < depth; d++) {
    const double I = hot ? ctx.pick({ 16.0, -160.0, -250.0, -320.0 }, "current") : ctx.pick({ 16.0, -16.0, 0.0, -48.0 }, "current");
    // a gradient that reaches the centre of the particle, for the crack model that looks at the centre
    const bool deep = g.cs == "3" && !g.lam.size() && !g.pl && d % 2 == 0 && I != 0 && std::abs(I) < 20;
    const int n = deep ? 400 : d % 2 ? 1 : hot ? 2 : 20;
    const double dt = deep || d % 2 ? 2 : 1;
    a.I = b.I = I;
    c->setCurrent(I, false, false);
    try {
      c->timeStep_CC(dt, n);
    } catch (int x) {
      ctx.step("throws %d", x);
      return;
    }
    a.call(dt, n, g), b.call(dt, n, g);
    ctx.step("%g A %g s x%d", I, dt, n);
    auto cmp = [&](Laws &l, std::string &why) {
      const auto v = age(c.get());
      const double r[] = { l.delta, l.LLIv, l.thp, l.thn, l.ep, l.en, l.ap, l.an, l.CS, l.Dp, l.Dn, l.pl, l.rp, l.rn, l.rc, l.zn[0], l.zn[1], l.zn[2], l.zn[3], l.zn[4] };
      const double r0[] = { f.delta, f.LLIv, f.thp, f.thn, f.ep, f.en, f.ap, f.an, f.CS, f.Dp, f.Dn, f.pl, f.rp, f.rn, f.rc, 0, 0, 0, 0, 0 };
      for (size_t i = 0; i < NAGE; i++) {
        // the change since the start must agree
        const double ref = r[i] - r0[i], got = v[i] - r0[i];
        // the square root of a stress that does not change magnifies its rounding
        const double noise = !has(g.cs, '2') ? 0 : i == CSU ? 2e-12 * (d + 1) : i == DN ? 1e-12 * std::abs(r0[i]) : 0;
        if (!Ctx::close(got, ref, 1e-6, 1e-13 * std::abs(r0[i]) + noise + (i >= ZN0 ? 1e-11 : 1e-30))) {
          why = fmt("%s changed by %.10g, the laws give %.10g", ageName[i], got, ref);
          return false;
        }
      }
      return true;
    };
    std::string wa, wb;
    okA = okA && cmp(a, wa);
    okB = okB && cmp(b, wb);
    ctx.check(okA || okB, "P08/laws", g.str() + fmt(" from fraction %g at %g K, %g A for %g s: ", soc, T, I, dt * n) + (wa.empty() ? wb : wa));
    auto v = age(c.get());
    ctx.state({ v[DELTA], v[LLI], v[EP], v[EN], v[CSU], v[DN], v[PL], v[ZN0] });
    ctx.cover("laws");
    if (hot && age(c.get())[EP] < f.ep - 2e-6) ctx.cover("fast dissolution");
  }
}

// stress at every node of both particles, in every state reached
static void stress(Ctx &ctx)
{
  Deg g;
  if (ctx.flag("used by a model")) g.lam = "1";
  const double soc = ctx.pick({ 0.5, 0.85, 0.15 }, "start"), T = ctx.pick({ 298.0, 285.0, 318.0 }, "temperature");
  auto c = cell(g, soc, T);
  c->setBlockDegAndTherm(true);
  ref::Spm r;
  double fp, fn;
  if (soc != 0.5) spmFractions(soc, fp, fn), r.setC(fp, fn);
  r.T = T;
  const int depth = ctx.thorough ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    const double I = ctx.pick({ 16.0, -16.0, 0.0, -37.7, 5.3 }, "current");
    const int n = ctx.pick({ 1, 20, 700 }, "steps");
    r.I = I;
    c->setCurrent(I, false, false);
    c->timeStep_CC(2, n);
    for (int i = 0; i < n; i++) r.step(2);
    ctx.step("%g A 2 s x%d", I, n);
    if (!r.inside()) return;
    double p = 1, q = 1; // the outputs need not be cleared by the caller
    Cell_SPM::sigma_type rp, rn, tp, tn, hp, hn;
    c->getDaiStress(&p, &q, rp, rn, tp, tn, hp, hn);
    const Dai a = Dai::p(r), b = Dai::n(r);
    auto cmp = [&](const Cell_SPM::sigma_type &v, const std::vector<double> &w, double sc, const char *what) {
      for (size_t i = 0; i < w.size(); i++) {
        ctx.checks++;
        if (!Ctx::close(v[i], w[i], 1e-7, 1e-9 * sc)) ctx.fail("P08/stress", fmt("%s stress at node %zu is %.12g, expected %.12g (%g A, %d steps, %g K)", what, i, v[i], w[i], I, n, T));
      }
    };
    cmp(rp, a.r, a.scale, "radial cathode"), cmp(tp, a.t, a.scale, "tangential cathode"), cmp(hp, a.h, a.scale, "hydrostatic cathode");
    cmp(rn, b.r, b.scale, "radial anode"), cmp(tn, b.t, b.scale, "tangential anode"), cmp(hn, b.h, b.scale, "hydrostatic anode");
    ctx.near(p, a.max, "P08/stress", "largest cathode stress", 1e-7, 1e-9 * a.scale);
    ctx.near(q, b.max, "P08/stress", "largest anode stress", 1e-7, 1e-9 * b.scale);
    if (p * q < 0) ctx.cover("stress of both signs");
    ctx.state({ p, q, I });
  }
}

// ------------------------------------------------------------- along histories -------
static void histories(Ctx &ctx)
{
  static const std::vector<Deg> gs{ { "", "", "", 0, 0, 0 }, { "1" }, { "3", "", "", 1 }, { "", "1", "", 0, 1 }, { "", "2" }, { "4", "3", "", 0, 1 }, { "", "4", "", 0, 1 }, { "2", "5", "", 0, 1 }, { "", "", "1" }, { "", "", "2" }, { "", "", "3" }, { "", "", "4" }, { "", "", "", 0, 0, 1 }, { "1234", "12345", "1234", 1, 1, 1 }, { "11", "44", "22" } };
  const auto g = gs[static_cast<size_t>(ctx.choose(static_cast<int>(gs.size()), "models"))];
  const double soc = ctx.pick({ 0.5, 0.2, 0.85 }, "start");
  auto c = cell(g, soc, 298);
  bool blocked = false;
  const int depth = ctx.thorough ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(8, "operation");
    const auto a = age(c.get());
    try {
      if (op < 3) {
        c->setCurrent(std::vector<double>{ 16, -24, 0 }[static_cast<size_t>(op)], false, false);
        ctx.step("current %g", c->I());
      } else if (op == 3) {
        c->setT(c->T() > 290 ? 280.141592654 : 315.271828183);
        ctx.step("temperature %g", c->T());
      } else if (op == 4) {
        blocked = !blocked;
        c->setBlockDegAndTherm(blocked);
        ctx.step("blocked %d", blocked);
      } else {
        c->timeStep_CC(op == 5 ? 1 : 2, std::vector<int>{ 1, 30, 5 }[static_cast<size_t>(op - 5)]);
        ctx.step("step");
      }
    } catch (int x) {
      ctx.step("throws %d", x);
      return;
    }
    const auto b = age(c.get());
    const auto w = g.str() + fmt(" from fraction %g at %g A: ", soc, c->I());
    const bool none = g.sei.empty() && g.cs.empty() && g.lam.empty() && !g.pl && !g.por;
    const bool quiet = op < 5 || blocked || none;
    for (size_t i = 0; i < ZN0; i++) {
      const auto q = w + ageName[i] + fmt(" went from %.17g to %.17g", a[i], b[i]);
      if (quiet) ctx.check(a[i] == b[i], blocked ? "P08/blocked" : "P08/idle", q);
      else if (i == DELTA || i == LLI || i == CSU || i == PL)
        ctx.check(b[i] >= a[i], "P08/monotone", q);
      else if ((i == EN || i == AN) && g.por && c->I() < 0)
        ctx.cover("reversible porosity");
      else if (i <= AN || i == DN)
        ctx.check(b[i] <= a[i], "P08/monotone", q);
      else
        ctx.check(b[i] == a[i], "P08/constant", q);
    }
    ctx.near(b[AP], 3 * b[EP] / 8.5e-6, "P08/area", w + "cathode area", 1e-9, 0);
    ctx.near(b[AN], 3 * b[EN] / 1.25e-5, "P08/area", w + "anode area", 1e-9, 0);
    if (op >= 5) ctx.cover(quiet ? "no ageing" : "ageing");
    ctx.state(std::vector<double>(b.begin(), b.end()));
  }
  // an aged cell is a valid cell and its own states can be loaded
  if (!g.lam.empty()) {
    c->setCurrent(0, false, false);
    try {
      if (!blocked)
        for (int k = 0; k < 30; k++) c->timeStep_CC(2, 60);
      double ps, ns;
      const bool fine = c->getCSurf(ps, ns, false);
      if (fine) {
        ctx.check(c->validStates(false), "P08/valid", g.str() + ": an aged cell is not valid");
        auto s = statesOf(c.get());
        std::span<double> sp(s);
        const auto st = c->setStates(sp, false, false);
        ctx.check(!isStatusBad(st), "P08/valid", g.str() + fmt(": the states of an aged cell are refused with %d", static_cast<int>(st)));
        ctx.cover("aged cell valid");
      }
    } catch (int x) {
      ctx.step("throws %d", x);
    }
  }
}

// ------------------------------------------------------------------ factors ----------
static void factors(Ctx &ctx)
{
  const double fs = ctx.pick({ 1.0, 2.0, 0.5, 1.25 }, "SEI factor"), fl = ctx.pick({ 1.0, 3.0, 0.75 }, "loss factor");
  Deg g;
  const int k = ctx.choose(15, "model");
  if (k < 4) g.sei = std::string(1, static_cast<char>('1' + k));
  else if (k < 9)
    g.cs = std::string(1, static_cast<char>('1' + k - 4));
  else if (k < 13)
    g.lam = std::string(1, static_cast<char>('1' + k - 9));
  else if (k == 13)
    g.pl = 1;
  else
    g = { "12", "4", "24", 0, 0, 1 };
  const double capf = ctx.pick({ 1.0, 0.8 }, "capacity factor"), resf = ctx.pick({ 1.0, 1.3 }, "resistance factor");
  const double T = ctx.pick({ 298.0, 283.0, 315.0 }, "temperature");
  const double I = ctx.pick({ 8.0, -8.0, 0.0 }, "current");
  const double soc = ctx.pick({ 0.5, 0.2 }, "start");
  std::unique_ptr<Cell_SPM> a(newSPMdeg(g, capf, resf, 1, 1, "c", soc)), b(newSPMdeg(g, capf, resf, fs, fl, "c", soc));
  const auto v = b->getVariations();
  const auto w = g.str() + fmt(" factors %g %g, capacity %g, resistance %g, %g K, %g A: ", fs, fl, capf, resf, T, I);
  ctx.check(v == std::array<double, 4>{ capf, resf, fs, fl }, "P08/variations", w + fmt("reported as %g %g %g %g", v[0], v[1], v[2], v[3]));
  ctx.near(b->Cap(), 16 * capf, "P08/variations", w + "capacity", 1e-12, 0);
  ctx.near(b->getStateObj().rDCp(), 2.8e-3 * resf, "P08/variations", w + "cathode resistance", 1e-12, 0);
  ctx.near(b->getStateObj().rDCn(), 2.8e-3 * resf, "P08/variations", w + "anode resistance", 1e-12, 0);
  ctx.near(b->getStateObj().rDCcc(), 0.2325e-3 * resf, "P08/variations", w + "collector resistance", 1e-12, 0);
  ctx.near(b->getAnodeSurface(), a->getAnodeSurface(), "P08/variations", w + "anode surface", 1e-12, 0);
  Vec da, db;
  for (auto c : { a.get(), b.get() }) {
    c->setT(T);
    c->setCurrent(I, false, false);
    const auto x = age(c);
    try {
      c->timeStep_CC(1, 5);
    } catch (int e) {
      ctx.check(false, "P08/throws", w + fmt("throws %d", e));
    }
    const auto y = age(c);
    auto &d = c == a.get() ? da : db;
    for (size_t i = 0; i < ZN0; i++) d[i] = y[i] - x[i];
  }
  ctx.step("%s", w.c_str());
  const bool capped = g.lam == "3" && std::max(std::abs(da[EP]), std::abs(db[EP])) > 4.9e-6 * 5;
  for (size_t i = 0; i < ZN0; i++) {
    double f = 1;
    if (i == DELTA || i == LLI || i == CSU || i == PL) f = fs;
    if (i == THP || i == THN || i == EP || i == EN || i == AP || i == AN) f = fl;
    // several kinds together couple through the changed geometry only in the next call
    if (!capped) ctx.near(db[i], f * da[i], "P08/factor", w + "change of " + ageName[i], 1e-7, 1e-14 * std::abs(age(a.get())[i]) + 1e-30);
  }
  if (fs != 1) ctx.cover("SEI factor");
  if (fl != 1) ctx.cover("loss factor");
  ctx.state({ db[DELTA], db[LLI], db[CSU], db[PL], db[EP], db[AN], db[THP], fs, fl });
}

// ------------------------------------------------------------ unknown mechanisms -----
static void unknown(Ctx &ctx)
{
  Deg g;
  const int kind = ctx.choose(6, "kind");
  const int id = ctx.choose(ctx.thorough ? 250 : 12, "identifier");
  const int at = ctx.choose(3, "position");
  const int limit[] = { 4, 5, 4, 1, 1, 1 };
  DEG_ID d;
  auto lists = [&](DEG_ID::DegArray &l, int valid) {
    for (int i = 0; i < 3; i++) l.add_model(static_cast<DEG_ID::data_t>(i == at ? id : valid));
  };
  if (kind == 0) lists(d.SEI_id, 1);
  if (kind == 1) lists(d.CS_id, 3);
  if (kind == 2) lists(d.LAM_id, 4);
  if (kind == 3) d.SEI_porosity = static_cast<DEG_ID::data_t>(id);
  if (kind == 4) d.CS_diffusion = static_cast<DEG_ID::data_t>(id);
  if (kind == 5) d.pl_id = static_cast<DEG_ID::data_t>(id);
  Cell_SPM c("c", d, 1, 1, 1, 1);
  c.setCurrent(5, false, false);
  int e = 0;
  try {
    c.timeStep_CC(1, 1);
  } catch (int x) {
    e = x;
  }
  ctx.step("kind %d, identifier %d at %d: %d", kind, id, at, e);
  ctx.check((e != 0) == (id > limit[kind]), "P08/unknown", fmt("kind %d, model %d at position %d: error %d", kind, id, at, e));
  if (e) ctx.cover("unknown model refused");
  ctx.state({ static_cast<double>(kind), static_cast<double>(id), static_cast<double>(e) });
}

// -------------------------------------------------------------- packs, blocking ------
static void packs(Ctx &ctx)
{
  static const std::vector<std::string> ps{ "s(D50,D60)", "s(s(D50,M40),D60)", "p(D50,D50)", "s(p(D50,D51),s(D40,D60))", "b2x2:s(D50,s(D60,D40))", "s(s(s(D50)))" };
  const auto e = ps[static_cast<size_t>(ctx.choose(static_cast<int>(ps.size()), "pack"))];
  auto u = build(e);
  const auto ns = nodes(u.get());
  const auto ls = leaves(u.get());
  std::map<SU *, bool> blocked;
  u->setCurrent(0, false, false);
  auto under = [&](SU *top, SU *c) {
    const auto v = nodes(top);
    return std::find(v.begin(), v.end(), c) != v.end();
  };
  const int depth = ctx.thorough ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    const int op = ctx.choose(4, "operation");
    try {
      if (op == 0) {
        const int k = ctx.choose(static_cast<int>(ns.size()), "node");
        const bool b = ctx.flag("block");
        ns[static_cast<size_t>(k)]->setBlockDegAndTherm(b);
        for (auto c : ls)
          if (under(ns[static_cast<size_t>(k)], c)) blocked[c] = b;
        ctx.step("block %s %d", ns[static_cast<size_t>(k)]->getID().c_str(), b);
        continue;
      }
      if (op == 1) {
        u->setCurrent(u->I() > 0 ? -10 : 12, false, false);
        ctx.step("current %g", u->I());
        continue;
      }
      std::vector<Vec> a;
      for (auto c : ls) a.push_back(age(dynamic_cast<Cell_SPM *>(c)));
      u->timeStep_CC(1, op == 2 ? 1 : 20);
      ctx.step("step");
      for (size_t i = 0; i < ls.size(); i++) {
        const auto b = age(dynamic_cast<Cell_SPM *>(ls[i]));
        const bool moved = !std::equal(b.begin(), b.begin() + ZN0, a[i].begin());
        const bool may = !blocked[ls[i]] && ls[i]->getID()[0] == 'd';
        ctx.check(moved == may, "P08/pack", e + fmt(": cell %zu ", i) + (moved ? "aged although it is blocked" : "does not age although nothing blocks it"));
        ctx.cover(may ? "pack ages" : "pack blocked");
      }
    } catch (int x) {
      ctx.step("throws %d", x);
      return;
    }
    ctx.state(observe(u.get()).v);
  }
}

int main(int argc, char **argv)
{
  return main_(argc, argv, { { "combinations", combinations }, { "laws", laws }, { "stress", stress }, { "histories", histories }, { "factors", factors }, { "unknown", unknown }, { "packs", packs } });
}
