// spmref.hpp - an independent reference implementation of the single particle model:
// own file reading, own interpolation, own equations (explicit Euler in the eigenbasis of the
// spectral discretisation shipped in data/Cheb_*.csv).
#pragma once
#include "common.hpp"

namespace ref {
using V = std::vector<double>;

inline V numbers(const std::string &name) // every number of a file, in order
{
  std::ifstream in(std::string(getenv("SLIDE_DATA")) + "/" + name);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string t = ss.str();
  V v;
  size_t p = 0;
  while (p < t.size()) {
    const char c = t[p];
    if (isdigit(static_cast<unsigned char>(c)) || c == '-' || c == '+' || c == '.') {
      char *e = nullptr;
      v.push_back(strtod(t.c_str() + p, &e));
      p = static_cast<size_t>(e - t.c_str());
    } else
      p++;
  }
  if (v.empty()) throw std::runtime_error("cannot read " + name);
  return v;
}
struct Curve
{
  V x, y;
  Curve() = default;
  explicit Curve(const std::string &name)
  {
    auto v = numbers(name);
    for (size_t i = 0; i + 1 < v.size(); i += 2) x.push_back(v[i]), y.push_back(v[i + 1]);
  }
  bool in(double q) const { return q >= x.front() && q <= x.back(); }
  double at(double q) const
  {
    for (size_t i = 0; i + 1 < x.size(); i++)
      if (q >= x[i] && q <= x[i + 1]) return y[i] + (q - x[i]) / (x[i + 1] - x[i]) * (y[i + 1] - y[i]);
    return NAN;
  }
};
struct Disc // spatial discretisation of one electrode
{
  V A, B, C, D, W;
  double R;
};
struct Data
{
  Disc p, n;
  V Cc, x, input;
  size_t ind;
  Data()
  {
    p = { numbers("Cheb_Ap.csv"), numbers("Cheb_Bp.csv"), numbers("Cheb_Cp.csv"), numbers("Cheb_Dp.csv"), numbers("Cheb_Vp.csv"), 8.5e-6 };
    n = { numbers("Cheb_An.csv"), numbers("Cheb_Bn.csv"), numbers("Cheb_Cn.csv"), numbers("Cheb_Dn.csv"), numbers("Cheb_Vn.csv"), 1.25e-5 };
    Cc = numbers("Cheb_Cc.csv");
    x = numbers("Cheb_Nodes.csv");
    input = numbers("Cheb_input.csv");
    ind = static_cast<size_t>(input[3]);
  }
  static const Data &get()
  {
    static Data d;
    return d;
  }
};

constexpr double F = 96487, Rg = 8.314, Tref = 298.0;

struct Spm
{
  // parameters
  double cap{ 16 }, S{ 0.62 }, rsei{ 2037.4 * 50 };
  double Cp{ 51385 }, Cn{ 30555 }, kp{ 5e-11 }, kn{ 1.764e-11 };
  Curve ocvp{ "Kokam_OCV_NMC.csv" }, ocvn{ "Kokam_OCV_C.csv" }, dtot{ "Kokam_entropic_cell.csv" };
  // state
  double I{ 0 }, T{ 288.0 }, SOC{ 0.5 }, t{ 0 }, Ah{ 0 }, Wh{ 0 };
  double delta{ 1e-9 }, thp{ 70e-6 }, thn{ 73.5e-6 }, ep{ 0.5 }, en{ 0.5 }, ap, an, Dp{ 8e-14 }, Dn{ 7e-14 }, rp{ 2.8e-3 }, rn{ 2.8e-3 }, rc{ 0.2325e-3 };
  V zp, zn;
  Spm()
  {
    areas();
    setC(0.689332, 0.479283);
  }
  void areas() { ap = 3 * ep / 8.5e-6, an = 3 * en / 1.25e-5; }
  void setC(double fp, double fn)
  {
    auto &d = Data::get();
    zp.assign(5, 0), zn.assign(5, 0);
    for (size_t i = 0; i < 5; i++) {
      zp[d.ind] += d.p.W[d.ind * 5 + i] * fp * Cp * d.x[i] * d.p.R;
      zn[d.ind] += d.n.W[d.ind * 5 + i] * fn * Cn * d.x[i] * d.n.R;
    }
    I = 0;
  }
  static double arrh(double E, double T) { return std::exp(E / Rg * (1 / Tref - 1 / T)); }
  double jp() const { return -I / S / (ap * F * thp); }
  double jn() const { return I / S / (an * F * thn); }
  double Dpt() const { return Dp * arrh(29000, T); }
  double Dnt() const { return Dn * arrh(7000, T); }
  // concentrations at surface, the five inner nodes and the centre; scale = size of the terms
  static V conc(const Disc &d, const V &z, double j, double Dt, double *scale = nullptr)
  {
    V c;
    double s = 0;
    for (size_t i = 0; i < 6; i++) {
      double v = d.D[i] * j / Dt;
      for (size_t k = 0; k < 5; k++) v += d.C[i * 5 + k] * z[k], s = std::max(s, std::abs(d.C[i * 5 + k] * z[k]));
      c.push_back(v);
    }
    double m = j * d.R / Dt;
    auto &Cc = Data::get().Cc;
    for (size_t i = 0; i < 6; i++) m += Cc[i] * c[i];
    c.push_back(-0.5 * m);
    if (scale) *scale = s;
    return c;
  }
  V cp(double *s = nullptr) const { return conc(Data::get().p, zp, jp(), Dpt(), s); }
  V cn(double *s = nullptr) const { return conc(Data::get().n, zn, jn(), Dnt(), s); }
  double R() const
  {
    return delta * rsei / (an * S * thn) + rp / (ap * S * thp) + rn / (an * S * thn) + rc / S;
  }
  bool inside() const
  {
    const double a = cp()[0] / Cp, b = cn()[0] / Cn;
    return a > 0 && a < 1 && b > 0 && b < 1;
  }
  double margin() const // distance of the surface fractions from the ends
  {
    const double a = cp()[0] / Cp, b = cn()[0] / Cn;
    return std::min({ std::abs(a), std::abs(1 - a), std::abs(b), std::abs(1 - b) });
  }
  double ocv() const { return ocvp.at(cp()[0] / Cp) - ocvn.at(cn()[0] / Cn) + (T - Tref) * dtot.at(cp()[0] / Cp); }
  double etap() const
  {
    const double c = cp()[0], i0 = kp * arrh(58000, T) * F * std::sqrt(1000 * c * (Cp - c));
    return 2 * Rg * T / F * std::asinh(-0.5 * I / S / (ap * thp) / i0);
  }
  double etan() const
  {
    const double c = cn()[0], i0 = kn * arrh(20000, T) * F * std::sqrt(1000 * c * (Cn - c));
    return 2 * Rg * T / F * std::asinh(0.5 * I / S / (an * thn) / i0);
  }
  double volt() const { return inside() ? ocv() + etap() - etan() - I * R() : 0; }
  double heat() const { return -I * T * dtot.at(cp()[0] / Cp) + I * (etan() - etap()) + I * I * R(); } // [W]
  void step(double dt)
  {
    auto &d = Data::get();
    const double a = jp(), b = jn(), dp = Dpt(), dn = Dnt();
    for (size_t k = 0; k < 5; k++) {
      zp[k] += dt * (dp * d.p.A[k] * zp[k] + d.p.B[k] * a);
      zn[k] += dt * (dn * d.n.A[k] * zn[k] + d.n.B[k] * b);
    }
    SOC -= I * dt / 3600 / cap;
    t += dt;
    Ah += std::abs(I * dt / 3600);
    Wh += std::abs(I * dt / 3600 * volt());
  }
};
} // namespace ref
