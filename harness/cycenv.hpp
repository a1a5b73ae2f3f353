// cycenv.hpp - an environment for the cycler: a storage unit whose every reaction is either
// decided by the explorer (EnvSU: nondeterministic environment), or produced by a real unit
// while everything the cycler does to it is recorded (SpySU).
#pragma once
#include "common.hpp"

namespace H {

struct Ev
{
  enum K { SetI, SetV, Step, Store, Write, CheckV, SetStates } k;
  double a{ 0 };          // current / voltage / dt
  int n{ 0 };             // number of steps
  Status st{ Status::Success };
  bool threw{ false };
  double t{ 0 };          // clock of the unit afterwards
  double V0{ 0 }, V1{ 0 }; // voltage before and after
  double I0{ 0 }, I1{ 0 }; // current before and after
};

// common part: clock, log
struct LogSU : public StorageUnit
{
  std::vector<Ev> log;
  double clock{ 0 }, Ah{ 0 }, WhLo{ 0 }, WhHi{ 0 }; // what the unit really experienced
  size_t maxLog{ 2000000 };
  LogSU(const std::string &id) : StorageUnit(id) {}
  void push(const Ev &e)
  {
    log.push_back(e);
    if (log.size() > maxLog) throw mc::Violation{ "P14/endless", "the cycler keeps going without reaching any limit" };
  }
  void experienced(double dt, int n, double I, double V0, double V1)
  {
    const double t = dt * n;
    clock += t;
    const double q = std::abs(I) * t / 3600;
    Ah += q;
    WhLo += q * std::min(V0, V1);
    WhHi += q * std::max(V0, V1);
  }
};

// a real unit, watched
struct SpySU : public LogSU
{
  StorageUnit *u;
  int failStepAt{ -1 }, steps{ 0 };          // fault injection: time step number k throws
  int failCurAt{ -1 }, curs{ 0 };            // setCurrent number k is refused
  std::vector<std::vector<double>> stored;   // (clock, V, I) at every data point
  explicit SpySU(StorageUnit *x) : LogSU(x->getID()), u(x) {}
  double Cap() const override { return u->Cap(); }
  double I() const override { return u->I(); }
  double getRtot() override { return u->getRtot(); }
  size_t getNcells() override { return u->getNcells(); }
  void getStates(getStates_t s) override { u->getStates(s); }
  void setBlockDegAndTherm(bool b) override { blockDegAndTherm = b; u->setBlockDegAndTherm(b); }
  Status setCurrent(double In, bool c = true, bool p = true) override
  {
    Ev e{ Ev::SetI, In };
    e.V0 = safeV(u);
    e.I0 = u->I();
    if (curs++ == failCurAt)
      e.st = Status::ParallelUnit_failed;
    else
      e.st = u->setCurrent(In, c, false);
    (void)p;
    e.I1 = u->I();
    e.V1 = safeV(u);
    e.t = clock;
    push(e);
    return e.st;
  }
  Status setVoltage(double Vn, bool c = true, bool p = true) override
  {
    Ev e{ Ev::SetV, Vn };
    e.V0 = safeV(u);
    e.I0 = u->I();
    if (curs++ == failCurAt)
      e.st = Status::RedistributeCurrent_failed;
    else
      e.st = u->setVoltage(Vn, c, p);
    e.I1 = u->I();
    e.V1 = safeV(u);
    e.t = clock;
    push(e);
    return e.st;
  }
  Status setStates(setStates_t s, bool c = true, bool p = true) override
  {
    Ev e{ Ev::SetStates };
    e.st = u->setStates(s, c, p);
    push(e);
    return e.st;
  }
  double getOCV() override { return u->getOCV(); }
  double V() override { return u->V(); }
  Status checkVoltage(double &v, bool) noexcept override { return u->checkVoltage(v, false); }
  double getVhigh() override { return u->getVhigh(); }
  double getVlow() override { return u->getVlow(); }
  double Vmin() const override { return u->Vmin(); }
  double VMIN() const override { return u->VMIN(); }
  double Vmax() const override { return u->Vmax(); }
  double VMAX() const override { return u->VMAX(); }
  double T() override { return u->T(); }
  double getThotSpot() override { return u->getThotSpot(); }
  double getThermalSurface() override { return u->getThermalSurface(); }
  double thermalModel(int n, double *T_, double *K_, double *A_, double tim) override { return u->thermalModel(n, T_, K_, A_, tim); }
  void setT(double x) override { u->setT(x); }
  bool validStates(bool p = true) override { return u->validStates(p); }
  StorageUnit *copy() override { return new SpySU(u->copy()); }
  void timeStep_CC(double dt, int n = 1) override
  {
    Ev e{ Ev::Step, dt, n };
    e.I0 = u->I();
    e.V0 = safeV(u);
    if (steps++ == failStepAt) {
      e.threw = true;
      e.t = clock;
      push(e);
      throw 77;
    }
    u->timeStep_CC(dt, n);
    e.I1 = u->I();
    e.V1 = safeV(u);
    experienced(dt, n, e.I0, e.V0, e.V1);
    e.t = clock;
    push(e);
  }
  void storeData() override
  {
    Ev e{ Ev::Store };
    e.t = clock;
    stored.push_back({ clock, safeV(u), u->I() });
    push(e);
  }
  void writeData(const std::string &) override { push({ Ev::Write }); }
};

// an environment whose reactions the explorer decides
struct EnvSU : public LogSU
{
  Ctx &ctx;
  double cur{ 0 }, v{ 3.5 };
  std::vector<double> levels{ 3.5 };                // voltages it can take after anything happens
  std::vector<double> levelsSet;                    // after setting a current (default: the same)
  bool monotone{ false };                           // charging never lowers the voltage (real diffusion does not either)
  bool mayThrow{ false }, mayRefuse{ false };       // faults
  bool cvExact{ true };                             // setVoltage reaches its voltage
  std::vector<double> cvCurrents{ 1 };              // currents a set voltage can lead to
  double vmin{ 2.7 }, vMIN{ 2.0 }, vmax{ 4.2 }, vMAX{ 4.3 };
  bool cellLimits{ false };                         // checkVoltage may report a cell that violates its limits
  int faults{ 0 };
  explicit EnvSU(Ctx &c) : LogSU("env"), ctx(c) {}
  double pickV(const std::vector<double> &l, const char *w) { return l[static_cast<size_t>(ctx.choose(static_cast<int>(l.size()), w))]; }
  double Cap() const override { return 16; }
  double I() const override { return cur; }
  double getRtot() override { return 0; }
  size_t getNcells() override { return 1; }
  void getStates(getStates_t s) override { s.push_back(clock); s.push_back(cur); s.push_back(v); }
  Status setCurrent(double In, bool check = true, bool = true) override
  {
    Ev e{ Ev::SetI, In };
    e.V0 = v;
    e.I0 = cur;
    if (In != cur) {
      // note: a refused current leaves the unit as it was, apart from voltage-limit verdicts, which do not
      if (mayRefuse && faults == 0) {
        const int k = ctx.choose(check ? 3 : 2, "setCurrent verdict");
        if (k == 1) {
          faults++;
          e.st = Status::ParallelUnit_failed;
        } else if (k == 2) {
          faults++;
          e.st = In > 0 ? Status::Vmin_violation : Status::Vmax_violation;
        }
      }
      if (e.st != Status::ParallelUnit_failed) {
        cur = In;
        v = pickV(levelsSet.empty() ? levels : levelsSet, "V after setCurrent");
      }
    }
    e.I1 = cur;
    e.V1 = v;
    e.t = clock;
    push(e);
    return e.st;
  }
  Status setVoltage(double Vn, bool = true, bool = true) override
  {
    Ev e{ Ev::SetV, Vn };
    e.V0 = v;
    e.I0 = cur;
    if (mayRefuse && faults == 0 && ctx.flag("setVoltage fails")) {
      faults++;
      e.st = Status::RedistributeCurrent_failed;
    } else {
      v = Vn;
      cur = cvCurrents[static_cast<size_t>(ctx.choose(static_cast<int>(cvCurrents.size()), "I after setVoltage"))];
    }
    e.I1 = cur;
    e.V1 = v;
    e.t = clock;
    push(e);
    return e.st;
  }
  Status setStates(setStates_t, bool = true, bool = true) override { return Status::Success; }
  double getOCV() override { return v; }
  double V() override { return v; }
  Status cellVerdict{ Status::Success };
  Status checkVoltage(double &x, bool) noexcept override
  {
    x = v;
    if (v <= 0) return Status::V_not_calculated;
    if (cellVerdict != Status::Success) return cellVerdict;
    if (v < vMIN && cur > 0) return Status::VMIN_violation;
    if (v > vMAX && cur < 0) return Status::VMAX_violation;
    if (v < vmin - 0.01 && cur > 0) return Status::Vmin_violation;
    if (v > vmax + 0.01 && cur < 0) return Status::Vmax_violation;
    return Status::Success;
  }
  double getVhigh() override { return v; }
  double getVlow() override { return v; }
  double Vmin() const override { return vmin; }
  double VMIN() const override { return vMIN; }
  double Vmax() const override { return vmax; }
  double VMAX() const override { return vMAX; }
  double T() override { return 288; }
  double getThotSpot() override { return 288; }
  double getThermalSurface() override { return 1; }
  double thermalModel(int, double *, double *, double *, double) override { return 288; }
  void setT(double) override {}
  bool validStates(bool = true) override { return true; }
  StorageUnit *copy() override { return nullptr; }
  void timeStep_CC(double dt, int n = 1) override
  {
    Ev e{ Ev::Step, dt, n };
    e.I0 = cur;
    e.V0 = v;
    if (mayThrow && faults == 0 && ctx.flag("time step throws")) {
      faults++;
      e.threw = true;
      e.t = clock;
      push(e);
      throw 77;
    }
    std::vector<double> l;
    for (double x : levels)
      if (!monotone || cur == 0 || (cur < 0 ? x >= v : x <= v) || x <= 0) l.push_back(x);
    v = pickV(l, "V after a time step");
    if (cellLimits && faults == 0 && cur != 0 && v > 0 && ctx.flag("a cell violates its limits")) {
      faults++;
      cellVerdict = cur > 0 ? Status::Vmin_violation : Status::Vmax_violation;
    }
    e.V1 = v;
    e.I1 = cur;
    experienced(dt, n, e.I0, e.V0, e.V1);
    e.t = clock;
    push(e);
  }
  void storeData() override
  {
    Ev e{ Ev::Store };
    e.t = clock;
    push(e);
  }
  void writeData(const std::string &) override { push({ Ev::Write }); }
};

inline const char *stName(Status s) { return getStatusMessage(s); }

} // namespace H
