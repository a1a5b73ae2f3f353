// mc.hpp - a small stateless model checker for single-process C++ code.
//
// A *scenario* is an ordinary function that drives the real implementation.  Every
// nondeterministic decision it makes (which operation next, which operand, which
// configuration, which schedule) goes through ctx.choose(n).  The explorer runs the
// scenario once for every sequence of decisions: depth-first enumeration of the decision
// tree by re-execution (the VeriSoft / CHESS / loom scheme).  There is no sampling and
// no state is skipped; when the tree is exhausted, every behaviour inside the bounds the
// scenario states has been executed on the real code and checked.
//
// Subtrees are farmed out to forked worker processes, so that a crash, an abort, an
// uncaught exception or a hang of the code under test is attributed to the exact
// decision sequence that caused it and reported as a violation, and every violation is
// re-executed in a fresh process before it is reported.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation
{
  std::string key, msg;
};
struct SplitStop
{
};
struct Prune // ctx.prune(): this decision sequence is outside the scenario's bounds
{
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

constexpr int MAXPATH = 400;

struct Slot // shared with the parent: what the worker is executing right now
{
  std::atomic<int> scenario;
  std::atomic<int> len;
  int path[MAXPATH];
  std::atomic<int> item;
};

struct Shared
{
  std::atomic<int> next;
  std::atomic<int> nviol;
  Slot slot[64];
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
  auto c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

class Ctx
{
public:
  bool thorough{ false };
  bool replaying{ false };
  std::vector<int> path, arity, taken;
  size_t pos{ 0 };
  int split{ -1 };
  Slot *slot{ nullptr };
  uint64_t transitions{ 0 }, checks{ 0 }, pruned{ 0 };
  std::unordered_set<uint64_t> states;
  std::set<std::string> covered; // labels of reached situations (vacuity guards)
  std::vector<std::string> trace;
  bool keepTrace{ false };

  // Enumerate 0..n-1 exhaustively.
  int choose(int n, const char *label = "")
  {
    if (n <= 0) throw Prune{};
    if (split >= 0 && static_cast<int>(pos) >= split) throw SplitStop{};
    int c = 0;
    if (pos < path.size())
      c = path[pos];
    else {
      path.push_back(0);
      arity.push_back(n);
    }
    if (pos < arity.size()) arity[pos] = n;
    if (c >= n) c = n - 1; // can only happen when replaying on changed code
    if (slot && pos < MAXPATH) {
      slot->path[pos] = c;
      slot->len = static_cast<int>(pos) + 1;
    }
    pos++;
    if (keepTrace) trace.push_back(fmt("choose %s = %d/%d", label, c, n));
    return c;
  }
  template <typename T>
  const T &pick(const std::vector<T> &v, const char *label = "")
  {
    return v[static_cast<size_t>(choose(static_cast<int>(v.size()), label))];
  }
  template <typename T>
  T pick(std::initializer_list<T> v, const char *label = "")
  {
    return *(v.begin() + choose(static_cast<int>(v.size()), label));
  }
  bool flag(const char *label = "") { return choose(2, label) == 1; }
  void prune() { throw Prune{}; }

  void cover(const std::string &s) { covered.insert(s); }

  // one operation of the implementation was executed
  void step(const char *f, ...) __attribute__((format(printf, 2, 3)))
  {
    transitions++;
    if (!keepTrace) return;
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    trace.push_back(buf);
  }
  void note(const char *f, ...) __attribute__((format(printf, 2, 3)))
  {
    if (!keepTrace) return;
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    trace.push_back(buf);
  }
  // record the (observable) state reached
  void state(const std::vector<double> &v, uint64_t salt = 0)
  {
    uint64_t h = fnv(v.data(), v.size() * sizeof(double), 1469598103934665603ull ^ (salt * 0x9E3779B97F4A7C15ull));
    if (states.size() < 4000000) states.insert(h);
  }
  void stateBits(uint64_t h)
  {
    if (states.size() < 4000000) states.insert(h);
  }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Violation{ key, msg }; }
  void check(bool ok, const std::string &key, const std::string &msg)
  {
    checks++;
    if (!ok) fail(key, msg);
  }
  // |a-b| <= abs + rel*max(|a|,|b|); NaN never compares equal, infinity only to itself
  static bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12)
  {
    if (a == b) return true;
    const double d = std::abs(a - b);
    return d < HUGE_VAL && d <= abs_ + rel * std::max(std::abs(a), std::abs(b));
  }
  void near(double got, double want, const std::string &key, const std::string &what, double rel = 1e-9, double abs_ = 1e-12)
  {
    checks++;
    if (!close(got, want, rel, abs_))
      fail(key, fmt("%s: got %.17g, expected %.17g (diff %.3g)", what.c_str(), got, want, got - want));
  }
};

using Fn = std::function<void(Ctx &)>;
struct Scenario
{
  std::string name;
  Fn fn;
  bool quick{ true }; // part of the quick tier
};

inline double now()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

inline std::string jstr(const std::string &s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20)
      o += fmt("\\u%04x", c);
    else
      o += static_cast<char>(c);
  }
  return o + "\"";
}

struct Outcome
{
  enum K { OK, VIOL, SPLIT, PRUNED } k{ OK };
  std::string key, msg;
};

// Optional per-execution hooks
inline std::function<void()> onExecStart, onWorkerStart;

inline Outcome execute(const Scenario &sc, Ctx &ctx)
{
  ctx.pos = 0;
  ctx.trace.clear();
  if (ctx.slot) ctx.slot->len = 0;
  if (onExecStart) onExecStart();
  try {
    sc.fn(ctx);
  } catch (Violation &v) {
    return { Outcome::VIOL, v.key, v.msg };
  } catch (SplitStop &) {
    return { Outcome::SPLIT, "", "" };
  } catch (Prune &) {
    ctx.pruned++;
    return { Outcome::PRUNED, "", "" };
  } catch (int e) {
    return { Outcome::VIOL, sc.name + "/uncaught-int", fmt("uncaught exception of type int with value %d", e) };
  } catch (std::exception &e) {
    return { Outcome::VIOL, sc.name + "/uncaught-exception", std::string("uncaught exception: ") + e.what() };
  } catch (...) {
    return { Outcome::VIOL, sc.name + "/uncaught-unknown", "uncaught exception of unknown type" };
  }
  return { Outcome::OK, "", "" };
}

// move ctx.path to the next leaf below the first `keep` decisions; false when exhausted
inline bool advance(Ctx &ctx, size_t keep)
{
  ctx.path.resize(std::min(ctx.path.size(), ctx.pos));
  ctx.arity.resize(ctx.path.size());
  while (ctx.path.size() > keep) {
    if (ctx.path.back() + 1 < ctx.arity.back()) {
      ctx.path.back()++;
      return true;
    }
    ctx.path.pop_back();
    ctx.arity.pop_back();
  }
  return false;
}

inline std::string pathStr(const std::vector<int> &p)
{
  std::string s;
  for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i]);
  return s;
}

inline int execTimeout = 150; // seconds of wall time for one single execution

inline void muteOutput()
{
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
  std::cout.setstate(std::ios::badbit);
  std::cerr.setstate(std::ios::badbit);
}

struct Item
{
  int scenario;
  std::vector<int> prefix;
};

struct VRec
{
  int scenario;
  std::string key, msg;
  std::vector<int> path;
};

// Run one path in a fresh child. returns (violates?, key, msg, trace)
inline bool replayOnce(const std::vector<Scenario> &scs, int si, const std::vector<int> &path, bool thorough,
                       std::string &key, std::string &msg, std::vector<std::string> &trace, const std::string &tmp)
{
  std::string f = tmp + "/replay.txt";
  unlink(f.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    muteOutput();
    if (onWorkerStart) onWorkerStart();
    alarm(static_cast<unsigned>(execTimeout));
    Ctx ctx;
    ctx.thorough = thorough;
    ctx.replaying = true;
    ctx.keepTrace = true;
    ctx.path = path;
    ctx.arity.assign(path.size(), 1 << 30);
    auto o = execute(scs[static_cast<size_t>(si)], ctx);
    std::ofstream of(f);
    of << (o.k == Outcome::VIOL ? 1 : 0) << '\n'
       << o.key << '\n';
    std::string m = o.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    of << m << '\n';
    for (auto &t : ctx.trace) of << t << '\n';
    of.close();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  trace.clear();
  if (WIFSIGNALED(st)) {
    key = scs[static_cast<size_t>(si)].name + (WTERMSIG(st) == SIGALRM ? "/hang" : "/crash-signal-" + std::to_string(WTERMSIG(st)));
    msg = WTERMSIG(st) == SIGALRM ? "execution did not terminate" : std::string("process killed by signal ") + strsignal(WTERMSIG(st));
    return true;
  }
  if (WEXITSTATUS(st) != 0) {
    key = scs[static_cast<size_t>(si)].name + "/exit-" + std::to_string(WEXITSTATUS(st));
    msg = "process exited unexpectedly";
    return true;
  }
  std::ifstream in(f);
  std::string l;
  if (!std::getline(in, l)) return false;
  bool v = l == "1";
  std::getline(in, key);
  std::getline(in, msg);
  while (std::getline(in, l)) trace.push_back(l);
  return v;
}

inline int run(int argc, char **argv, std::vector<Scenario> scs)
{
  std::string out = "result.json", tmp = ".", replay, tier = "quick", only;
  int workers = 8;
  double deadline = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--out") out = nxt();
    else if (a == "--tmp") tmp = nxt();
    else if (a == "--tier") tier = nxt();
    else if (a == "--workers") workers = std::stoi(nxt());
    else if (a == "--deadline") deadline = std::stod(nxt());
    else if (a == "--replay") replay = nxt();
    else if (a == "--only") only = nxt();
  }
  const bool thorough = tier == "thorough";
  const double t0 = now();

  if (!replay.empty()) { // "<scenario>:<c0,c1,...>"
    auto c = replay.find(':');
    std::string name = replay.substr(0, c), rest = replay.substr(c + 1);
    std::vector<int> path;
    std::stringstream ss(rest);
    std::string t;
    while (std::getline(ss, t, ',')) path.push_back(std::stoi(t));
    for (size_t i = 0; i < scs.size(); i++)
      if (scs[i].name == name) {
        std::string key, msg;
        std::vector<std::string> tr;
        bool v = replayOnce(scs, static_cast<int>(i), path, thorough, key, msg, tr, tmp);
        for (auto &l : tr) printf("  %s\n", l.c_str());
        printf("%s %s: %s\n", v ? "VIOLATES" : "OK", key.c_str(), msg.c_str());
        return v ? 1 : 0;
      }
    fprintf(stderr, "no scenario %s\n", name.c_str());
    return 2;
  }

  if (!only.empty())
    scs.erase(std::remove_if(scs.begin(), scs.end(), [&](auto &s) { return s.name.find(only) == std::string::npos; }), scs.end());
  else if (!thorough)
    scs.erase(std::remove_if(scs.begin(), scs.end(), [&](auto &s) { return !s.quick; }), scs.end());

  auto sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<VRec> viol;

  // ---- 1. expand every scenario into subtrees (in forked children, code may crash) ----
  std::vector<Item> items;
  {
    std::vector<std::pair<pid_t, int>> kids;
    size_t nexts = 0;
    size_t live = 0;
    std::map<pid_t, int> who;
    auto launch = [&](int si) {
      pid_t pid = fork();
      if (pid == 0) {
        muteOutput();
        if (onWorkerStart) onWorkerStart();
        std::vector<std::vector<int>> best;
        for (int d = 0; d <= 12; d++) {
          Ctx ctx;
          ctx.thorough = thorough;
          ctx.split = d;
          std::vector<std::vector<int>> cur;
          bool anySplit = false;
          do {
            alarm(static_cast<unsigned>(execTimeout));
            auto o = execute(scs[static_cast<size_t>(si)], ctx);
            if (o.k == Outcome::SPLIT) anySplit = true;
            ctx.path.resize(std::min(ctx.path.size(), ctx.pos));
            cur.push_back(ctx.path);
            if (cur.size() > 6000) break;
          } while (advance(ctx, 0));
          if (cur.size() > 6000 && !best.empty()) break;
          best = cur;
          if (!anySplit || cur.size() >= 160) break;
        }
        std::ofstream of(tmp + "/expand." + std::to_string(si));
        for (auto &p : best) of << "p " << pathStr(p) << '\n';
        of.close();
        _exit(0);
      }
      who[pid] = si;
      live++;
    };
    while (nexts < scs.size() || live > 0) {
      while (nexts < scs.size() && live < static_cast<size_t>(workers)) launch(static_cast<int>(nexts++));
      int st;
      pid_t p = wait(&st);
      if (p < 0) break;
      if (!who.count(p)) continue;
      live--;
      int si = who[p];
      bool okExp = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      size_t before = items.size();
      if (okExp) {
        std::ifstream in(tmp + "/expand." + std::to_string(si));
        std::string l;
        while (std::getline(in, l)) {
          Item it{ si, {} };
          std::stringstream ss(l.substr(2));
          std::string t;
          while (std::getline(ss, t, ',')) it.prefix.push_back(std::stoi(t));
          items.push_back(it);
        }
      }
      if (items.size() == before) items.push_back({ si, {} }); // crashed while expanding: a worker will find out where
    }
  }
  // interleave scenarios so that long ones do not all come last
  std::stable_sort(items.begin(), items.end(), [&](const Item &a, const Item &b) { return a.scenario < b.scenario; });

  // ---- 2. exhaust all subtrees with forked workers ----
  sh->next = 0;
  sh->nviol = 0;
  struct W
  {
    pid_t pid;
    int idx;
  };
  int gen = 0;
  std::map<pid_t, int> wk;
  std::vector<std::string> files;
  auto startWorker = [&](int idx) {
    std::string f = tmp + "/w." + std::to_string(gen++);
    files.push_back(f);
    sh->slot[idx].item = -1;
    pid_t pid = fork();
    if (pid == 0) {
      muteOutput();
      if (onWorkerStart) onWorkerStart();
      std::ofstream of(f);
      while (true) {
        int it = sh->next.fetch_add(1);
        if (it >= static_cast<int>(items.size())) break;
        const auto &item = items[static_cast<size_t>(it)];
        sh->slot[idx].item = it;
        sh->slot[idx].scenario = item.scenario;
        Ctx ctx;
        ctx.thorough = thorough;
        ctx.slot = &sh->slot[idx];
        ctx.path = item.prefix;
        ctx.arity.assign(item.prefix.size(), 1 << 30);
        uint64_t execs = 0, leaves = 0;
        bool complete = true;
        std::map<std::string, VRec> vs;
        std::map<std::string, uint64_t> vcount;
        do {
          alarm(static_cast<unsigned>(execTimeout));
          ctx.keepTrace = (it % 97 == 0 && execs == 0) || it == 0;
          auto o = execute(scs[static_cast<size_t>(item.scenario)], ctx);
          execs++;
          if (o.k != Outcome::PRUNED) leaves++;
          if (ctx.keepTrace && (execs == 1)) {
            of << "t " << scs[static_cast<size_t>(item.scenario)].name << " [" << pathStr(ctx.path) << "]";
            size_t n = 0;
            for (auto &t : ctx.trace)
              if (n++ < 40) of << " | " << t;
            of << '\n';
          }
          if (o.k == Outcome::VIOL) {
            std::vector<int> p(ctx.path.begin(), ctx.path.begin() + static_cast<long>(std::min(ctx.pos, ctx.path.size())));
            vcount[o.key]++;
            if (!vs.count(o.key) && vs.size() < 40) vs[o.key] = { item.scenario, o.key, o.msg, p };
            sh->nviol++;
          }
          if (now() - t0 > deadline) {
            complete = false;
            break;
          }
          if (sh->nviol > 2000 && vs.size() && execs > 200) { // plenty of evidence already
            complete = false;
            break;
          }
        } while (advance(ctx, item.prefix.size()));
        alarm(0);
        of << "r " << item.scenario << ' ' << execs << ' ' << leaves << ' ' << ctx.transitions << ' ' << ctx.checks << ' ' << ctx.pruned << ' ' << (complete ? 1 : 0) << '\n';
        for (auto &kv : vs) {
          std::string m = kv.second.msg;
          std::replace(m.begin(), m.end(), '\n', ' ');
          of << "v " << kv.second.scenario << '\t' << kv.second.key << '\t' << m << '\t' << pathStr(kv.second.path) << '\n';
        }
        for (auto &c : ctx.covered) of << "c " << scs[static_cast<size_t>(item.scenario)].name << ": " << c << '\n';
        of << "s";
        for (auto h : ctx.states) of << ' ' << std::hex << (h ^ (static_cast<uint64_t>(item.scenario) * 0x9E3779B97F4A7C15ull)) << std::dec;
        of << '\n';
        of.flush();
        if (!complete && now() - t0 > deadline) break;
      }
      of << "done\n";
      of.close();
      _exit(0);
    }
    wk[pid] = idx;
  };
  bool complete = true;
  for (int i = 0; i < workers; i++) startWorker(i);
  int crashes = 0;
  while (!wk.empty()) {
    int st;
    pid_t p = wait(&st);
    if (p < 0) break;
    if (!wk.count(p)) continue;
    int idx = wk[p];
    wk.erase(p);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    // crash / hang / unexpected exit: attribute to current path
    auto &s = sh->slot[idx];
    int si = s.scenario;
    std::vector<int> path(s.path, s.path + std::min<int>(s.len, MAXPATH));
    std::string kind = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "/hang" : "/crash-signal-" + std::to_string(WTERMSIG(st)))
                                       : "/exit-" + std::to_string(WEXITSTATUS(st));
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      fprintf(stderr, "mc: a worker was killed (out of memory?)\n");
      return 3;
    }
    viol.push_back({ si, scs[static_cast<size_t>(si)].name + kind, "process died: " + kind, path });
    complete = false;
    if (++crashes < 24) startWorker(idx);
  }

  // ---- 3. merge ----
  uint64_t execs = 0, leaves = 0, trans = 0, checks = 0, pruned = 0;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
  std::set<std::string> covered;
  std::map<int, std::array<uint64_t, 3>> per;
  for (auto &f : files) {
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
      if (l.rfind("r ", 0) == 0) {
        int si, c;
        unsigned long long a, b, d, e, g;
        sscanf(l.c_str(), "r %d %llu %llu %llu %llu %llu %d", &si, &a, &b, &d, &e, &g, &c);
        execs += a;
        leaves += b;
        trans += d;
        checks += e;
        pruned += g;
        per[si][0] += b;
        per[si][1] += d;
        if (!c) complete = false;
      } else if (l.rfind("v ", 0) == 0) {
        std::stringstream ss(l.substr(2));
        std::string a, b, c, d;
        std::getline(ss, a, '\t');
        std::getline(ss, b, '\t');
        std::getline(ss, c, '\t');
        std::getline(ss, d, '\t');
        VRec v{ std::stoi(a), b, c, {} };
        std::stringstream sp(d);
        std::string t;
        while (std::getline(sp, t, ',')) v.path.push_back(std::stoi(t));
        viol.push_back(v);
      } else if (l.rfind("c ", 0) == 0)
        covered.insert(l.substr(2));
      else if (l.rfind("t ", 0) == 0) {
        if (samples.size() < 8) samples.push_back(l.substr(2));
      } else if (l.rfind("s", 0) == 0) {
        std::stringstream ss(l.substr(1));
        uint64_t h;
        while (ss >> std::hex >> h) states.insert(h);
      }
    }
  }
  // shortest path per key
  std::map<std::string, VRec> byKey;
  for (auto &v : viol) {
    auto it = byKey.find(v.key);
    if (it == byKey.end() || v.path.size() < it->second.path.size()) byKey[v.key] = v;
  }
  std::ofstream of(out);
  of << "{\n \"executions\": " << execs << ", \"complete_executions\": " << leaves << ", \"transitions\": " << trans << ", \"checks\": " << checks
     << ", \"pruned\": " << pruned << ", \"states\": " << states.size() << ", \"subtrees\": " << items.size()
     << ", \"exhaustive\": " << (complete ? "true" : "false") << ", \"wall_s\": " << (now() - t0) << ",\n \"scenarios\": {";
  bool first = true;
  for (auto &p : per) {
    of << (first ? "" : ", ") << jstr(scs[static_cast<size_t>(p.first)].name) << ": {\"executions\": " << p.second[0] << ", \"transitions\": " << p.second[1] << "}";
    first = false;
  }
  of << "},\n \"covered\": [";
  first = true;
  for (auto &c : covered) {
    of << (first ? "" : ", ") << jstr(c);
    first = false;
  }
  of << "],\n \"samples\": [";
  first = true;
  for (auto &s : samples) {
    of << (first ? "" : ", ") << jstr(s);
    first = false;
  }
  of << "],\n \"violations\": [";
  first = true;
  int nconf = 0;
  for (auto &kv : byKey) {
    auto &v = kv.second;
    std::string key, msg;
    std::vector<std::string> tr;
    bool again = false;
    if (nconf < 60) {
      again = replayOnce(scs, v.scenario, v.path, thorough, key, msg, tr, tmp);
      nconf++;
    }
    of << (first ? "" : ", ") << "\n  {\"key\": " << jstr(v.key) << ", \"msg\": " << jstr(v.msg) << ", \"scenario\": " << jstr(scs[static_cast<size_t>(v.scenario)].name)
       << ", \"path\": " << jstr(pathStr(v.path)) << ", \"reproduced\": " << (again ? "true" : "false") << ", \"trace\": [";
    for (size_t i = 0; i < tr.size() && i < 80; i++) of << (i ? ", " : "") << jstr(tr[i]);
    of << "]}";
    first = false;
  }
  of << "]\n}\n";
  of.close();
  return byKey.empty() ? 0 : 1;
}

} // namespace mc
