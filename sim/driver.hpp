// Common command line of the simulators.
//   run <prop> <seed> <from> <to> <outdir> [tier]    explore runs [from, to)
//   replay <prop> <planfile>                          execute one plan
//   gen <prop> <seed> <idx>                           print the plan of a run
#pragma once
#include "common.hpp"
#include <time.h>
#include <unistd.h>

namespace sim {

struct Outcome {
  bool violation = false;
  bool error = false;         // the machinery itself failed
  std::string cls, msg;       // class of the violation, human text
  std::uint64_t trace = 0;    // hash of everything observed in the run
  bool nontrivial = false;
  std::string detail;         // trace text for replay
  void fail(const std::string& c, const std::string& m) {
    if (!violation) { violation = true; cls = c; msg = m; }
  }
};

struct Engine {
  std::string tier = "quick";
  std::string corpus;
  bool verbose = false;
  Stats st;
  virtual ~Engine() {}
  virtual Plan generate(const std::string& prop, std::uint64_t seed, std::uint64_t idx) = 0;
  virtual Outcome execute(const std::string& prop, const Plan& p) = 0;
};

inline double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

inline std::string one_line(std::string s, std::size_t max = 400) {
  for (auto& c : s) if (c == '\n' || c == '\r') c = ' ';
  if (s.size() > max) s = s.substr(0, max) + "...";
  return s;
}

// The simulated program gets an untouched stdout; the driver reports through its own, always flushed.
inline FILE* report() {
  static FILE* f = fdopen(dup(1), "w");
  return f;
}
template <class... A> void say(const char* fmt, A... a) {
  std::fprintf(report(), fmt, a...);
  std::fflush(report());
}

// Classes of known findings: they are reported, but do not end the search.
inline bool known_class(const std::string& c) {
  const char* k = std::getenv("SIM_KNOWN");
  return k && (',' + std::string(k) + ',').find(',' + c + ',') != std::string::npos;
}

inline int driver_main(Engine& e, int argc, char** argv) {
  std::vector<std::string> a(argv + 1, argv + argc);
  if (const char* c = std::getenv("SIM_CORPUS")) e.corpus = c;
  if (a.size() >= 4 && a[0] == "gen") {
    std::string t = e.generate(a[1], num(a[2]), num(a[3])).text();
    std::fwrite(t.data(), 1, t.size(), report());
    std::fflush(report());
    return 0;
  }
  if (a.size() >= 3 && a[0] == "replay") {
    std::string t;
    if (!slurp(a[2], t)) { std::fprintf(stderr, "cannot read %s\n", a[2].c_str()); return 2; }
    e.verbose = a.size() > 3;
    Outcome o = e.execute(a[1], Plan::parse(t));
    if (e.verbose) say("%s\n", o.detail.c_str());
    say("TRACE %016llx\n", static_cast<unsigned long long>(o.trace));
    if (o.error) { say("ERROR %s\n", one_line(o.msg).c_str()); return 2; }
    if (o.violation) { say("VIOL %s | %s\n", o.cls.c_str(), one_line(o.msg, 1500).c_str()); return 1; }
    say("OK\n");
    return 0;
  }
  if (a.size() >= 6 && a[0] == "run") {
    std::string prop = a[1], dir = a[5];
    std::uint64_t seed = num(a[2]), from = num(a[3]), to = num(a[4]);
    if (a.size() > 6) e.tier = a[6];
    double limit = a.size() > 7 ? std::atof(a[7].c_str()) : 1e9, t0 = now_s();
    std::uint64_t done = 0, nviol = 0, all = 1469598103934665603ull;
    for (std::uint64_t i = from; i < to; ++i) {
      if (now_s() - t0 > limit) break;
      Plan p = e.generate(prop, seed, i);
      Outcome o = e.execute(prop, p);
      ++done;
      all = fnv(&o.trace, sizeof o.trace, all);
      if (std::getenv("SIM_TRACES"))
        say("T %llu %016llx\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(o.trace));
      if (o.nontrivial) e.st.traces.insert(o.trace);
      if (o.error) {
        say("ERROR idx=%llu %s\n", static_cast<unsigned long long>(i), one_line(o.msg).c_str());
        spit(dir + "/err-" + str(i) + ".plan", p.text());
      }
      if (o.violation && known_class(o.cls) && e.st.n["known:" + o.cls]++) continue;   // one report is enough
      if (o.violation) {
        std::string f = dir + "/viol-" + str(i) + ".plan";
        spit(f, p.text());
        say("VIOL idx=%llu cls=%s trace=%016llx file=%s | %s\n", static_cast<unsigned long long>(i),
                    o.cls.c_str(), static_cast<unsigned long long>(o.trace), f.c_str(), one_line(o.msg).c_str());
        if (!known_class(o.cls) && ++nviol >= 3) break;
      }
    }
    say("DONE runs=%llu traces=%zu hash=%016llx wall=%.3f stats=%s\n", static_cast<unsigned long long>(done),
                e.st.traces.size(), static_cast<unsigned long long>(all), now_s() - t0, e.st.json().c_str());
    FILE* f = std::fopen((dir + "/traces-" + str(from) + ".txt").c_str(), "w");
    if (f) {
      for (auto t : e.st.traces) std::fprintf(f, "%016llx\n", static_cast<unsigned long long>(t));
      std::fclose(f);
    }
    return nviol ? 1 : 0;
  }
  std::fprintf(stderr, "usage: run|replay|gen ...\n");
  return 2;
}

}  // namespace sim
