// Deterministic simulation core: seeded plans, event log, outcome, batch driver.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace sim {
typedef uint64_t u64;

u64 mix(u64 x);

//! The only source of randomness.
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next();
  u64 below(u64 n) { return n ? next()%n : 0; }
  long range(long a, long b) { return a + (long)below((u64)(b-a+1)); }
  double uni() { return (next()>>11)*(1.0/9007199254740992.0); }
  double uni(double a, double b) { return a + (b-a)*uni(); }
  bool chance(double p) { return uni() < p; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

//! One line of a plan.
struct Op {
  std::string k;
  std::vector<double> a;
  std::string t;
  Op(const std::string& key = "") : k(key) {}
  Op(const std::string& key, std::vector<double> args, const std::string& text = "") : k(key), a(args), t(text) {}
  double d(size_t i, double def = 0.0) const { return i < a.size() ? a[i] : def; }
  long i(size_t j, long def = 0) const { return j < a.size() ? (long)a[j] : def; }
  bool is(const char* s) const { return k == s; }
};
typedef std::vector<Op> Plan;
std::string toText(const Plan& p);
Plan fromText(const std::string& s);

//! One simulated execution: log, verdict and measurements.
struct Run {
  u64 hash = 0xcbf29ce484222325ull;
  u64 events = 0;
  bool verbose = false;
  bool failed = false;
  bool nontrivial = false;
  std::string cls, msg;
  double simtime = 0.0;
  std::map<std::string,u64> faults, probes;
  std::set<u64> states;
  std::vector<std::string> tail; //!< last log lines (verbose only)
  volatile u64* shared = nullptr;

  void log(const char* fmt, ...) __attribute__((format(printf,2,3)));
  void logd(const char* what, const double* v, size_t n); //!< bit-exact
  void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf,3,4)));
  void fault(const std::string& k, u64 n = 1) { faults[k] += n; }
  void probe(const std::string& k, u64 n = 1) { probes[k] += n; }
  void cover(u64 h) { if (states.size() < 4096) states.insert(h); }
  void add(const void* p, size_t n);
};
extern Run* cur; //!< current run (seams report faults here)

struct Check {
  virtual ~Check() {}
  bool isolate = false; //!< execute each run in a process of its own
  virtual void init() {}                                     //!< once per process
  virtual void generate(Rng& rng, Plan& plan, int tier) = 0; //!< seed -> plan
  virtual void execute(const Plan& plan, Run& run) = 0;      //!< pure function of the plan
};

int main(int argc, char** argv, Check& chk);
void out(const char* fmt, ...) __attribute__((format(printf,1,2))); //!< to the driver
std::string fmt(const char* f, ...) __attribute__((format(printf,1,2)));
extern u64 opcount; //!< free for use
}

//! Fail and leave the current (void) function.
#define SIM_REQUIRE(run,cond,cls,...) do { if (!(cond)) { (run).fail(cls,__VA_ARGS__); return; } } while(0)
#endif
