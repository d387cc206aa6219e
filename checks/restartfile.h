// C07/C08: histories of runs writing and reading one restart file on the simulated disk.
#include "sim.h"
#include "simdisk.h"
#include "simclock.h"
#include "HDF5Restart.h"
#include "ProcessAdm.h"
#include "TimeStep.h"
#include <iostream>
#include <sstream>
#include <memory>
#include <cstring>
#include <hdf5.h>
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
using namespace sim;

namespace restartfile {
typedef HDF5Restart::SerializeData Data;
const char* FILE0 = "/simfs/run_restart";
const char* PATH = "/simfs/run_restart.hdf5";

const char* NAMES[] = { "TimeStep", "SIMPatch-1", "u", "velocity::x", "A long name with spaces, and punctuation!",
                        "model-1::basis", "p::basis", "9", "0", "TimeLevel", "z", "Model-12345-abc",
                        "subbasis", "basis:u", "q::basis-2", "velocity::y" };
const int NNAMES = 16;

//! HDF5 may run in circles on what is left of a torn file: that is left alone after three seconds.
inline sigjmp_buf& way() { static sigjmp_buf b; return b; }
inline void giveUp(int) { siglongjmp(way(),1); }
inline void timer(int sec)
{
  struct itimerval tv;
  memset(&tv,0,sizeof(tv));
  tv.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF,&tv,nullptr);
}

//! Deterministic content of one checkpoint.
inline Data payload(u64 seed, int kind)
{
  Rng r(seed);
  Data d;
  int n = kind == 0 ? 1+r.below(3) : 1+r.below(8);
  for (int i = 0; i < n; i++) {
    std::string name = NAMES[r.below(NNAMES)];
    size_t len = 0;
    switch (r.below(8)) {
    case 0: len = 0; break;
    case 1: len = 1; break;
    case 2: case 3: case 4: len = 1+r.below(300); break;
    case 5: len = 2040+r.below(16); break;
    case 6: len = r.below(9000); break;
    default: len = kind == 2 ? 65530+r.below(90000) : r.below(500); break;
    }
    std::string v(len,'\0');
    int style = r.below(4);
    for (size_t j = 0; j < len; j++) v[j] = style == 0 ? 0 : (style == 1 ? char('a'+r.below(26)) : char(r.next()));
    d[name] = v;
  }
  return d;
}

inline bool isBasis(const std::string& s) { return s.find("::basis") != std::string::npos; }

struct World {
  Run& run;
  ProcessAdm adm;
  std::unique_ptr<HDF5Restart> w;
  TimeStep tp;
  int stride = 1, lastDump = 0;
  int level = -1;                      //!< model: level of the last checkpoint written by the present run
  std::map<int,Data> stored;           //!< model: last successfully stored data
  std::map<int,std::vector<Data>> maybe; //!< data of attempts that failed since
  int last = -1;                       //!< level of the last checkpoint stored
  std::set<int> loose;                 //!< from this level on, replacing an abandoned history went wrong
  bool hard = false;                   //!< the armed fault makes storing impossible
  bool dirty = false;                  //!< some write has failed: earlier levels may be lost
  bool hung = false;                   //!< HDF5 is out of order, no more can be done in this process
  bool wreck = false;                  //!< a write has failed or was killed: nothing more is written into this file
  explicit World(Run& r) : run(r) {}

  void libClose()
  {
    w.reset();
    simdisk::newProcess(); // HDF5 keeps what it knew of the file, but does not recognize it any more
  }

  //! The user removes the file.
  void discard()
  {
    simdisk::restore(simdisk::Image());
    stored.clear();
    maybe.clear();
    loose.clear();
    last = -1;
    dirty = wreck = false;
  }

  void logData(const char* what, int lev, const Data& d)
  {
    u64 h = 0;
    for (const auto& it : d) {
      for (char c : it.first) h = mix(h ^ (unsigned char)c);
      for (char c : it.second) h = h*1099511628211ull + (unsigned char)c;
      h = mix(h);
    }
    run.log("%s level %d names %zu hash %016llx",what,lev,d.size(),(unsigned long long)h);
  }

  //! Checks one read. \a faults: a fault may have been hit while reading.
  void read(int lev, bool basis, bool faults)
  {
    long f0 = simdisk::fired();
    HDF5Restart hdf(FILE0,adm);
    Data out;
    int got = -1;
    if (wreck) {
      signal(SIGPROF,giveUp);
      if (sigsetjmp(way(),1)) {
        run.probe("library-hang");
        run.log("HDF5 does not return");
        hung = true;
        return;
      }
      timer(3);
    }
    got = hdf.readData(out,lev,basis);
    if (wreck) timer(0);
    bool hit = simdisk::fired() > f0;
    run.log("read %d %s -> %d (%zu names)%s",lev,basis ? "basis" : "data",got,out.size(),hit ? " fault" : "");
    if (got < 0) {
      if (hit || dirty) return;
      if (lev < 0 && last < 0) return;
      if (lev >= 0 && !stored.count(lev)) { run.probe("missing-level"); return; }
      run.fail("read-failed","reading level %d (%s) failed with %d although level %d was stored%s",lev,basis ? "basis" : "data",
               got,lev < 0 ? last : lev,hit ? " (fault)" : "");
      return;
    }
    if (lev >= 0)
      SIM_REQUIRE(run,got == lev,"wrong-level","asked for level %d, got %d",lev,got);
    if (lev < 0 && !dirty)
      SIM_REQUIRE(run,got == last,"wrong-last-level","asked for the most recent level, got %d but the last checkpoint is level %d",got,last);
    auto match = [&](const Data& ref, bool subset) {
      size_t n = 0;
      for (const auto& it : ref)
        if (isBasis(it.first) == basis) {
          auto o = out.find(it.first);
          if (o == out.end()) { if (subset) continue; return false; }
          if (o->second != it.second) return false;
          n++;
        }
      return n == out.size();
    };
    auto s = stored.find(got);
    if (s != stored.end() && match(s->second,false)) { run.probe("read-ok"); return; }
    auto m = maybe.find(got);
    if (m != maybe.end())
      for (const Data& d : m->second)
        if (match(d,false)) { run.probe("read-of-failed-level"); return; }
    if (!loose.empty() && got >= *loose.begin()) { run.probe("read-of-badly-replaced-level"); return; }
    if (s == stored.end() && m == maybe.end()) {
      run.fail("phantom-level","reading level %d succeeded although nothing was ever stored there",got);
      return;
    }
    std::string why = "set of names differs";
    if (s != stored.end())
      for (const auto& it : s->second)
        if (isBasis(it.first) == basis) {
          auto o = out.find(it.first);
          if (o == out.end()) why = "name '" + it.first + "' (" + std::to_string(it.second.size()) + " bytes) is missing";
          else if (o->second != it.second) why = "bytes of '" + it.first + "' differ (" + std::to_string(it.second.size()) + " stored, " + std::to_string(o->second.size()) + " read)";
          else continue;
          break;
        }
    if (run.verbose && s != stored.end()) for (const auto& it : s->second) { auto o = out.find(it.first); if (o == out.end() || o->second.size() != it.second.size()) continue; size_t a = 0, n = 0; for (size_t i = 0; i < it.second.size(); i++) if (it.second[i] != o->second[i]) { if (n++ == 0) a = i; } if (n) run.log("%s: %zu bytes differ from %zu: %02x %02x %02x %02x",it.first.c_str(),n,a,(unsigned char)o->second[a],(unsigned char)o->second[a+1],(unsigned char)o->second[a+2],(unsigned char)o->second[a+3]); }
    if (hit && s != stored.end()) run.fail("wrong-data-under-fault","level %d: read reported success under a read fault, but %s",got,why.c_str());
    else run.fail(m != maybe.end() ? "wrong-data-after-fault" : "wrong-data","level %d (%s): %s",got,basis ? "basis" : "data",why.c_str());
  }

  void write(u64 seed, int kind)
  {
    Data d = payload(seed,kind);
    int lev = ++level;
    long f0 = simdisk::fired();
    bool ok = w->writeData(d);
    bool hit = simdisk::fired() > f0;
    logData(ok ? "stored" : "FAILED",lev,d);
    if (simdisk::killed()) { // whatever happened after the kill did not happen
      // HDF5 does not promise a usable file after a kill while levels are replaced
      bool replacing = !stored.empty() && stored.rbegin()->first >= lev;
      if (!maybe.empty() && maybe.rbegin()->first >= lev) replacing = true;
      run.probe(replacing ? "killed-while-replacing" : "killed-while-adding");
      maybe[lev].push_back(d);
      dirty = wreck = true;
      libClose();
      simdisk::restore(simdisk::killImage());
      simdisk::disarm();
      if (replacing) discard();
      return;
    }
    if (ok) {
      if (hit && hard) { run.fail("false-success","a write, truncate or close failed, but level %d was reported as stored",lev); return; }
      if (w->getTimeLevel() != lev) { run.fail("level-number","checkpoint stored at level %d, expected %d",w->getTimeLevel(),lev); return; }
      for (auto it = stored.begin(); it != stored.end();) if (it->first > lev) it = stored.erase(it); else ++it;
      stored[lev] = d;
      maybe.erase(lev);
      loose.clear();
      last = lev;
      if (hit) {
        run.probe("stored-despite-fault");
        simdisk::disarm();
        read(lev,false,false);
        if (!run.failed) read(lev,true,false);
      }
      run.cover(mix(lev*1000+stored.size()));
      return;
    }
    if (!hit && !dirty) { run.fail("write-failed","writing level %d failed without any fault",lev); return; }
    run.probe("write-failed-reported");
    if (!stored.empty() && stored.rbegin()->first >= lev) loose.insert(lev);
    if (!maybe.empty() && maybe.rbegin()->first >= lev) loose.insert(lev);
    maybe[lev].push_back(d);
    if (stored.count(lev)) { maybe[lev].push_back(stored[lev]); stored.erase(lev); }
    dirty = wreck = true;
    w.reset(); // the driver ends the run
  }
};
} // namespace
