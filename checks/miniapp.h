// An application on one of the small models, for the time stepping and coupling drivers of the library.
#ifndef VERIF_MINIAPP_H
#define VERIF_MINIAPP_H
#include "minisolve.h"
#include "SIMCoupled.h"
#include "SIMCoupledSI.h"
#include "SIMSolver.h"
#include "DataExporter.h"
#include "HDF5Writer.h"
#include <functional>

class VTF;
class VecFunc;
class SIMdependency;

namespace mini {
struct Killed {}; //!< the process dies here

struct Record {
  double t = 0.0, dt = 0.0, refNorm = 0.0;
  int iter = 0, tries = 1;
  std::vector<Vec> sol;
};

class App {
public:
  World w;
  bool cutBacks = true;                            //!< redo diverged steps with smaller increments
  std::map<int,Record> history;                    //!< accepted steps
  std::vector<int> checkpoints;                    //!< steps whose state was stored
  std::function<void(const char*,int)> at;         //!< called at every place where the process may die
  int calls = 0;                                   //!< assemblies in the present step
  App* other = nullptr;                            //!< coupling: my loads depend on its solution
  int tries = 1;
  double damp = 0.0;

  bool create(const Spec& sp, const Conf& c, const std::string& name)
  {
    if (!w.create(sp,c,name)) return false;
    w.sim->beforeAssembly = [this](const TimeDomain&, const Vectors&, bool) { ++calls; if (at) at("assembly",calls); };
    return true;
  }

  // What the drivers need
  const ProcessAdm& getProcessAdm() const { return w.sim->getProcessAdm(); }
  std::string getName() const { return w.sim->getName(); }
  int getRefined() const { return 0; }
  bool preprocess() { return true; }
  void setVTF(VTF*) {}
  VTF* getVTF() const { return nullptr; }
  void registerFields(DataExporter&) {}
  void registerDependency(SIMdependency*, const std::string&, short int = 1) {}
  void registerDependency(SIMdependency*, const std::string&, short int, const std::vector<ASMbase*>&, char = 0, int = 1) {}
  int getUniquePropertyCode(const std::string&, int = 0) { return 0; }
  bool createPropertySet(const std::string&, int) { return true; }
  size_t setVecProperty(int, Property::Type, VecFunc* = nullptr, int = -1) { return 0; }
  bool init(const TimeStep&) { return true; }
  bool setInitialConditions() { return true; }
  bool hasIC(const std::string&) const { return false; }
  utl::vector<double>* getField(const std::string&) { return nullptr; }
  bool saveModel(char*, int&, int&) { return true; }

  bool advanceStep(TimeStep& tp)
  {
    if (at) at("advance",tp.step);
    return w.s().advanceStep(tp,false);
  }

  void exchange()
  {
    if (!other) return;
    double x = 0.0;
    for (double v : other->w.sol().front()) x += v;
    w.sim->prb->overload = 1.0+0.3*tanh(x);
  }

  bool solveStep(TimeStep& tp)
  {
    exchange();
    tries = 1;
    calls = 0;
    Vectors before(w.sol());
    double r0 = *w.s().theRefNorm();
    for (;;) {
      SIM::ConvStatus st = w.s().solveStep(tp);
      if (st == SIM::CONVERGED) return true;
      if (st != SIM::DIVERGED || !cutBacks || tries > 6 || !tp.cutback()) return false;
      ++tries;
      for (int i = 0; i < w.nstate; i++) w.theSol()[i] = before[i];
      *w.s().theRefNorm() = r0;
    }
  }

  SIM::ConvStatus solveIteration(TimeStep& tp)
  {
    exchange();
    if (tp.iter == 0) { calls = 0; tries = 1; }
    return w.drv->iterate(tp);
  }
  void postSolve(const TimeStep&) {}

  bool saveStep(const TimeStep& tp, int&)
  {
    if (at) at("save",tp.step);
    Record r;
    r.t = tp.time.t; r.dt = tp.time.dt; r.iter = tp.time.it; r.tries = tries;
    r.refNorm = *w.s().theRefNorm();
    for (int i = 0; i < w.nstate; i++) r.sol.push_back(w.get(w.sol()[i]));
    history[tp.step] = r;
    step = tp.step;
    return true;
  }
  bool serialize(HDF5Restart::SerializeData& data)
  {
    if (!w.s().serialize(data)) return false;
    checkpoints.push_back(step);
    return true;
  }
  bool deSerialize(const HDF5Restart::SerializeData& data) { return w.s().deSerialize(data); }
  int step = 0;
};

template<class T> struct Transient : public SIMSolver<T> {
  explicit Transient(T& s) : SIMSolver<T>(s) {}
  TimeStep& theTime() { return this->tp; }
};
}
#endif
