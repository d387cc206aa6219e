// Simulated threads: fibers that give up the processor only where the simulator lets them.
#ifndef VERIF_SIMFIBER_H
#define VERIF_SIMFIBER_H
#include <functional>
#include <vector>
#include <cstddef>

namespace simfiber {
typedef std::function<void()> Fn;

class Pool {
public:
  explicit Pool(size_t stackSize = 512*1024) : stack(stackSize) {}
  ~Pool();
  int spawn(Fn f);             //!< ready to run, number of the new fiber
  bool resume(int id);         //!< runs it to its next yield, false when it has ended
  bool done(int id) const { return fibers[id]->done; }
  int size() const { return fibers.size(); }
  struct Fiber {
    Fn fn;
    int id = 0;
    bool done = false, started = false;
    void* sp = nullptr;        //!< saved stack pointer
    void* back = nullptr;      //!< of whoever resumed it
    void* mem = nullptr;
    size_t len = 0;
    void* eh[2] = { nullptr, nullptr }; //!< exceptions being handled
    Fiber* outer = nullptr;
  };
private:
  size_t stack;
  std::vector<Fiber*> fibers;
};

void yield();  //!< to whoever resumed this fiber; nothing outside of fibers
int self();    //!< number of the running fiber, -1 outside
}
#endif
