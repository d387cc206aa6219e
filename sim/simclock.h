// Simulated wall, CPU and OpenMP clocks.
#ifndef VERIF_SIMCLOCK_H
#define VERIF_SIMCLOCK_H
namespace simclock {
extern double wall; //!< seconds
extern double cpu;  //!< seconds
extern long reads;
void reset();
void advance(double dw, double dc);
}
#endif
