// Simulated file system behind the C library's file calls, for paths below /simfs.
#ifndef VERIF_SIMDISK_H
#define VERIF_SIMDISK_H
#include "sim.h"
#include <memory>

namespace simdisk {

struct Node {
  bool fifo = false;
  bool readonly = false;
  unsigned long ino = 0;
  std::vector<char> data;
  // fifo state
  int writers = 0;
};
typedef std::map<std::string,std::shared_ptr<Node>> Image;

//! A fault that fires at the at-th call (counted from arm) of kind op, for count calls.
//! op: open read write trunc close any; act: eio enospc eacces emfile eintr eagain short torn kill
struct Fault {
  std::string op, act;
  long at = 0, arg = 0, count = 1;
  long fired = 0;
};

void reset();                         //!< empty disk, no faults
void arm(const std::vector<Fault>& f);//!< install faults, restart call counters
void disarm();
long fired();                         //!< number of fault firings since arm
long calls(const char* op);           //!< calls since arm
void setCapacity(long bytes);         //!< full disk when total data exceeds (<0: unlimited)
long used();

Image snapshot();                     //!< deep copy
void restore(const Image& img);
bool killed();                        //!< a kill fault has fired since arm
const Image& killImage();             //!< the surviving bytes
long openCount();                     //!< open simulated descriptors
void forgetOpen();                    //!< drop all descriptors (process died)
void newProcess();                    //!< drop all descriptors for good and give every file a new identity

bool exists(const std::string& path);
std::string content(const std::string& path);
void put(const std::string& path, const std::string& data);
void setReadOnly(const std::string& path, bool ro);

// FIFO peer side
void fifoOpen(const std::string& path);
void fifoClose(const std::string& path);
void fifoWrite(const std::string& path, const char* p, size_t n);
long fifoPending(const std::string& path);
extern long blocked;                  //!< calls that would have blocked
}
#endif
