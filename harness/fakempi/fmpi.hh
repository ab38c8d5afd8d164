// Control interface of the in-process MPI: run one execution of an SPMD
// program under a scripted schedule.
#ifndef VERIF_FMPI_HH
#define VERIF_FMPI_HH
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
namespace fmpi {
struct Config {
  int nranks = 1;
  // lateSend: the payload of a nonblocking send is read as late as MPI allows
  // (at the sender's wait, or when nothing else can make progress).
  bool lateSend = false;
  // syncSend: blocking standard sends do not complete before the receive is posted (no buffering).
  bool syncSend = true;
  // firstRank: which rank the scheduler starts with.
  int firstRank = 0;
  // script: for the i-th choice point, which alternative (0 = default) to take.
  std::vector<int> script;
};
struct Result {
  bool ok = true;
  std::string error;                  // first problem
  long steps = 0, messages = 0, bytes = 0, collectives = 0, switches = 0;
  std::vector<int> branching;         // number of alternatives at each choice point
  uint64_t trace = 0;                 // hash of the interleaving
};
Result run(const Config& cfg, const std::function<void(int)>& body);
}
#endif
