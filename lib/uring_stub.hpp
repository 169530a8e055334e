// uring_stub.hpp - in-process stand-in for the liburing calls that enter the kernel. The rings live in ordinary
// memory (the inline parts of liburing work on them unchanged); requests that a submission hands over are carried out
// when the explorer lets them complete, in an order it chooses, and calls and requests may be made to fail.
#pragma once
#include <cstdint>
namespace uring {
struct Options {
  bool choose_order = true;     // which outstanding request completes next is chosen
  int idle_polls = 0;           // so many polls of an empty completion queue may find nothing ready (chosen)
  int faults = 0;               // so many of the following may happen (chosen):
  bool short_reads = false;     //   a request transfers half of its bytes, or none
  bool errors = false;          //   a request fails with -EIO
  bool submit_faults = false;   //   a submission hands over fewer entries, or fails with EAGAIN / EINTR / EIO
  bool wait_faults = false;     //   a waiting call fails with EINTR
  bool timeouts = false;        //   a wait with a timeout expires (does not count as a fault)
  bool burst = false;           // everything outstanding completes when anything does (in the chosen order)
  bool probe_fails = false, init_fails = false;
};
void options(const Options &o);  // also resets the counters
uint64_t submitted();            // entries handed over
uint64_t hard_faults();          // submissions that failed with an error that is not worth retrying
uint64_t completed();            // completions posted
uint64_t outstanding();          // handed over and not completed, over all live rings
uint64_t rings();                // live rings
uint64_t lost_rings();           // rings destroyed while requests were outstanding
// called when a request completes: the memory it writes to must still belong to the request
using Hook = void (*)(uint64_t user_data, void *buf, uint32_t len, uint64_t off, int32_t result);
void on_complete(Hook h);
}  // namespace uring
