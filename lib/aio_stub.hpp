// aio_stub.hpp - in-process stand-in for the libaio calls: reads are carried out when they are delivered, in an
// order and in portions that the explorer may choose, and may be made to fail.
#pragma once
#include <cstdint>
#include <functional>
namespace aio {
enum class Order { Fifo, Lifo, Choose };
struct Options {
  Order order = Order::Fifo;
  bool choose_portions = false;   // how many ready completions a call returns is chosen (at least what it must)
  bool interrupts = false;        // a waiting call may return early once, with -EINTR or fewer completions
  int fail_read = -1;             // the fail_read-th read (counted from options()) ...
  int64_t fail_result = -5;       // ... returns this (negative errno) or, if >= 0, only so many bytes
  int faults = 0;                 // so many of the following may happen (chosen):
  bool bad_results = false;       //   a read transfers half of its bytes, nothing, or fails with -EIO
  bool bad_submits = false;       //   a submission takes fewer requests, or fails with EAGAIN / EINTR
  bool bad_waits = false;         //   a wait fails with EINTR or ends after a part of what it waits for
  int fail_submit = -1;           // this call of io_submit fails with -EAGAIN
};
void options(const Options &o);   // also resets the counters below
void reset();                      // forget every context (a pruned execution left them behind)
uint64_t reads();                 // reads delivered
uint64_t in_flight();             // submitted and not delivered
using Hook = void (*)(void *buf, uint64_t n, int64_t off, int64_t result);
void on_complete(Hook h);         // called when a read has been carried out
uint64_t contexts();              // live contexts
}  // namespace aio
