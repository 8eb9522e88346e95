// the C++ side: frames that catch, frames with destructors, throws
#include "sim.h"
#include <exception>
namespace {
struct boom { int op; u64 payload; u64 check; };
struct guard { struct thr *t; guard() : t(self) { t->cxlive++; } ~guard() { t->cxlive--; } };
void terminated() { violate(V_UNWIND, "std::terminate: an exception could not pass through the frames between throw and catch"); }
}
extern "C" void cx_init(void) { std::set_terminate(terminated); }
extern "C" void cx_throw(int op, u64 payload) { throw boom{op, payload, mix(payload)}; }
extern "C" void cx_guarded(void (*fn)(void*), void *arg) { guard g; fn(arg); }
extern "C" __attribute__((noinline)) int cx_try(void (*fn)(void*), void *arg, int op, u64 *six) {
  u64 a = six[0], b = six[1], c = six[2], d = six[3], e = six[4], f = six[5]; int r = 0; int live = self->cxlive;
  asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e), "+r"(f));
  try { guard g; fn(arg); }
  catch (boom &x) {
    if (x.op != op) { asm volatile("" : "+r"(a), "+r"(b), "+r"(c)); throw; }
    if (mix(x.payload) != x.check) violate(V_UNWIND, "the exception object was damaged");
    if (self->cxlive != live) violate(V_UNWIND, "%d destructors of skipped frames did not run", self->cxlive - live);
    r = 1; six[6] = x.payload;
  }
  asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e), "+r"(f));
  if (a != six[0] || b != six[1] || c != six[2] || d != six[3] || e != six[4] || f != six[5]) violate(V_UNWIND, "locals of the catching frame changed");
  return r;
}
