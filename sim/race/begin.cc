// First object of the harness in link order: code at higher addresses is the simulator's and the scenarios'.
extern "C" __attribute__((used, noinline)) void simHarnessBegin() { asm volatile("nop"); }
