// Controlled scheduler for threads inside the instrumented extension (-finstrument-functions).
// Every function entry of the extension is a scheduling point.  While a thread holds the GIL no other
// Python thread is enabled, so the point offers no choice; without the GIL the explorer may hand over.
#include <Python.h>
#include <cstdint>
#include <semaphore.h>
#include <time.h>

#define NI __attribute__((no_instrument_function))
#define API extern "C" __attribute__((visibility("default"), no_instrument_function))

static sem_t baton[8];
static volatile int n_threads = 0, active = 0;
static volatile long points = 0, free_points = 0, switches = 0, stuck = 0;
static volatile long plan[4];          // global indices of free points at which to preempt
static volatile int n_plan = 0;
static volatile int finished[8];
static thread_local int me = -1;
static thread_local bool inside = false;

NI static bool wait_for(int id, double sec) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_sec += long(sec);
  while (sem_timedwait(&baton[id], &ts) != 0) {
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    if (now.tv_sec > ts.tv_sec + 1 || (now.tv_sec >= ts.tv_sec && now.tv_nsec >= ts.tv_nsec)) return false;
  }
  return true;
}

extern "C" NI void __cyg_profile_func_enter(void*, void*) {
  if (!active || me < 0 || inside) return;
  inside = true;
  __sync_fetch_and_add(&points, 1);
  if (!PyGILState_Check()) {
    long k = __sync_fetch_and_add(&free_points, 1);
    for (int p = 0; p < n_plan; p++)
      if (plan[p] == k) {
        int other = -1;
        for (int t = 1; t < n_threads; t++) { int c = (me + t) % n_threads; if (!finished[c]) { other = c; break; } }
        if (other >= 0) {
          switches = switches + 1;
          sem_post(&baton[other]);
          if (!wait_for(me, 3)) stuck = stuck + 1;   // the other thread is blocked on us: not enabled
        }
      }
  }
  inside = false;
}
extern "C" NI void __cyg_profile_func_exit(void*, void*) {}

API void vs_reset(int n, const long* pl, int np) {
  for (int i = 0; i < 8; i++) { sem_destroy(&baton[i]); sem_init(&baton[i], 0, 0); finished[i] = 0; }
  for (int i = 0; i < np; i++) plan[i] = pl[i];
  n_plan = np; n_threads = n; points = free_points = switches = stuck = 0; active = 1;
}
// Called through ctypes (which drops the GIL): waits until it is this thread's turn.
API void vs_start(int id) { me = id; while (!wait_for(id, 20)) {} }
API void vs_kick(int id) { sem_post(&baton[id]); }
API void vs_done(int id) {
  finished[id] = 1;
  me = -1;
  for (int t = 1; t < n_threads; t++) { int c = (id + t) % n_threads; if (!finished[c]) { sem_post(&baton[c]); return; } }
}
API void vs_stop() { active = 0; }
API long vs_points() { return points; }
API long vs_free() { return free_points; }
API long vs_switches() { return switches; }
API long vs_stuck() { return stuck; }
