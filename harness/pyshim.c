/* Preloaded into the Python worker: the clock and the random source of the library. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <time.h>

time_t shim_now = 0;
static uint64_t state = 1;

time_t time(time_t *t) {
  time_t r = shim_now;
  if(!r) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); r = ts.tv_sec; }
  if(t) *t = r;
  return r;
}

void shim_seed(uint64_t s) { state = s * 0x9e3779b97f4a7c15ULL + 1; }

static uint64_t next64(void) {
  uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static const char *name(void) { return "shim"; }
static uint32_t rnd(void) { return (uint32_t) next64(); }
static void buf(void * const b, const size_t n) {
  uint8_t *p = b;
  for(size_t i = 0; i < n; i += 8) { uint64_t v = next64(); memcpy(p + i, &v, n - i < 8 ? n - i : 8); }
}
struct { const char *(*name)(void); uint32_t (*random)(void); void (*stir)(void); uint32_t (*uniform)(const uint32_t); void (*buf)(void * const, const size_t); int (*close)(void); }
shim_random = { name, rnd, NULL, NULL, buf, NULL };
