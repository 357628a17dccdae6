/* Shared by rt_core.c and the generated glue of each mocked header. */
#ifndef RT_CORE_H
#define RT_CORE_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <easyMock.h>

typedef unsigned __int128 rt_u128;

/* ---- script tokens */
long long rt_int(void);

/* ---- values */
uint64_t rt_mix(uint64_t seed, unsigned leaf);
typedef uint64_t rt_hash;
#define RT_H0 1469598103934665603ull
rt_hash rt_hbytes(rt_hash h, const void *p, size_t n);
static inline rt_hash rt_hint(rt_hash h, rt_u128 v) { return rt_hbytes(h, &v, 16); }
static inline rt_hash rt_hfp(rt_hash h, long double v) { return rt_hbytes(h, &v, 10); }

/* ---- pointed-to objects: exact-size heap blocks with a shadow copy */
void *rt_slot(long id, size_t size, int is_new);
int rt_slot_exists(long id);
void *rt_slot_ptr(long id);
void rt_slot_done(long id);     /* content initialised: remember and print it */
void rt_fill_bytes(void *p, size_t n, uint64_t seed);
void rt_fill_str(char *p, size_t n, uint64_t seed);

/* ---- recorder matchers */
int rt_record(int param, rt_hash cur, rt_hash exp, const char *name, char *msg);

/* ---- printing */
void rt_out(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

typedef struct
{
  int n_funcs;
  void (*expect)(int f);
  void (*call)(int f);
} rt_glue_t;
#endif
