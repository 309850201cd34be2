/* Contract-harness vocabulary shared by every harness.
 * Under CBMC an input is a nondeterministic value over its full domain; under
 * VC_NATIVE the very same harness replays a counterexample (or random inputs)
 * against the real code with sanitizers on. */
#ifndef VC_H
#define VC_H
#include <setjmp.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "impeghd_type_def.h"

uint64_t vc_in(void);                 /* next 64-bit input */
void vc_havoc(void *p, size_t n);     /* object with arbitrary contents */

#ifdef VC_NATIVE
#include <stdio.h>
void vc_fail(const char *msg, const char *file, int line);
void vc_skip(void);
void vc_reach(const char *label);
#define VC_ASSUME(c) do { if (!(c)) vc_skip(); } while (0)
#define VC_ASSERT(c, msg) do { if (!(c)) vc_fail(msg, __FILE__, __LINE__); } while (0)
#define VC_REACH(label) vc_reach(label)
#else
#define VC_ASSUME(c) __CPROVER_assume(c)
#define VC_ASSERT(c, msg) __CPROVER_assert((c), msg)
/* non-vacuity obligation: this point must be reachable, so the assertion must FAIL */
#define VC_REACH(label) __CPROVER_assert(0, "VCREACH " label)
#endif

static inline uint32_t vc_u32(void) { return (uint32_t)vc_in(); }
static inline int32_t vc_i32(void) { return (int32_t)(uint32_t)vc_in(); }
static inline int16_t vc_i16(void) { return (int16_t)(uint16_t)vc_in(); }
static inline uint8_t vc_u8(void) { return (uint8_t)vc_in(); }
static inline int8_t vc_i8(void) { return (int8_t)(uint8_t)vc_in(); }
/* inclusive range */
static inline int32_t vc_range(int32_t lo, int32_t hi)
{
  int32_t v = vc_i32();
#ifdef VC_NATIVE
  extern int vc_random_mode;
  if (vc_random_mode && (v < lo || v > hi))
    v = (int32_t)(lo + (int64_t)((uint32_t)v % ((uint64_t)((int64_t)hi - lo) + 1)));
#endif
  VC_ASSUME(v >= lo && v <= hi);
  return v;
}
static inline float vc_f32(void)
{
  union { uint32_t u; float f; } x;
  x.u = vc_u32();
  return x.f;
}
static inline double vc_f64(void)
{
  union { uint64_t u; double f; } x;
  x.u = vc_in();
  return x.f;
}
#define VC_FINITE(x) ((x) - (x) == 0)

/* shortage of input: the reader leaves through longjmp.  vc_expect_shortage is
 * set by harnesses that want to observe it, otherwise the path simply ends. */
extern int vc_shortage_ok;

struct ia_bit_buf_struct;
/* arbitrary reader state with an arbitrary number of bits left */
void vc_bitbuf_init(struct ia_bit_buf_struct *b);
/* with reader="stub": the first VC_SEQ values handed out by the bit reader */
#ifndef VC_SEQ
#define VC_SEQ 16
#endif
/* -DVC_FORCE: the harness fixes the value of the idx-th read (returns -1: arbitrary) */
int64_t vc_force(int idx, int n);
/* -DVC_HOOK: the harness sees every value handed out */
void vc_rd_hook(struct ia_bit_buf_struct *b, int n, uint32_t v);
extern uint32_t vc_seq_v[VC_SEQ];
extern int vc_seq_n[VC_SEQ], vc_seq_cnt;
extern int32_t vc_bits0;   /* bits left at vc_bitbuf_init time */
#endif
