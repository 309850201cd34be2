/* Native side of vc.h: replay of a counterexample or random search.
 *   prog replay FILE      inputs from FILE ("in <hex>" / "bits <n> <hex>" lines)
 *   prog random SEED N SECONDS
 * exit 77 + "VCFAIL ..." : a postcondition failed;  99 : precondition not met. */
#define _GNU_SOURCE
#include "vc.h"
#include "ia_core_coder_bitbuffer.h"
#include <stdio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
int vc_random_mode;
int vc_shortage_ok = 1;
int32_t vc_bits0;
static uint64_t *ins; static size_t nins, pos_in, cap_in;
static unsigned char *bits; static size_t nbits, capbits;
static uint64_t rng = 88172645463325252ull;
jmp_buf vc_jb;
static FILE *rec;
void VC_ENTRY(void);
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ull; }
void vc_fail(const char *msg, const char *f, int l)
{
  fprintf(stderr, "VCFAIL %s (%s:%d)\n", msg, f, l);
  fflush(NULL);
  _exit(77);
}
void vc_skip(void) { _exit(99); }
void vc_reach(const char *label) { (void)label; }
uint64_t vc_in(void)
{
  uint64_t v;
  if (!vc_random_mode)
    return pos_in < nins ? ins[pos_in++] : 0;
  v = rnd();
  switch (rnd() & 7)
  {
  case 0: v &= 1; break;
  case 1: v &= 7; break;
  case 2: v &= 0xff; break;
  case 3: v = (uint64_t)(-(int64_t)(v & 0xff)); break;
  case 4: v = (1ull << (v & 31)) - 1; break;
  default: break;
  }
  if (rec) fprintf(rec, "in %llx\n", (unsigned long long)v);
  return v;
}
void vc_havoc(void *p, size_t n)
{
  unsigned char *c = p;
  for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(rnd() & ((rnd() & 1) ? 0xff : 0));
}
void vc_bitbuf_init(struct ia_bit_buf_struct *b)
{
  int32_t cnt = vc_range(0, 1 << 27);
  if (vc_random_mode) cnt = cnt % 4096;
  size_t bytes = ((size_t)cnt + 7) / 8;
  unsigned char *base = malloc(bytes ? bytes : 1);
  if (vc_random_mode)
  {
    int dens = (int)(rnd() % 3);
    for (size_t i = 0; i < bytes; i++)
    {
      base[i] = (unsigned char)rnd();
      if (dens == 1) base[i] |= (unsigned char)rnd();
      if (dens == 2) base[i] &= (unsigned char)rnd();
      if (rec) fprintf(rec, "bits 8 %x\n", base[i]);
    }
  }
  else
    for (size_t i = 0; i < bytes; i++)
      base[i] = i < (nbits + 7) / 8 ? bits[i] : 0;
  memset(b, 0, sizeof(*b));
  b->ptr_bit_buf_base = b->ptr_read_next = base;
  b->ptr_bit_buf_end = base + bytes - 1;
  b->bit_pos = 7;
  b->cnt_bits = cnt;
  b->size = b->max_size = (int)(bytes * 8);
  b->xmpeghd_jmp_buf = &vc_jb;
  vc_bits0 = cnt;
}
#ifdef VC_WRAP
uint32_t vc_seq_v[VC_SEQ];
int vc_seq_n[VC_SEQ], vc_seq_cnt;
static void seq(int n, uint32_t v)
{
  if (n && vc_seq_cnt < VC_SEQ) { vc_seq_n[vc_seq_cnt] = n; vc_seq_v[vc_seq_cnt++] = v; }
}
#ifdef VC_FORCE
static int vc_rd_idx;
#define FORCE(n, v) do { int64_t f = vc_force(vc_rd_idx++, n); if (f >= 0) v = f; } while (0)
#else
#define FORCE(n, v) (void)0
#endif
#ifndef VC_HOOK
#define vc_rd_hook(b, n, v) (void)0
#endif
WORD32 __real_ia_core_coder_read_bits_buf(ia_bit_buf_struct *, WORD);
UWORD32 __real_ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *);
WORD32 __wrap_ia_core_coder_read_bits_buf(ia_bit_buf_struct *b, WORD n)
{
  if (n < 0 || n > 32) vc_fail("bit reader precondition 0<=n<=32", __FILE__, __LINE__);
  WORD32 v = __real_ia_core_coder_read_bits_buf(b, n);
  if (n) FORCE(n, v);
  seq(n, (uint32_t)v);
  if (n) vc_rd_hook(b, n, (uint32_t)v);
  return v;
}
UWORD32 __wrap_ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *b)
{
  UWORD32 v = __real_ia_core_coder_read_bits_buf_32(b);
  FORCE(32, v);
  seq(32, v);
  vc_rd_hook(b, 32, v);
  return v;
}
#endif
static void push_bits(int n, uint64_t v)
{
  if ((nbits + n) / 8 + 9 > capbits)
  {
    size_t nc = ((nbits + n) / 8 + 9) * 2;
    bits = realloc(bits, nc); memset(bits + capbits, 0, nc - capbits); capbits = nc;
  }
  for (int i = n - 1; i >= 0; i--, nbits++)
    if (i < 64 && ((v >> i) & 1)) bits[nbits / 8] |= (unsigned char)(0x80 >> (nbits % 8));
}
static int once(void)
{
  if (setjmp(vc_jb) == 0)
    VC_ENTRY();
  else if (!vc_shortage_ok)
    vc_fail("error exit only when input is short", __FILE__, __LINE__);
  return 0;
}
int main(int argc, char **argv)
{
  if (argc >= 3 && !strcmp(argv[1], "replay"))
  {
    char line[256]; FILE *f = fopen(argv[2], "r");
    if (!f) return 98;
    while (fgets(line, sizeof line, f))
    {
      unsigned long long v; int n;
      if (sscanf(line, "in %llx", &v) == 1)
      {
        if (nins == cap_in) ins = realloc(ins, (cap_in = cap_in * 2 + 64) * sizeof *ins);
        ins[nins++] = v;
      }
      else if (sscanf(line, "bits %d %llx", &n, &v) == 2)
        push_bits(n, v);
    }
    fclose(f);
    if (argc > 3) rng ^= strtoull(argv[3], 0, 0) * 0x9e3779b97f4a7c15ull;
    once();
    fprintf(stderr, "VCDONE\n");
    return 0;
  }
  if (argc >= 5 && !strcmp(argv[1], "random"))
  {
    uint64_t seed = strtoull(argv[2], 0, 0); long n = atol(argv[3]); double lim = atof(argv[4]);
    struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    long ran = 0, done = 0;
    vc_random_mode = 1;
    for (long i = 0; i < n; i++)
    {
      rng = 88172645463325252ull ^ ((seed * 1000003u + i) * 0x9e3779b97f4a7c15ull);
      if (!rng) rng = 1;
      fflush(NULL);
      pid_t p = fork();
      if (!p) { if (!getenv("VC_VERBOSE")) { } alarm(10); _exit(once()); }
      int st; waitpid(p, &st, 0); ran++;
      int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128;
      if (code == 0) done++;
      else if (code != 99 && !(WIFSIGNALED(st) && WTERMSIG(st) == 14))
      {
        /* record the failing inputs */
        if (argc > 5)
        {
          rng = 88172645463325252ull ^ ((seed * 1000003u + i) * 0x9e3779b97f4a7c15ull);
          if (!rng) rng = 1;
          p = fork();
          if (!p) { rec = fopen(argv[5], "w"); if (rec) setvbuf(rec, 0, _IOLBF, 4096); alarm(10); _exit(once()); }
          waitpid(p, &st, 0);
        }
        printf("RANDOM ran=%ld completed=%ld failed_at=%ld code=%d\n", ran, done, i, code);
        return 77;
      }
      clock_gettime(CLOCK_MONOTONIC, &b);
      if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) / 1e9 > lim) break;
    }
    printf("RANDOM ran=%ld completed=%ld\n", ran, done);
    return 0;
  }
  return 97;
}
