/* Interprets histories of mock operations read from a script on stdin and prints what is observed.
   Every history runs in a forked child, i.e. in a process in which nothing happened before.

   script: "<n tokens> tokens..." per history, ended by -1
   ops: 1 g f ...   expect (arguments decoded by the glue)
        2 g f ...   call
        3           check
        4           init
        5 n         call order checking
        6 n         call stacks
        7           error array
        8           error string
        9 g         load glue g     (dlopen build)
        10 g        unload glue g
        11          allocated bytes (ASan)
        12          the two switches
        13          leave with exit(), running the destructors of what is loaded              */
#define _GNU_SOURCE
#include "rt_core.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>

static long long *tok;
static long n_tok, pos;

long long rt_int(void)
{
  if(pos >= n_tok)
  {
    printf("SCRIPTEND\n");
    fflush(stdout);
    _exit(98);
  }
  return tok[pos++];
}

void rt_out(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
}

uint64_t rt_mix(uint64_t seed, unsigned leaf)
{
  /* seeds 0..3 give special patterns */
  if(seed == 0) return 0;
  if(seed == 1) return ~0ull;
  if(seed == 2) return 1;
  if(seed == 3) return 0x8000000080008080ull;
  uint64_t z = seed * 0x9E3779B97F4A7C15ull + (leaf + 1) * 0xD1B54A32D192ED03ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

rt_hash rt_hbytes(rt_hash h, const void *p, size_t n)
{
  const unsigned char *b = p;
  for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

#define MAX_SLOTS 60000
static struct { unsigned char *p, *shadow; size_t n; } slots[MAX_SLOTS];
static long max_slot = -1;

int rt_slot_exists(long id) { return id >= 0 && id < MAX_SLOTS && slots[id].p != NULL; }
void *rt_slot_ptr(long id) { return slots[id].p; }
void *rt_slot(long id, size_t size, int is_new)
{
  (void)is_new;
  slots[id].p = malloc(size ? size : 1);
  slots[id].shadow = malloc(size ? size : 1);
  slots[id].n = size;
  memset(slots[id].p, 0, size);
  if(id > max_slot) max_slot = id;
  return slots[id].p;
}
static void hex(const unsigned char *p, size_t n)
{
  if(!n) printf("-");
  for(size_t i = 0; i < n; i++) printf("%02x", p[i]);
}
void rt_slot_done(long id)
{
  memcpy(slots[id].shadow, slots[id].p, slots[id].n);
  printf("N %ld ", id);
  hex(slots[id].p, slots[id].n);
  printf("\n");
}
static void slot_changes(void)
{
  for(long i = 0; i <= max_slot; i++)
  {
    if(slots[i].p && memcmp(slots[i].p, slots[i].shadow, slots[i].n))
    {
      memcpy(slots[i].shadow, slots[i].p, slots[i].n);
      printf("W %ld ", i);
      hex(slots[i].p, slots[i].n);
      printf("\n");
    }
  }
}
void rt_fill_bytes(void *p, size_t n, uint64_t seed)
{
  unsigned char *b = p;
  for(size_t i = 0; i < n; i++) b[i] = (unsigned char)rt_mix(seed, i);
}
void rt_fill_str(char *p, size_t n, uint64_t seed)
{
  size_t len = seed % n;
  memset(p, 0, n);
  for(size_t i = 0; i < len; i++) p[i] = "ab%sZ \xc3\x01"[rt_mix(seed, i) % 8];
}

static struct { int ret; char msg[EASYMOCK_MAX_CMP_ERR]; } rec[64];
int rt_record(int param, rt_hash cur, rt_hash exp, const char *name, char *msg)
{
  printf("R %d %llx %llx %s\n", param, (unsigned long long)cur, (unsigned long long)exp, name ? name : "(null)");
  if(rec[param].msg[0]) strcpy(msg, rec[param].msg);
  return rec[param].ret;
}

static const rt_glue_t *glue[64];
static void *dl[64];
static const char *alphabet = "abcdefghij%sdn 'X\"\\.";

extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
extern const rt_glue_t *rt_static_glue(int g) __attribute__((weak));

static void str_hex(const char *s)
{
  if(!s) printf("null");
  else
  {
    printf("=");
    for(; *s; s++) printf("%02x", (unsigned char)*s);
  }
}

static void history(const char *dir)
{
  while(pos < n_tok)
  {
    long long op = rt_int();
    switch(op)
    {
      case 1:
      case 2:
      {
        long long g = rt_int(), f = rt_int();
        if(op == 1)
        {
          printf("E\n");
          glue[g]->expect((int)f);
          slot_changes();
        }
        else
        {
          long long n = rt_int();
          memset(rec, 0, sizeof(rec));
          for(long long i = 0; i < n; i++)
          {
            rec[i].ret = (int)rt_int();
            long long len = rt_int(), seed = rt_int();
            for(long long k = 0; k < len; k++) rec[i].msg[k] = alphabet[rt_mix((uint64_t)seed, (unsigned)k) % 20];
          }
          printf("C\n");
          glue[g]->call((int)f);
          slot_changes();
        }
        break;
      }
      case 3: printf("K %d\n", easyMock_check()); break;
      case 4: easyMock_init(); printf("I\n"); break;
      case 5: easyMock_setCheckCallsOrder((easyMock_bool)rt_int()); printf("O\n"); break;
      case 6: easyMock_setPrintCallStack((easyMock_bool)rt_int()); printf("P\n"); break;
      case 7:
      {
        unsigned int n = 12345;
        const char **a = easyMock_getErrorArr(&n);
        printf("A %u %d", n, a != NULL);
        if(a)
        {
          for(unsigned i = 0; i < n; i++)
          {
            printf(" ");
            str_hex(a[i]);
          }
          printf(" %s", a[n] == NULL ? "T" : "U");
        }
        printf("\n");
        break;
      }
      case 8:
        printf("S ");
        str_hex(easyMock_getErrorStr());
        printf("\n");
        break;
      case 9:
      {
        long long g = rt_int();
        char path[4096];
        snprintf(path, sizeof path, "%s/lib%lld.so", dir, g);
        dl[g] = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        if(!dl[g])
        {
          printf("DLFAIL %s\n", dlerror());
          fflush(stdout);
          _exit(97);
        }
        glue[g] = (const rt_glue_t *)dlsym(dl[g], "rt_glue");
        printf("L\n");
        break;
      }
      case 10:
      {
        long long g = rt_int();
        dlclose(dl[g]);
        dl[g] = NULL;
        glue[g] = NULL;
        printf("U\n");
        break;
      }
      case 11:
        fflush(stdout);
        printf("B %zu\n", __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : (size_t)0);
        break;
      case 12: printf("Q %d %d\n", (int)easyMock_checkCallsOrder(), (int)easyMock_printCallStack()); break;
      case 13:
        printf("X\nEND\n");
        fflush(stdout);
        exit(0);
      default: printf("BADOP %lld\n", op); fflush(stdout); _exit(96);
    }
  }
}

int main(int argc, char **argv)
{
  static char obuf[1 << 16];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  const char *dir = argc > 1 ? argv[1] : ".";
  if(rt_static_glue)
    for(int g = 0; g < 16 && rt_static_glue(g); g++) glue[g] = rt_static_glue(g);
  for(;;)
  {
    if(scanf("%ld", &n_tok) != 1 || n_tok < 0) break;
    tok = malloc(sizeof(*tok) * (n_tok + 1));
    for(long i = 0; i < n_tok; i++)
      if(scanf("%lld", &tok[i]) != 1) return 95;
    printf("H\n");
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0)
    {
      pos = 0;
      history(dir);
      printf("END\n");
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if(!WIFEXITED(st) || WEXITSTATUS(st)) printf("DIED %d\n", st);
    free(tok);
  }
  printf("DONE\n");
  fflush(stdout);
  _exit(0);
}
