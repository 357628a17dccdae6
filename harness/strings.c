/* Executes sequences of operations on the framework's strings, read from stdin, and prints what is observed.
   I s hex   s = cstring_new_init      N s   s = cstring_new       A s hex  append
   B d s     append c_str(s) to d      C s hex  compare            D a b    compare two strings
   M d s     d = s (s is not used any more)                        F s      free (possibly twice)
   G s       content and length        X hex hex   auto-cleaned string built and appended in a scope
   Z         end of the sequence: free everything left, allocated bytes                        */
#include <cstring.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);

#define N 8
static char *line;
static size_t cap;

static char *unhex(const char *h)
{
  size_t n = strlen(h);
  while(n && (h[n - 1] == '\n' || h[n - 1] == ' ')) n--;
  n = h[0] == '-' ? 0 : n / 2;
  char *r = malloc(n + 1);   /* exact: reading past the end is seen */
  for(size_t i = 0; i < n; i++)
  {
    unsigned v;
    sscanf(h + 2 * i, "%2x", &v);
    r[i] = (char)v;
  }
  r[n] = 0;
  return r;
}

static void hex(const char *s)
{
  if(!*s) printf("-");
  for(; *s; s++) printf("%02x", (unsigned char)*s);
}

static int sgn(int x) { return (x > 0) - (x < 0); }

int main(void)
{
  /* every string lives in its own exact block, so that an overflow of the inline buffer is seen */
  cstring *s[N] = {0};
  size_t base = 0;
  static char out[1 << 16];
  setvbuf(stdout, out, _IOFBF, sizeof out);
  line = malloc(1 << 20); cap = 1 << 20;
  getline(&line, &cap, stdin);
  base = __sanitizer_get_current_allocated_bytes();
  do
  {
    char op = line[0];
    int a = 0, b = 0, k = 0;
    char *h;
    switch(op)
    {
      case 'N': sscanf(line + 1, "%d", &a); if(!s[a]) s[a] = malloc(sizeof(cstring)); memset(s[a], 0xA5, sizeof(cstring)); *s[a] = cstring_new(); break;
      case 'I': sscanf(line + 1, "%d %n", &a, &k); h = unhex(line + 1 + k); if(!s[a]) s[a] = malloc(sizeof(cstring)); memset(s[a], 0xA5, sizeof(cstring)); *s[a] = cstring_new_init(h); free(h); break;
      case 'A': sscanf(line + 1, "%d %n", &a, &k); h = unhex(line + 1 + k); cstring_append(s[a], h); free(h); break;
      case 'B': sscanf(line + 1, "%d %d", &a, &b); cstring_append(s[a], cstring_c_str(s[b])); break;
      case 'C': sscanf(line + 1, "%d %n", &a, &k); h = unhex(line + 1 + k); printf("c %d\n", sgn(cstring_compare_const_char(s[a], h))); free(h); break;
      case 'D': sscanf(line + 1, "%d %d", &a, &b); printf("d %d\n", sgn(cstring_compare_const_cstring(s[a], s[b]))); break;
      case 'M': sscanf(line + 1, "%d %d", &a, &b); if(!s[a]) s[a] = malloc(sizeof(cstring)); *s[a] = *s[b]; free(s[b]); s[b] = NULL; break;
      case 'F': sscanf(line + 1, "%d", &a); cstring_free(s[a]); break;
      case 'G': sscanf(line + 1, "%d", &a); printf("g %lu ", (unsigned long)cstring_length(s[a])); hex(cstring_c_str(s[a])); printf("\n"); break;
      case 'X':
      {
        char *sp = strchr(line + 2, ' ');
        *sp = 0;
        h = unhex(line + 2);
        char *h2 = unhex(sp + 1);
        {
          CSTRING_AUTOCLEAN(t) = cstring_new_init(h);
          cstring_append(&t, h2);
          printf("x %lu ", (unsigned long)cstring_length(&t)); hex(cstring_c_str(&t)); printf("\n");
        }
        free(h); free(h2);
        break;
      }
      case 'Z':
        for(int i = 0; i < N; i++) if(s[i]) { cstring_free(s[i]); free(s[i]); s[i] = NULL; }
        printf("z %ld\n", (long)(__sanitizer_get_current_allocated_bytes() - base));
        fflush(stdout);
        base = __sanitizer_get_current_allocated_bytes();
        break;
    }
  } while(getline(&line, &cap, stdin) > 0);
  return 0;
}
