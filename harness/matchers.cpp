// Runs built-in matchers on operand bytes read from stdin.
// line: matcher deref(0/1) hex-current hex-expected hex-name     (str: the operands are the characters)
#include <easyMock.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

#define ALL(X) X(char) X(u_char) X(short) X(u_short) X(int) X(u_int) X(long) X(u_long) X(long_long) X(u_long_long) X(float) X(double) X(long_double) X(pointer)
extern "C" {
#define D(T) DECLARE_DEREF_PTR_MATCHER(T);
ALL(D)
}
struct M { const char *n; EasyMock_Matcher plain, deref; };
static const M table[] = {
#define E(T) {#T, cmp_##T, cmp_deref_ptr_##T},
  ALL(E) {"str", cmp_str, nullptr}, {"int128", cmp_int128, nullptr}, {"uint128", cmp_uint128, nullptr}};

static std::string unhex(const std::string &h)
{
  std::string r;
  if(h == "-") return r;
  for(size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
static void *exact(const std::string &b, bool nul)
{
  char *p = (char *)malloc(b.size() + nul);
  memcpy(p, b.data(), b.size());
  if(nul) p[b.size()] = 0;
  return p;
}
static void hex(const char *p, size_t n)
{
  if(!n) printf("-");
  for(size_t i = 0; i < n; i++) printf("%02x", (unsigned char)p[i]);
}

template <class T> static void cpp(const std::string &a, const std::string &b, const std::string &name)
{
  // the C++ matcher, on the same operands
  T x, y;
  memcpy(&x, a.data(), sizeof x);
  memcpy(&y, b.data(), sizeof y);
  std::ostringstream os;
  bool r = EasyMock::cmp<T>(x, y, name, os);
  std::string m = os.str();
  printf("%d ", (int)r);
  hex(m.data(), m.size());
}

int main()
{
  char *line = nullptr;
  size_t cap = 0;
  static char out[1 << 16];
  setvbuf(stdout, out, _IOFBF, sizeof out);
  while(getline(&line, &cap, stdin) > 0)
  {
    std::vector<std::string> w;
    for(char *t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) w.push_back(t);
    std::string a = unhex(w[2]), b = unhex(w[3]), name = unhex(w[4]);
    bool str = w[0] == "str", deref = w[1] == "1";
    if(w[1] == "2")
    {
      const std::string &t = w[0];
      if(t == "char") cpp<char>(a, b, name);
      else if(t == "u_char") cpp<unsigned char>(a, b, name);
      else if(t == "short") cpp<short>(a, b, name);
      else if(t == "u_short") cpp<unsigned short>(a, b, name);
      else if(t == "int") cpp<int>(a, b, name);
      else if(t == "u_int") cpp<unsigned>(a, b, name);
      else if(t == "long") cpp<long>(a, b, name);
      else if(t == "u_long") cpp<unsigned long>(a, b, name);
      else if(t == "long_long") cpp<long long>(a, b, name);
      else if(t == "u_long_long") cpp<unsigned long long>(a, b, name);
      else if(t == "float") cpp<float>(a, b, name);
      else if(t == "double") cpp<double>(a, b, name);
      else if(t == "long_double") cpp<long double>(a, b, name);
      else if(t == "pointer") cpp<void *>(a, b, name);
      printf(" 1\n");
      continue;
    }
    const M *m = nullptr;
    for(const M &x : table) if(w[0] == x.n) m = &x;
    if(!m) { printf("?\n"); continue; }
    char *pn = (char *)exact(name, true);
    void *pa = exact(a, str), *pb = exact(b, str);
    // pointers to the operands, each in an exact block
    void **qa = (void **)malloc(sizeof(void *)), **qb = (void **)malloc(sizeof(void *));
    *qa = pa; *qb = pb;
    char *msg = (char *)malloc(EASYMOCK_MAX_CMP_ERR);
    memset(msg, 0x5B, EASYMOCK_MAX_CMP_ERR);
    const void *ca = (str || deref) ? (const void *)qa : pa, *cb = (str || deref) ? (const void *)qb : pb;
    int r = (deref ? m->deref : m->plain)(ca, cb, pn, msg);
    // the operands and the name must be as they were
    bool same = memcmp(pa, a.data(), a.size()) == 0 && memcmp(pb, b.data(), b.size()) == 0 && name == pn && *qa == pa && *qb == pb;
    printf("%d ", r);
    size_t n = 0;
    while(n < EASYMOCK_MAX_CMP_ERR && msg[n]) n++;
    if(n == EASYMOCK_MAX_CMP_ERR)
    {
      bool untouched = true;
      for(size_t i = 0; i < EASYMOCK_MAX_CMP_ERR; i++) untouched = untouched && msg[i] == 0x5B;
      printf(untouched ? "untouched" : "unterminated");
    }
    else hex(msg, n);
    printf(" %d\n", (int)same);
    free(pa); free(pb); free(qa); free(qb); free(pn); free(msg);
  }
  return 0;
}
