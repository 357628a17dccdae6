/* Values, pools of objects and recording matchers for the generated drivers of C++ mocks. */
#ifndef CPP_CORE_HPP
#define CPP_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include <easyMock.h>

typedef unsigned long long u64;
typedef int (*FpSpelled)(int, char);

inline long long rd()
{
  long long v;
  if(std::scanf("%lld", &v) != 1)
  {
    std::fflush(stdout);
    std::_Exit(0);
  }
  return v;
}

inline u64 mix(u64 seed, unsigned leaf)
{
  u64 x = seed * 0x9E3779B97F4A7C15ull + leaf * 0xD1B54A32D192ED03ull + 0x1234567;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  x ^= x >> 32;
  return x;
}

inline u64 hcombine(u64 h, u64 v) { return (h ^ v) * 1099511628211ull + (v >> 40); }

static const int POOL = 8;
struct Buf { unsigned char b[32]; };

struct PoolItf
{
  virtual ~PoolItf() {}
  virtual void reset() = 0;
  virtual void dump() = 0;
};
inline std::vector<PoolItf *> &pools()
{
  static std::vector<PoolItf *> p;
  return p;
}
inline int &filling()
{
  static int f = 0;
  return f;
}

template<class T, class Enable = void> struct V;
template<class T> T &pool(long i);
template<class T> T &rpool(long i);

template<class T> struct V<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
{
  static void fill(T &v, u64 s, unsigned leaf = 0)
  {
    u64 m = mix(s, leaf);
    if(std::is_same<T, bool>::value)
      v = (T)(m & 1);
    else if(std::is_floating_point<T>::value)
      v = (T)((double)(long long)m / 65536.0);
    else
      v = (T)m;
  }
  static u64 hash(const T &v)
  {
    if(std::is_floating_point<T>::value)
    {
      double d = (double)v;
      u64 h;
      std::memcpy(&h, &d, 8);
      return h;
    }
    return (u64)v;
  }
};

template<class T> struct V<T, typename std::enable_if<std::is_enum<T>::value>::type>
{
  static void fill(T &v, u64 s, unsigned leaf = 0) { v = (T)(mix(s, leaf) % 3); }
  static u64 hash(const T &v) { return (u64)v; }
};

template<> struct V<std::string>
{
  static void fill(std::string &v, u64 s, unsigned leaf = 0)
  {
    v = "s";
    for(u64 n = mix(s, leaf) % 40; n; n--)
      v += (char)('a' + mix(s, leaf + 1000 + n) % 26);
  }
  static u64 hash(const std::string &v)
  {
    u64 h = 7;
    for(char c : v)
      h = hcombine(h, (unsigned char)c);
    return h;
  }
};

template<class A, class B> struct V<std::pair<A, B>>
{
  static void fill(std::pair<A, B> &v, u64 s, unsigned leaf = 0)
  {
    V<A>::fill(v.first, s, leaf);
    V<B>::fill(v.second, s, leaf + 1);
  }
  static u64 hash(const std::pair<A, B> &v) { return hcombine(V<A>::hash(v.first), V<B>::hash(v.second)); }
};

template<class A> struct V<std::vector<A>>
{
  static void fill(std::vector<A> &v, u64 s, unsigned leaf = 0)
  {
    v.resize(mix(s, leaf) % 5);
    for(unsigned i = 0; i < v.size(); i++)
      V<A>::fill(v[i], s, leaf + i);
  }
  static u64 hash(const std::vector<A> &v)
  {
    u64 h = 9;
    for(const A &a : v)
      h = hcombine(h, V<A>::hash(a));
    return h;
  }
};

template<> struct V<Buf>
{
  static void fill(Buf &v, u64 s, unsigned leaf = 0)
  {
    for(unsigned i = 0; i < sizeof v.b; i++)
      v.b[i] = (unsigned char)mix(s, leaf + i);
  }
  static u64 hash(const Buf &v)
  {
    u64 h = 7;
    for(unsigned char c : v.b)
      h = hcombine(h, c);
    return h;
  }
};

template<class R, class... A> struct V<R (*)(A...)>
{
  typedef R (*T)(A...);
  template<int N> static R fn(A...) { std::abort(); }
  static void fill(T &v, u64 s, unsigned = 0)
  {
    switch(s % 4) { case 0: v = fn<0>; break; case 1: v = fn<1>; break; case 2: v = fn<2>; break; default: v = nullptr; }
  }
  static u64 hash(const T &v) { return (u64)(std::uintptr_t)v; }
};

/* a pointer to an object: slot seed % POOL of the pool of its type, or null from 1000 on */
template<class T> struct V<T *, typename std::enable_if<!std::is_function<T>::value>::type>
{
  typedef typename std::remove_cv<T>::type U;
  typedef typename std::conditional<std::is_void<U>::value, Buf, U>::type P;
  static void fill(T *&v, u64 s, unsigned = 0) { v = s >= 1000 ? nullptr : (T *)&pool<P>((long)(s % POOL)); }
  static u64 hash(T *const &v) { return (u64)(std::uintptr_t)v; }
};

template<class T> struct Pool : PoolItf
{
  int id = -1;
  T *v[2];
  u64 before[POOL];
  Pool()
  {
    v[0] = new T[POOL]();
    v[1] = new T[POOL]();
  }
  void reset() override
  {
    for(int k = 0; k < 2; k++)
      for(int i = 0; i < POOL; i++)
        V<T>::fill(v[k][i], (u64)(i + 3 * k), 0);
    for(int i = 0; i < POOL; i++)
    {
      before[i] = V<T>::hash(v[0][i]);
      std::printf("P %d %d %llx\n", id, i, before[i]);
    }
  }
  /* what has changed since the last time; the contents of the other pool never change */
  void dump() override
  {
    for(int i = 0; i < POOL; i++)
    {
      u64 h = V<T>::hash(v[0][i]);
      if(h != before[i])
        std::printf("W %d %d %llx\n", id, i, h);
      before[i] = h;
    }
  }
};
template<class T> Pool<T> &the_pool()
{
  static Pool<T> *p = new Pool<T>();
  return *p;
}
template<class T> T &pool(long i) { return the_pool<T>().v[0][i]; }
template<class T> T &rpool(long i) { return the_pool<T>().v[1][i]; }
template<class T> void reg(int id)
{
  the_pool<T>().id = id;
  pools().push_back(&the_pool<T>());
}

template<class T> T mk(long long seed)
{
  T v{};
  V<T>::fill(v, (u64)seed);
  return v;
}
template<class T> u64 h(const T &v) { return V<typename std::remove_cv<T>::type>::hash(v); }

template<class T> bool rec(const T &cur, const T &exp, const std::string name, std::ostringstream &err)
{
  u64 a = h(cur), b = h(exp);
  std::printf("M %s %llx %llx\n", name.c_str(), a, b);
  if(a != b)
    err << "RECORDED " << a << " for " << b;
  return a != b;
}

typedef void (*op_fn)();
extern const op_fn expects[], calls[];

inline void errors(unsigned &seen)
{
  unsigned n = 12345;
  const char **e = easyMock_getErrorArr(&n);
  if(n == 0)
    e = nullptr;
  std::printf("E %u\n", n);
  for(unsigned i = seen; i < n && e; i++)
  {
    std::printf("X ");
    for(const char *c = e[i]; *c; c++)
      std::printf("%02x", (unsigned char)*c);
    std::printf("\n");
  }
  seen = n;
}

inline int core_run()
{
  std::setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  unsigned seen = 0;
  easyMock_setPrintCallStack(0);
  for(;;)
  {
    switch(rd())
    {
    case 0:
      std::fflush(stdout);
      std::_Exit(0);
    case 1:
      easyMock_init();
      seen = 0;
      for(PoolItf *p : pools())
        p->reset();
      std::printf("I\n");
      break;
    case 2: expects[rd()](); std::printf("D\n"); break;
    case 3: calls[rd()](); std::printf("D\n"); break;
    case 4: std::printf("K %d\n", easyMock_check()); break;
    case 5: easyMock_setCheckCallsOrder(rd() != 0); std::printf("D\n"); break;
    }
    for(PoolItf *p : pools())
      p->dump();
    errors(seen);
    std::fflush(stdout);
  }
}
#endif
