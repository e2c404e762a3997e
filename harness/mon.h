// Monitoring runtime shared by all harness programs: event counters, distinct-state accounting,
// violation reports, guarded memory, deterministic randomness.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>

#if defined __SANITIZE_ADDRESS__
#define MON_ASAN 1
#elif defined __has_feature
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifndef MON_ASAN
#define MON_ASAN 0
#endif
#if MON_ASAN
#include <sanitizer/asan_interface.h>
#endif

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mon
{
  inline std::uint64_t evals = 0;     // oracle evaluations
  inline std::uint64_t events = 0;    // events (lanes, bytes, calls) the monitors saw
  inline std::uint64_t viols = 0;
  inline std::unordered_set<std::uint64_t> distinct;
  inline std::vector<std::string> samples;
  inline std::uint64_t seed = 1;
  inline bool thorough = false;
  inline const char* what = "startup";
  inline const char* what2 = "";
  inline long long arg[6] = {};

  inline const char* unit_name = "";

  inline void
  begin(const char* w, const char* w2 = "", long long a = 0, long long b = 0, long long c = 0,
        long long d = 0, long long e = 0, long long f = 0)
  {
    what = w; what2 = w2;
    arg[0] = a; arg[1] = b; arg[2] = c; arg[3] = d; arg[4] = e; arg[5] = f;
  }

  inline int
  fmt_case(char* buf, std::size_t n)
  {
    return std::snprintf(buf, n, "%s %s a=%lld b=%lld c=%lld d=%lld e=%lld f=%lld", what, what2,
                         arg[0], arg[1], arg[2], arg[3], arg[4], arg[5]);
  }

  // Report a violation. Keeps going (bounded number of reports).
  [[gnu::format(printf, 1, 2), gnu::noinline, gnu::cold]]
  inline void
  fail(const char* fmt, ...)
  {
    ++viols;
    if (viols > 12)
      {
        if (viols > 2000)
          { std::printf("VIOL_MANY\n"); std::fflush(stdout); std::_Exit(3); }
        return;
      }
    char c[400], m[600];
    fmt_case(c, sizeof c);
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    std::printf("VIOL %s :: %s\n", c, m);
    std::fflush(stdout);
  }

  inline std::uint64_t
  mix(std::uint64_t x)
  {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }

  inline std::uint64_t
  hash_str(const char* s)
  {
    std::uint64_t h = 1469598103934665603ull;
    for (; *s; ++s)
      h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
  }

  // Account for the current case as a distinct non-trivial one (key: label + args).
  inline void
  nontrivial(std::uint64_t extra = 0)
  {
    std::uint64_t h = hash_str(what) ^ mix(hash_str(what2));
    for (int i = 0; i < 6; ++i)
      h = mix(h ^ (std::uint64_t)arg[i]) + i;
    distinct.insert(mix(h ^ extra));
    if (samples.size() < 4 and (distinct.size() % 97) == 1)
      {
        char c[400];
        fmt_case(c, sizeof c);
        samples.push_back(c);
      }
  }

  struct rng
  {
    std::uint64_t s;
    explicit rng(std::uint64_t x) : s(mix(x ^ (seed * 0x2545F4914F6CDD1Dull))) {}
    std::uint64_t operator()() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    std::uint64_t below(std::uint64_t n) { return (*this)() % n; }
  };

  inline void
  write_death(const char* why)
  {
    char c[400], out[600];
    fmt_case(c, sizeof c);
    int n = std::snprintf(out, sizeof out, "\nVIOL %s :: %s\n", c, why);
    std::fflush(stdout);
    if (n > 0)
      (void)!write(1, out, n);
  }

  inline void on_signal(int sig)
  {
    char b[64];
    std::snprintf(b, sizeof b, "died with signal %d", sig);
    write_death(b);
    std::_Exit(4);
  }

  inline void on_san_death() { write_death("sanitizer report (see stderr)"); }

  inline void
  init(int argc, char** argv)
  {
    if (argc > 1) seed = std::strtoull(argv[1], nullptr, 10);
    if (argc > 2) thorough = std::strcmp(argv[2], "thorough") == 0;
    if (argc > 3) unit_name = argv[3];
    if (__sanitizer_set_death_callback)
      __sanitizer_set_death_callback(on_san_death);
    static char altstack[65536];
    stack_t ss{};
    ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGILL, SIGTRAP, SIGABRT, SIGFPE, SIGXCPU})
      sigaction(s, &sa, nullptr);
    if (not MON_ASAN)
      for (int s : {SIGSEGV, SIGBUS})
        sigaction(s, &sa, nullptr);
  }

  inline int
  finish()
  {
    for (auto& s : samples)
      std::printf("SAMPLE %s\n", s.c_str());
    std::printf("STAT evaluations=%llu distinct=%llu events=%llu violations=%llu\n",
                (unsigned long long)evals, (unsigned long long)distinct.size(),
                (unsigned long long)events, (unsigned long long)viols);
    std::fflush(stdout);
    return viols ? 3 : 0;
  }

  // ---------------------------------------------------------------------------------------------
  // Guarded memory: [PROT_NONE][data][PROT_NONE]. Ranges are placed at a chosen misalignment as
  // close as possible to the end (or the start) of the data area. All bytes of the data area
  // outside of the range hold a canary pattern which is verified; with ASan they are also poisoned
  // so that reads are caught.
  class arena
  {
    unsigned char* base_ = nullptr;
    std::size_t total_ = 0, page_ = 4096, data_ = 0;
    unsigned char* lo_ = nullptr; // data begin
    unsigned char* cur_ = nullptr;
    std::size_t cur_bytes_ = 0;
    bool poisoned_ = false;
    // only this much around the range needs checking (whole area was canaried by fill())
    static constexpr unsigned char canary_at(std::size_t i) { return 0xA5 ^ (unsigned char)(i * 29); }

  public:
    explicit arena(std::size_t bytes)
    {
      data_ = (bytes + 2 * 256 + page_ - 1) / page_ * page_;
      total_ = data_ + 2 * page_;
      void* p = mmap(nullptr, total_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED) { std::perror("mmap"); std::_Exit(9); }
      base_ = static_cast<unsigned char*>(p);
      lo_ = base_ + page_;
      if (mprotect(lo_, data_, PROT_READ | PROT_WRITE)) { std::perror("mprotect"); std::_Exit(9); }
      for (std::size_t i = 0; i < data_; ++i)
        lo_[i] = canary_at(i);
    }
    arena(const arena&) = delete;
    ~arena() { unpoison(); munmap(base_, total_); }

    void unpoison()
    {
#if MON_ASAN
      if (poisoned_)
        __asan_unpoison_memory_region(lo_, data_);
#endif
      poisoned_ = false;
    }

    // Place `bytes` bytes so that the address is == misalign (mod 64·k for align=64 by default).
    // at_end: as close as possible to the upper guard page, otherwise to the lower one.
    void* place(std::size_t bytes, std::size_t misalign, bool at_end, std::size_t align = 128)
    {
      restore();
      misalign %= align;
      if (at_end)
        {
          std::uintptr_t a = (std::uintptr_t)(lo_ + data_ - bytes);
          std::uintptr_t want = a / align * align + misalign;
          if (want > a) want -= align;
          cur_ = (unsigned char*)want;
        }
      else
        cur_ = lo_ + misalign; // lo_ is page aligned
      cur_bytes_ = bytes;
      return cur_;
    }

    // after the caller initialized the range: hide everything else
    void arm()
    {
#if MON_ASAN
      if (cur_ != lo_)
        __asan_poison_memory_region(lo_, cur_ - lo_);
      const auto tail = lo_ + data_ - (cur_ + cur_bytes_);
      if (tail > 0)
        __asan_poison_memory_region(cur_ + cur_bytes_, tail);
      poisoned_ = true;
#endif
    }

    // verify canaries; returns offset (relative to range start) of first clobbered byte, or
    // LONG_MIN if intact.
    long long check()
    {
      unpoison();
      const std::size_t b = cur_ - lo_, e = b + cur_bytes_;
      const std::size_t from = b > 1024 ? b - 1024 : 0;
      const std::size_t to = e + 1024 < data_ ? e + 1024 : data_;
      for (std::size_t i = from; i < b; ++i)
        if (lo_[i] != canary_at(i))
          { long long r = (long long)i - (long long)b; refill(); return r; }
      for (std::size_t i = e; i < to; ++i)
        if (lo_[i] != canary_at(i))
          { long long r = (long long)i - (long long)b; refill(); return r; }
      return -0x7fffffffffffffffll;
    }
    static constexpr long long intact = -0x7fffffffffffffffll;

    void refill() { for (std::size_t i = 0; i < data_; ++i) lo_[i] = canary_at(i); }

    void restore()
    {
      unpoison();
      if (cur_)
        for (std::size_t i = cur_ - lo_, n = i + cur_bytes_; i < n; ++i)
          lo_[i] = canary_at(i);
      cur_ = nullptr;
      cur_bytes_ = 0;
    }
    std::size_t capacity() const { return data_ - 256; }
  };

  template <typename T>
    const char* type_name()
    {
      if constexpr (std::is_same_v<T, signed char>) return "schar";
      else if constexpr (std::is_same_v<T, char>) return "char";
      else if constexpr (std::is_same_v<T, unsigned char>) return "uchar";
      else if constexpr (std::is_same_v<T, short>) return "short";
      else if constexpr (std::is_same_v<T, unsigned short>) return "ushort";
      else if constexpr (std::is_same_v<T, int>) return "int";
      else if constexpr (std::is_same_v<T, unsigned>) return "uint";
      else if constexpr (std::is_same_v<T, long>) return "long";
      else if constexpr (std::is_same_v<T, unsigned long>) return "ulong";
      else if constexpr (std::is_same_v<T, long long>) return "llong";
      else if constexpr (std::is_same_v<T, unsigned long long>) return "ullong";
      else if constexpr (std::is_same_v<T, float>) return "float";
      else if constexpr (std::is_same_v<T, double>) return "double";
      else if constexpr (std::is_same_v<T, long double>) return "ldouble";
      else if constexpr (std::is_same_v<T, char16_t>) return "char16";
      else if constexpr (std::is_same_v<T, char32_t>) return "char32";
      else if constexpr (std::is_same_v<T, wchar_t>) return "wchar";
      else if constexpr (std::is_same_v<T, bool>) return "bool";
      else return "other";
    }

  // bit-identity of two values (NaN equivalent to NaN when nan_eq)
  template <typename T>
    inline bool same(const T& a, const T& b)
    {
      if constexpr (std::is_floating_point_v<T>)
        {
          if (a != a and b != b) return true;
          if constexpr (sizeof(T) > 8) // padding bytes
            return a == b and __builtin_signbit(a) == __builtin_signbit(b);
          else
            return std::memcmp(&a, &b, sizeof(T)) == 0;
        }
      else
        return a == b;
    }
}
