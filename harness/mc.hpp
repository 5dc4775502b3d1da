// mc.hpp - the kernel of the bounded-exhaustive explorers.
//
// A harness is a set of SECTIONs.  Each section enumerates, completely and in
// a fixed order (simplest first), a bounded space of inputs / histories /
// schedules, drives the real c4core code with each one, and compares every
// step with a boring reference model.  This header gives the sections:
//   * three independent counters: states (distinct inputs/model states/tree
//     nodes visited), transitions (calls made into c4core), traces (complete
//     cases whose observations were all compared with the model);
//   * exact-size buffers whose surroundings trap (ASan poison or a guard page);
//   * capture of c4 errors, signals, sanitizer reports and hangs, all reported
//     with the case that was running;
//   * sharding, so that the driver can spread one section over the cores.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <initializer_list>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <c4/error.hpp>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifndef MC_ASAN
#define MC_ASAN 0
#endif
#if MC_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:handle_abort=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=3:quarantine_size_mb=8"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
#endif

#ifndef MC_PARTS
#define MC_PARTS 1
#define MC_PART 0
#endif
#define MC_IN_PART(k) (((k) % MC_PARTS) == MC_PART)

namespace mc {

using u64 = unsigned long long;
using i64 = long long;
/// every size from lo to hi, and the ones listed
inline std::vector<size_t> lens(size_t lo, size_t hi, std::initializer_list<size_t> more)
{
    std::set<size_t> r(more.begin(), more.end());
    for(size_t i = lo; i <= hi; ++i) r.insert(i);
    return std::vector<size_t>(r.begin(), r.end());
}

struct State {
    u64 states = 0, trans = 0, traces = 0;
    u64 shard = 0, nshard = 1, ctr = 0;
    bool thorough = false;
    const char *section = "?";
    void (*desc_fn)(void const*, std::string &) = nullptr;
    void const* desc_ptr = nullptr;
    jmp_buf env;
    bool armed = false;
    bool expecting = false;   // an error is the expected outcome
    u64 errors = 0;           // c4 errors seen by the callback
    std::string lasterr;
    int nviol = 0;
    int maxviol = 6;
    std::set<std::string> keys;
    u64 nsamples = 0;
    std::vector<u64> outcomes;
    bool dying = false;
};
inline State &st() { static State s; return s; }

/// non-owning reference to a callable: keeps the sweeps out of the templates
template<class S> struct fref;
template<class R, class... A> struct fref<R(A...)>
{
    void const* obj; R (*fn)(void const*, A...);
    template<class F> fref(F const& f) : obj(&f), fn([](void const* o, A... a) -> R { return (*static_cast<F const*>(o))(a...); }) {}
    R operator()(A... a) const { return fn(obj, a...); }
};
using Desc = fref<void(std::string&)>;

inline bool thorough() { return st().thorough; }
inline void S(u64 n = 1) { st().states += n; }
inline void T(u64 n = 1) { st().trans += n; }
inline void V(u64 n = 1) { st().traces += n; }
/// true when the next outer case belongs to this shard
inline bool mine() { return (st().ctr++ % st().nshard) == st().shard; }

inline std::string vfmt(const char *f, va_list ap)
{
    char b[4096];
    int n = vsnprintf(b, sizeof(b), f, ap);
    if(n < 0) n = 0;
    return std::string(b, (size_t)n < sizeof(b) ? (size_t)n : sizeof(b) - 1);
}
__attribute__((format(printf, 1, 2)))
inline std::string fmt(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
/// printable form of arbitrary bytes
inline std::string q(const char *p, size_t n)
{
    std::string r = "\"";
    if(n > 400) n = 400;
    for(size_t i = 0; i < n; ++i)
    {
        unsigned char c = (unsigned char)p[i];
        if(c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
inline std::string q(std::string const& s) { return q(s.data(), s.size()); }

inline void outline(std::string const& s)
{
    std::string l = s + "\n";
    size_t off = 0;
    while(off < l.size()) { ssize_t w = ::write(1, l.data() + off, l.size() - off); if(w <= 0) break; off += (size_t)w; }
}
inline std::string describe()
{
    std::string d;
    if(st().desc_fn) st().desc_fn(st().desc_ptr, d);
    for(char &c : d) if(c == '\n') c = ' ';
    return d;
}
inline void stats(const char *tag)
{
    outline(fmt("%s section=%s states=%llu transitions=%llu traces=%llu", tag, st().section, st().states, st().trans, st().traces));
}
inline void violation_msg(std::string msg)
{
    for(char &c : msg) if(c == '\n') c = ' ';
    std::string d = describe();
    std::string key = std::string(st().section) + " | " + d;
    if(!st().keys.insert(key).second) return; // the same case again
    outline("MC-VIOLATION " + key + " | " + msg);
    if(++st().nviol >= st().maxviol)
    {
        stats("MC-CAPPED");
        _exit(1);
    }
}
__attribute__((format(printf, 1, 2)))
inline void violation(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    violation_msg(s);
}
inline void sample(std::string const& s) { if(st().nsamples < 5) { ++st().nsamples; outline("MC-SAMPLE " + std::string(st().section) + ": " + s); } }
inline void bound(std::string const& s) { if(st().shard == 0) outline("MC-BOUND " + std::string(st().section) + ": " + s); }

#define MC_CHECK(cond, ...) do { if(__builtin_expect(!(cond), 0)) ::mc::violation(__VA_ARGS__); } while(0)

// ---------------------------------------------------------------- cases
template<class D> void desc_thunk(void const* p, std::string &s) { (*static_cast<D const*>(p))(s); }

inline void on_error(const char *msg, size_t len)
{
    State &s = st();
    ++s.errors;
    s.lasterr.assign(msg ? msg : "", msg ? len : 0);
    if(s.armed) _longjmp(s.env, 1);
    violation("the library reported an error outside a case: %s", s.lasterr.c_str());
    stats("MC-ABORTED");
    _exit(1);
}

inline void die_report(const char *what)
{
    State &s = st();
    if(s.dying) _exit(1);
    s.dying = true;
    char b[256];
    int n = snprintf(b, sizeof b, "MC-DYING section=%s what=%s states=%llu transitions=%llu traces=%llu\n", s.section, what, s.states, s.trans, s.traces);
    if(n > 0) { ssize_t w = ::write(1, b, (size_t)n); (void)w; }
    violation("%s", what);
    stats("MC-ABORTED");
    _exit(1);
}
inline void on_signal(int sig)
{
    const char *w = "signal";
    switch(sig) { case SIGSEGV: w = "memory fault (SIGSEGV)"; break; case SIGBUS: w = "memory fault (SIGBUS)"; break;
        case SIGABRT: w = "abort"; break; case SIGFPE: w = "arithmetic fault (SIGFPE)"; break; case SIGILL: w = "SIGILL"; break; }
    die_report(w);
}
#if MC_ASAN
inline void on_sanitizer_death() { die_report("sanitizer report (see stderr)"); }
#endif
inline void on_tick(int)
{
    static u64 last = ~0ull; static int same = 0;
    State &s = st();
    if(s.trans == last) { if(++same >= 6) die_report("no progress: the call does not return (hang)"); }
    else { same = 0; last = s.trans; }
}

// ---------------------------------------------------------------- buffers
enum : size_t { kArena = 1 << 19, kNumArena = 24, kPad = 64 };
struct Arena { char *base = nullptr; char *end = nullptr; };
inline Arena *arenas()
{
    static Arena a[kNumArena];
    static bool init = false;
    if(!init)
    {
        init = true;
        for(auto &x : a)
        {
            size_t pg = 4096;
            char *m = (char*)mmap(nullptr, kArena + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if(m == MAP_FAILED) { perror("mmap"); _exit(2); }
            mprotect(m, pg, PROT_NONE);
            mprotect(m + pg + kArena, pg, PROT_NONE);
            x.base = m + pg; x.end = m + pg + kArena;
            #if MC_ASAN
            __asan_poison_memory_region(x.base, kArena);
            #endif
        }
    }
    return a;
}
inline size_t &arena_top() { static size_t t = 0; return t; }

/// exactly `n` accessible bytes; anything before or after traps or is detected by ok()
struct Buf
{
    char *p; size_t n; size_t idx;
    explicit Buf(size_t n_, unsigned char fill = 0xEE) : n(n_)
    {
        idx = arena_top()++;
        if(idx >= kNumArena || n + 2048 > kArena) { fprintf(stderr, "mc::Buf exhausted\n"); _exit(2); }
        Arena &a = arenas()[idx];
        #if MC_ASAN
        p = a.base + 1024;
        __asan_unpoison_memory_region(p, n);
        memset(p, fill, n);
        #else
        p = a.end - n;
        memset(p - kPad, 0xC5, kPad);
        memset(p, fill, n);
        #endif
    }
    Buf(const char *s, size_t n_) : Buf(n_) { if(n_) memcpy(p, s, n_); }
    explicit Buf(std::string const& s) : Buf(s.data(), s.size()) {}
    Buf(Buf const&) = delete;
    Buf &operator=(Buf const&) = delete;
    ~Buf()
    {
        #if MC_ASAN
        __asan_poison_memory_region(p, n);
        #endif
        arena_top() = idx;
    }
    bool ok() const
    {
        #if !MC_ASAN
        for(size_t i = 1; i <= kPad; ++i) if((unsigned char)p[-(long)i] != 0xC5) return false;
        #endif
        return true;
    }
    void fill(unsigned char f = 0xEE) { memset(p, f, n); }
    std::string str() const { return std::string(p, n); }
    std::string str(size_t k) const { return std::string(p, k < n ? k : n); }
};
/// release the buffers of a case that was left by longjmp
inline void arena_release(size_t mark)
{
    #if MC_ASAN
    for(size_t i = mark; i < arena_top() && i < kNumArena; ++i) __asan_poison_memory_region(arenas()[i].base, kArena);
    #endif
    arena_top() = mark;
}

// ---------------------------------------------------------------- running cases
/// run one case: `desc(std::string&)` renders it (only when needed), `body()` drives c4.
/// Any c4 error raised inside is a violation, unless inside expect_error().
template<class D, class B>
inline bool run_case(D const& desc, B &&body)
{
    State &s = st();
    s.desc_fn = &desc_thunk<D>;
    s.desc_ptr = &desc;
    const size_t mark = arena_top();
    if(_setjmp(s.env) == 0)
    {
        s.armed = true;
        body();
        s.armed = false;
        s.desc_fn = nullptr;
        return true;
    }
    s.armed = false;
    arena_release(mark);
    violation("the library reported an error on a valid call: %s", s.lasterr.c_str());
    s.desc_fn = nullptr;
    return false;
}

/// run body; returns true if it raised a c4 error. nests inside run_case.
template<class B>
inline bool errors_in(B &&body)
{
    State &s = st();
    jmp_buf save; memcpy(&save, &s.env, sizeof(save));
    bool sarmed = s.armed, sexp = s.expecting;
    volatile bool got = false;
    const size_t mark = arena_top();
    if(_setjmp(s.env) == 0)
    {
        s.armed = true; s.expecting = true;
        body();
    }
    else { got = true; arena_release(mark); }
    memcpy(&s.env, &save, sizeof(save));
    s.armed = sarmed; s.expecting = sexp;
    return got;
}

// ---------------------------------------------------------------- sections
struct Section { const char *name; void (*fn)(); int shards; };
inline std::vector<Section> &sections() { static std::vector<Section> v; return v; }
struct Reg { Reg(const char *n, void (*f)(), int sh) { sections().push_back({n, f, sh}); } };
#define SECTION(name, shards) static void sec_##name(); static ::mc::Reg reg_##name(#name, &sec_##name, shards); static void sec_##name()

inline int main_(int argc, char **argv)
{
    std::string run;
    State &s = st();
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if(a == "--list") { for(auto &x : sections()) printf("%s %d\n", x.name, x.shards); return 0; }
        else if(a == "--run" && i + 1 < argc) run = argv[++i];
        else if(a == "--thorough") s.thorough = true;
        else if(a == "--shard" && i + 2 < argc) { s.shard = strtoull(argv[++i], 0, 10); s.nshard = strtoull(argv[++i], 0, 10); }
        else if(a == "--maxviol" && i + 1 < argc) s.maxviol = atoi(argv[++i]);
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    arenas();
    c4::set_error_callback(&on_error);
    c4::set_error_flags(c4::ON_ERROR_CALLBACK);
    #if MC_ASAN
    __sanitizer_set_death_callback(&on_sanitizer_death);
    #endif
    // an alternate stack: a runaway recursion must be reported too
    static char altstack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = &on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for(int sig : {SIGABRT, SIGFPE, SIGILL
        #if !MC_ASAN
        , SIGSEGV, SIGBUS
        #endif
        }) sigaction(sig, &sa, nullptr);
    sa.sa_handler = &on_tick; sa.sa_flags = SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval tv; tv.it_interval.tv_sec = 5; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    for(auto &x : sections())
    {
        if(!run.empty() && run != x.name) continue;
        s.section = x.name; s.ctr = 0; s.nsamples = 0;
        s.states = s.trans = s.traces = 0;
        x.fn();
        stats("MC-STAT");
    }
    outline(s.nviol ? "MC-DONE violations" : "MC-DONE clean");
    return s.nviol ? 1 : 0;
}

// ---------------------------------------------------------------- enumeration helpers
/// every ordered pair of different bytes, divided among the shards: no character value is special unless the check says so
template<class F> inline void byte_pairs(F &&f) { for(int x = 0; x < 256; ++x) { if(!mc::mine()) continue; for(int y = 0; y < 256; ++y) if(x != y) f((char)x, (char)y); } }

/// all strings over `alphabet` with length in [lo,hi], shortest first; f(std::string const&)
template<class F>
inline void all_strings(std::string const& alphabet, size_t lo, size_t hi, F &&f)
{
    for(size_t len = lo; len <= hi; ++len)
    {
        std::string s(len, alphabet.empty() ? 'x' : alphabet[0]);
        std::vector<size_t> ix(len, 0);
        for(;;)
        {
            f((std::string const&)s);
            size_t k = len;
            while(k > 0)
            {
                --k;
                if(++ix[k] < alphabet.size()) { s[k] = alphabet[ix[k]]; break; }
                ix[k] = 0; s[k] = alphabet[0];
                if(k == 0) { k = (size_t)-1; break; }
            }
            if(len == 0 || k == (size_t)-1) break;
        }
    }
}
inline u64 count_strings(size_t k, size_t lo, size_t hi) { u64 r = 0, p = 1; for(size_t i = 0; i <= hi; ++i) { if(i >= lo) r += p; p *= k; } return r; }

} // namespace mc

#define MC_MAIN int main(int argc, char **argv) { return mc::main_(argc, argv); }
// a case: CASE(rendering expression of type std::string) { body };
#define MC_CASE(descexpr, ...) ::mc::run_case([&](std::string &mc_s_) { mc_s_ = (descexpr); }, [&] { __VA_ARGS__ })
