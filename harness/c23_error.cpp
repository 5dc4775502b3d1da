// C23: error reporting and scoped settings
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mc.hpp"
#include <c4/error.hpp>
#include <c4/memory_resource.hpp>
#include <new>
#include <stdexcept>
#include <sys/wait.h>
typedef std::string Str;
#if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
#define THROWS 1
#else
#define THROWS 0
#endif
struct Err { int which; };
static const c4::error_flags g_initial_flags = c4::get_error_flags(); static const c4::error_callback_type g_initial_cb = c4::get_error_callback();
static int g_calls[3]; static Str g_msg; static size_t g_len; static bool g_term;
static void record(int w, const char *m, size_t n) { ++g_calls[w]; g_msg.assign(m, n); g_len = n; g_term = m[n] == '\0'; }
static void cbA(const char *m, size_t n) { record(0, m, n); throw Err{0}; }
static void cbB(const char *m, size_t n) { record(1, m, n); throw Err{1}; }
static void cbC(const char *m, size_t n) { record(2, m, n); throw Err{2}; }
static void cbRet(const char *m, size_t n) { record(0, m, n); }
struct Res : c4::MemoryResource { void *do_allocate(size_t, size_t, void*) override { return nullptr; } void *do_reallocate(void*, size_t, size_t, size_t) override { return nullptr; } void do_deallocate(void*, size_t, size_t) override {} };
static Res r0, r1, r2, r3;

/// the settings in force, as they should be
struct Set { c4::error_flags f; c4::error_callback_type cb; c4::MemoryResource *m; };
static Set S;
enum : c4::error_flags { FA = c4::ON_ERROR_CALLBACK, FB = c4::ON_ERROR_CALLBACK | c4::ON_ERROR_ABORT, FC = c4::ON_ERROR_ABORT, FD = c4::ON_ERROR_CALLBACK | c4::ON_ERROR_DEBUGBREAK };
enum Tok { E_A, E_B, E_F, E_F2, E_FB, E_F0, M_1, M_2, MC_0, MC_2, SET_F, SET_C, SET_M, RAISE, THROW, TRY, CLOSE, NTOK };
static const char *TN[] = {"ScopedErrorSettings(A){", "ScopedErrorSettings(B){", "ScopedErrorSettings(FA){", "ScopedErrorSettings(FC){", "ScopedErrorSettings(FB,B){", "ScopedErrorSettings(FA,null){", "ScopedMemoryResource(1){", "ScopedMemoryResource(2){", "ScopedMemoryResourceCounts{", "ScopedMemoryResourceCounts(2){", "set_error_flags(FD)", "set_error_callback(C)", "set_memory_resource(3)", "error", "throw", "try{", "}"};
struct Thrown {};
struct Prog
{
    int t[16]; int n; int pos; int nopen = 0;
    Str str() const { Str s; for(int i = 0; i < n; ++i) s += Str(i ? " " : "") + TN[t[i]]; return s; }
    void look(const char *when)
    {
        MC_CHECK(c4::get_error_flags() == S.f, "%s (token %d): the error flags are %#x, expected %#x", when, pos, (unsigned)c4::get_error_flags(), (unsigned)S.f);
        MC_CHECK(c4::get_error_callback() == S.cb, "%s (token %d): another error callback is in force", when, pos);
        MC_CHECK(c4::get_memory_resource() == S.m, "%s (token %d): another memory resource is in force", when, pos);
        mc::T(3);
    }
    // runs tokens until the matching CLOSE or the end
    void body()
    {
        while(pos < n)
        {
            int k = t[pos++];
            if(k == CLOSE) return;
            Set save = S;
            switch(k)
            {
            #define SCOPE(obj, upd) { struct Guard { Set &s; Set v; Prog *p; ~Guard() { s = v; } }; try { { obj; upd; look("inside a scope"); body(); } S.f = (k <= E_F0) ? save.f : S.f; S.cb = (k <= E_F0) ? save.cb : S.cb; S.m = (k > E_F0) ? save.m : S.m; look("after a scope"); } catch(Thrown) { if(k <= E_F0) { S.f = save.f; S.cb = save.cb; } else S.m = save.m; look("after leaving a scope by an exception"); throw; } break; }
            case E_A: SCOPE(c4::ScopedErrorSettings o(cbA), S.cb = cbA)
            case E_B: SCOPE(c4::ScopedErrorSettings o(cbB), S.cb = cbB)
            case E_F: SCOPE(c4::ScopedErrorSettings o((c4::error_flags)FA), S.f = FA)
            case E_F2: SCOPE(c4::ScopedErrorSettings o((c4::error_flags)FC), S.f = FC)
            case E_FB: SCOPE(c4::ScopedErrorSettings o((c4::error_flags)FB, cbB), (S.f = FB, S.cb = cbB))
            case E_F0: SCOPE(c4::ScopedErrorSettings o((c4::error_flags)FA, nullptr), (S.f = FA, S.cb = nullptr))
            case M_1: SCOPE(c4::ScopedMemoryResource o(&r1), S.m = &r1)
            case M_2: SCOPE(c4::ScopedMemoryResource o(&r2), S.m = &r2)
            case MC_0: SCOPE(c4::ScopedMemoryResourceCounts o, (S.m = &o.mr, inner(o.mr.resource() == save.m)))
            case MC_2: SCOPE(c4::ScopedMemoryResourceCounts o(&r2), (S.m = &o.mr, inner(o.mr.resource() == &r2)))
            case SET_F: c4::set_error_flags(FD); S.f = FD; look("after setting"); break;
            case SET_C: c4::set_error_callback(cbC); S.cb = cbC; look("after setting"); break;
            case SET_M: c4::set_memory_resource(&r3); S.m = &r3; look("after setting"); break;
            case RAISE:
                if((S.f & c4::ON_ERROR_CALLBACK) && S.cb)
                {
                    g_calls[0] = g_calls[1] = g_calls[2] = 0; int got = -1;
                    try { C4_ERROR("token %d of %d", pos, n); } catch(Err e) { got = e.which; }
                    int want = S.cb == cbA ? 0 : S.cb == cbB ? 1 : 2;
                    MC_CHECK(got == want && g_calls[want] == 1 && g_calls[0] + g_calls[1] + g_calls[2] == 1, "token %d: the error reached callback %d (%d calls in all), expected %d", pos, got, g_calls[0] + g_calls[1] + g_calls[2], want);
                    MC_CHECK(g_msg == mc::fmt("token %d of %d", pos, n) && g_term, "the message is %s", mc::q(g_msg).c_str());
                    look("after an error");
                }
                break;
            case THROW: throw Thrown();
            case TRY: try { body(); look("after a try block"); } catch(Thrown) { skip(); look("after catching"); } break;
            }
        }
    }
    static void inner(bool ok) { MC_CHECK(ok, "ScopedMemoryResourceCounts counts another resource"); }
    void skip() { } // an exception leaves the tokens up to the end of the try block unexecuted: the interpreter continues behind them
    void run()
    {
        c4::set_error_flags(FA); c4::set_error_callback(cbA); c4::set_memory_resource(&r0);
        S = {FA, cbA, &r0}; pos = 0;
        try { while(pos < n) body(); } catch(Thrown) {}
        look("at the end");
    }
};
static void reset() { c4::set_error_callback(&mc::on_error); c4::set_error_flags(c4::ON_ERROR_CALLBACK); c4::set_memory_resource(c4::get_memory_resource_malloc()); }
SECTION(scopes, 8)
{
    const int D = 5 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("all programs of up to %d tokens: 10 kinds of scopes (6 error, 4 memory), direct settings, reported errors, exceptions, try blocks, scope ends", D));
    for(int len = 1; len <= D; ++len)
    {
        long total = 1; for(int i = 0; i < len; ++i) total *= NTOK;
        for(long c = 0; c < total; ++c)
        {
            if(!mc::mine()) continue;
            Prog p; p.n = len; long x = c; int open = 0; bool ok = true;
            for(int i = len - 1; i >= 0; --i) { p.t[i] = (int)(x % NTOK); x /= NTOK; }
            for(int i = 0; i < len; ++i) { if(p.t[i] <= MC_2 || p.t[i] == TRY) ++open; if(p.t[i] == CLOSE && --open < 0) ok = false; }
            if(!ok) continue;
            mc::S();
            mc::run_case([&](Str &s) { s = p.str(); }, [&] { p.run(); mc::V(); });
        }
    }
    reset();
}
SECTION(scopes_deep, 4)
{
    const int D = 9 + (mc::thorough() ? 2 : 0);
    mc::bound(mc::fmt("all programs of up to %d tokens over {ScopedErrorSettings(FB,B), ScopedMemoryResourceCounts(2), throw or error, try, scope end}", D));
    const int al[] = {E_FB, MC_2, RAISE, THROW, TRY, CLOSE}; enum { K = 6 };
    for(int len = 6; len <= D - 1; ++len)
    {
        long total = 1; for(int i = 0; i < len; ++i) total *= K;
        for(long c = 0; c < total; ++c)
        {
            if(!mc::mine()) continue;
            Prog p; p.n = len; long x = c; int open = 0; bool ok = true;
            for(int i = len - 1; i >= 0; --i) { p.t[i] = al[x % K]; x /= K; }
            for(int i = 0; i < len; ++i) { if(p.t[i] <= MC_2 || p.t[i] == TRY) ++open; if(p.t[i] == CLOSE && --open < 0) ok = false; }
            if(!ok) continue;
            mc::S();
            mc::run_case([&](Str &s) { s = p.str(); }, [&] { p.run(); mc::V(); });
        }
    }
    reset();
}
// ---------------------------------------------------------------- messages
template<class F> static void msg(Str const& what, Str const& full, F &&f)
{
    mc::S();
    mc::run_case([&](Str &s) { s = what; }, [&] {
        c4::set_error_callback(cbA); c4::set_error_flags(FA);
        g_calls[0] = 0; bool got = false;
        try { f(); } catch(Err) { got = true; }
        mc::T();
        MC_CHECK(got && g_calls[0] == 1, "the callback was called %d times", g_calls[0]);
        if(!got) return;
        if(full.size() <= 1023) MC_CHECK(g_msg == full && g_term, "the message of %zu characters arrived as %zu characters: %s", full.size(), g_msg.size(), mc::q(g_msg.substr(0, 60)).c_str());
        else MC_CHECK(g_len < full.size() + 1 && g_len >= 900 && full.compare(0, g_len, g_msg) == 0 && g_term, "the message of %zu characters was not truncated to its beginning (%zu characters)", full.size(), g_msg.size());
        mc::V();
    });
    reset();
}
SECTION(messages, 2)
{
    mc::bound("messages of every length 0-1100 through C4_ERROR and C4_CHECK_MSG; all formats of arity 0-2 over {%s,%d,%zu,%%} and conditions with percent signs");
    for(size_t len = 0; len <= 1100; ++len)
    {
        if(!mc::mine()) continue;
        Str s; for(size_t i = 0; i < len; ++i) s += (char)('a' + (i * 7 + i / 26) % 26);
        msg(mc::fmt("C4_ERROR(\"%%s\",...) of %zu characters", len), s, [&]{ C4_ERROR("%s", s.c_str()); });
        msg(mc::fmt("C4_ERROR(\"<%%s>%%d\",...) of %zu characters", len), "<" + s + ">" + std::to_string(len), [&]{ C4_ERROR("<%s>%d", s.c_str(), (int)len); });
        msg(mc::fmt("C4_CHECK_MSG(false,...) of %zu characters", len), "check failed: false\n" + s, [&]{ C4_CHECK_MSG(false, "%s", s.c_str()); });
        msg(mc::fmt("literal format of %zu characters", len), s, [&]{ c4::handle_error(C4_SRCLOC(), s.c_str()); });
    }
    if(mc::st().shard) return;
    for(int i = -3; i < 300; i += 7)
    {
        msg(mc::fmt("%%d %d", i), std::to_string(i), [&]{ C4_ERROR("%d", i); });
        msg(mc::fmt("%%s|%%zu %d", i), Str("x%d|") + std::to_string((size_t)i), [&]{ C4_ERROR("%s|%zu", "x%d", (size_t)i); });
    }
    msg("percent in the text", "100%", [&]{ C4_ERROR("100%%"); });
    msg("percent in an argument", "a%sb", [&]{ C4_ERROR("%s", "a%sb"); });
    int n = 5; size_t s = 2; Str d = "q"; const char *c = d.c_str();
    msg("C4_CHECK(n % s == 0)", "check failed: n % s == 0", [&]{ C4_CHECK(n % s == 0); });
    msg("C4_CHECK_MSG(n % s == 0)", "check failed: n % s == 0\nn=5", [&]{ C4_CHECK_MSG(n % s == 0, "n=%d", n); });
    msg("C4_CHECK_MSG(n %d == 0)", "check failed: n %s != 1\ntext q 7", [&]{ C4_CHECK_MSG(n %s != 1, "text %s %d", c, 7); });
    msg("C4_CHECK_MSG(c[0] == '%')", "check failed: c[0] == '%'\nx", [&]{ C4_CHECK_MSG(c[0] == '%', "x"); });
    msg("C4_NOT_IMPLEMENTED", "NOT IMPLEMENTED", [&]{ C4_NOT_IMPLEMENTED(); });
    msg("C4_NOT_IMPLEMENTED_MSG", "NOT IMPLEMENTED: a 3", [&]{ C4_NOT_IMPLEMENTED_MSG("a %d", 3); });
    msg("C4_NEVER_REACH", "never reach this point", [&]{ C4_NEVER_REACH(); });
    msg("C4_NEVER_REACH_MSG", "never reach this point: b 4", [&]{ C4_NEVER_REACH_MSG("b %d", 4); });
}
// ---------------------------------------------------------------- checks
SECTION(checks, 1)
{
    mc::bound("every checking macro with a true and a false condition and predicate: error exactly when the check is on and fails, the condition evaluated at most once");
    int ev = 0; auto cond = [&](bool b) { ++ev; return b; };
    #define CHK(stmt, on, fails, evals) { mc::S(); mc::run_case([&](Str &s) { s = #stmt " with condition " + Str(b ? "true" : "false"); }, [&] { c4::set_error_callback(cbA); c4::set_error_flags(FA); ev = 0; g_calls[0] = 0; bool got = false; try { stmt; } catch(Err) { got = true; } mc::T(); \
        MC_CHECK(got == ((on) && (fails)) && g_calls[0] == (int)got, "error: %d", (int)got); MC_CHECK(ev == ((on) ? (evals) : 0), "the condition was evaluated %d times", ev); mc::V(); }); reset(); }
    for(int b = 0; b < 2; ++b)
    {
        CHK(C4_CHECK(cond(b)), true, !b, 1)
        CHK(C4_CHECK_MSG(cond(b), "x %d", 1), true, !b, 1)
        CHK(C4_CHECK_MSG(cond(b), "x"), true, !b, 1)
        CHK(C4_ASSERT(cond(b)), C4_USE_ASSERT, !b, 1)
        CHK(C4_ASSERT_MSG(cond(b), "x %d", 1), C4_USE_ASSERT, !b, 1)
        CHK(C4_XASSERT(cond(b)), C4_USE_XASSERT, !b, 1)
        CHK(C4_XASSERT_MSG(cond(b), "x %d", 1), C4_USE_XASSERT, !b, 1)
        CHK(C4_ASSERT_IF(true, cond(b)), C4_USE_ASSERT, !b, 1)
        CHK(C4_ASSERT_IF(false, cond(b)), C4_USE_ASSERT, false, 0)
        CHK(C4_XASSERT_IF(true, cond(b)), C4_USE_XASSERT, !b, 1)
        CHK(C4_XASSERT_IF(false, cond(b)), C4_USE_XASSERT, false, 0)
        CHK(C4_NOT_IMPLEMENTED_IF(cond(b)), true, b, 1)
        CHK(C4_NOT_IMPLEMENTED_IF_MSG(cond(b), "x %d", 1), true, b, 1)
        CHK(if(b) C4_CHECK(cond(true)); else C4_CHECK(cond(false)), true, !b, 1)
        CHK(if(b) C4_ERROR("x"); else ev += 0, true, b, 0)
    }
}
// ---------------------------------------------------------------- outcomes, in forked processes
SECTION(outcomes, 2)
{
    mc::bound(mc::fmt("all 32 combinations of error flags with no callback, a returning and a throwing one, in a forked process%s: who is called, what is logged, how the process goes on; warnings", THROWS ? " (errors throw exceptions in this build)" : ""));
    for(unsigned f = 0; f < 32; ++f) for(int cb = 0; cb < 3; ++cb) for(int warn = 0; warn < 2; ++warn)
    {
        if(warn && cb == 0 && f) continue;
        if(!mc::mine()) continue;
        mc::S();
        MC_CASE(mc::fmt("%s with flags %#x, %s callback", warn ? "warning" : "error", f, cb == 0 ? "no" : cb == 1 ? "a returning" : "a throwing"), {
            int pe[2], po[2]; if(pipe(pe) || pipe(po)) { perror("pipe"); _exit(2); }
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if(pid == 0)
            {
                dup2(pe[1], 2); close(pe[0]); close(po[0]);
                signal(SIGABRT, SIG_DFL);
                struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_VIRTUAL, &z, nullptr);
                struct rlimit_ { }; (void)sizeof(rlimit_);
                static int wfd; wfd = po[1];
                struct L { static void ret(const char *m, size_t n) { Str s = "C:" + Str(m, n) + ";"; ssize_t w = write(wfd, s.data(), s.size()); (void)w; } static void thr(const char *m, size_t n) { ret(m, n); throw Err{0}; } };
                c4::set_error_callback(cb == 0 ? nullptr : cb == 1 ? &L::ret : &L::thr);
                c4::set_error_flags(f);
                const char *end = "R;";
                try { if(warn) C4_WARNING("te%dst 100%%", 42); else C4_ERROR("te%dst 100%%", 42); }
                catch(Err) { end = "E;"; } catch(std::runtime_error const& e) { static Str s; s = Str("X:") + e.what() + ";"; end = s.c_str(); }
                ssize_t w = write(wfd, end, strlen(end)); (void)w;
                _exit(0);
            }
            close(pe[1]); close(po[1]);
            auto slurp = [](int fd) { Str s; char b[4096]; ssize_t r; while((r = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)r); close(fd); return s; };
            Str out = slurp(po[0]); Str log = slurp(pe[0]);
            int status = 0; waitpid(pid, &status, 0); mc::T();
            const Str text = "te42st 100%";
            Str want; bool abrt = false;
            if(warn) want = "R;";
            else
            {
                if((f & c4::ON_ERROR_CALLBACK) && cb) { want = "C:" + text + ";"; if(cb == 2) want += "E;"; }
                if(!((f & c4::ON_ERROR_CALLBACK) && cb == 2)) { if(THROWS && (f & c4::ON_ERROR_THROW)) want += "X:" + text + ";"; else abrt = true; }
            }
            MC_CHECK(out == want, "observed %s, expected %s", mc::q(out).c_str(), mc::q(want).c_str());
            MC_CHECK(abrt == (WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT), "the process %s abort", abrt ? "did not" : "did");
            bool logged = log.find(text) != Str::npos;
            MC_CHECK(logged == (warn || (f & c4::ON_ERROR_LOG) != 0), "logged: %s", mc::q(log).c_str());
            if(logged) MC_CHECK(log.find(warn ? "WARNING" : "ERROR") != Str::npos && log.find(text) == log.rfind(text) && log.find("c23_error.cpp") != Str::npos, "the log is %s", mc::q(log).c_str());
            mc::V();
        });
    }
}
SECTION(flags, 1)
{
    mc::bound("the five flags are distinct single bits; a process starts with the default flags and no callback");
    const c4::error_flags all[] = {c4::ON_ERROR_DEBUGBREAK, c4::ON_ERROR_LOG, c4::ON_ERROR_CALLBACK, c4::ON_ERROR_ABORT, c4::ON_ERROR_THROW};
    for(int i = 0; i < 5; ++i) for(int j = 0; j < 5; ++j)
    {
        mc::S();
        MC_CASE(mc::fmt("error flags %d and %d", i, j), { MC_CHECK(all[i] != 0 && (i == j || (all[i] & all[j]) == 0), "%#x and %#x cannot be told apart", (unsigned)all[i], (unsigned)all[j]); mc::T(); mc::V(); });
    }
    MC_CASE("settings at the start of a process", {
        MC_CHECK(g_initial_flags == c4::ON_ERROR_DEFAULTS && g_initial_cb == nullptr, "flags %#x", (unsigned)g_initial_flags);
        MC_CHECK((c4::error_flags)c4::ON_ERROR_DEFAULTS == (c4::ON_ERROR_DEBUGBREAK | c4::ON_ERROR_LOG | c4::ON_ERROR_CALLBACK | c4::ON_ERROR_ABORT), "default flags %#x", (unsigned)c4::ON_ERROR_DEFAULTS);
        mc::T(2); mc::V(); });
}
/// the answer in a fresh process; what: 0 plain, 1 traced by its parent; again: asked twice
static int debugger_in_child(bool traced)
{
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0)
    {
        if(traced && ptrace(PTRACE_TRACEME, 0, nullptr, nullptr) != 0) _exit(77);
        bool a = c4::is_debugger_attached(); bool b = c4::is_debugger_attached();
        _exit(a == b ? (a ? 1 : 0) : 2);
    }
    int status = 0;
    for(;;) { if(waitpid(pid, &status, 0) != pid) return 99; if(WIFSTOPPED(status)) { ptrace(PTRACE_CONT, pid, nullptr, (void*)(long)WSTOPSIG(status)); continue; } break; }
    return WIFEXITED(status) ? WEXITSTATUS(status) : 98;
}
SECTION(debugger, 1)
{
    mc::bound("is_debugger_attached() in processes that are and are not traced, asked twice each");
    for(int traced = 0; traced < 2; ++traced)
    {
        mc::S();
        MC_CASE(mc::fmt("is_debugger_attached() in a %s process", traced ? "traced" : "plain"), {
            // a plain child of a process that is itself being traced may be traced as well
            std::string st; if(FILE *f = fopen("/proc/self/status", "r")) { char b[4096]; st.assign(b, fread(b, 1, sizeof b, f)); fclose(f); }
            size_t at = st.find("TracerPid:\t");
            bool known = at != std::string::npos && st.compare(at + 11, 2, "0\n") == 0;
            if(known)
            {
                int r = debugger_in_child(traced != 0); mc::T(2);
                if(r != 77) MC_CHECK(r == traced, "answered %d", r);
            }
            mc::V();
        });
    }
}
MC_MAIN
