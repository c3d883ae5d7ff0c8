// Shared part of the replay harnesses: they run the real code of /repo natively on concrete inputs against an
// independent oracle, looking for an input that shows a violation reported by the verifier.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace hz
{
struct shared_t { char desc[4096]; unsigned long cases; unsigned long beat; char fail[4096]; };
inline shared_t *sh() { static shared_t *p = (shared_t *)mmap(0, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p; }
inline void desc(const char *f, ...)
{
    va_list a; va_start(a, f); vsnprintf(sh()->desc, sizeof(sh()->desc), f, a); va_end(a); ++sh()->cases; ++sh()->beat;
}
inline void note(const char *f, ...)   // append to the description of the current case
{
    size_t n = strlen(sh()->desc); va_list a; va_start(a, f); vsnprintf(sh()->desc + n, sizeof(sh()->desc) - n, f, a); va_end(a); ++sh()->beat;
}
inline void beat() { ++sh()->beat; }
[[noreturn]] inline void fail(const char *f, ...)
{
    va_list a; va_start(a, f); vsnprintf(sh()->fail, sizeof(sh()->fail), f, a); va_end(a);
    _exit(77);
}
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 1) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; } };
inline uint64_t interesting(Rng &r, unsigned w)
{
    uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
    switch (r.below(6))
    {
        case 0: return (1ull << r.below(w)) & m;
        case 1: return ((1ull << r.below(w)) - 1) & m;
        case 2: return (((1ull << r.below(w)) + 1)) & m;
        case 3: return (m - r.below(5)) & m;
        case 4: return r.next() & m & (r.next() | (m >> r.below(w)));
        default: return (r.next() >> r.below(64)) & m;
    }
}
inline std::map<std::string, uint64_t> model;   // the verifier's counterexample
inline double budget = 20; inline uint64_t seed = 1;
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double started;
inline double part_start, part_budget;
inline bool time_left() { return now() - part_start < part_budget; }
struct Part { const char *name; std::function<void()> fn; };
// child exit statuses: 0 clean; 77 property violated; anything else (signal, sanitizer, hang) is a crash in the case
inline int run(int argc, char **argv, std::vector<Part> parts)
{
    started = now();
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; size_t e = a.find('=');
        if (a.rfind("--budget=", 0) == 0) budget = atof(a.c_str() + 9);
        else if (a.rfind("--seed=", 0) == 0) seed = strtoull(a.c_str() + 7, 0, 10);
        else if (e != std::string::npos) model[a.substr(0, e)] = strtoull(a.c_str() + e + 1, 0, 10);
    }
    int rc = 0;
    unsigned long total = 0;
    for (auto &p : parts)
    {
        memset(sh(), 0, sizeof(shared_t));
        fflush(0);
        pid_t c = fork();
        if (!c) { part_start = now(); part_budget = budget / parts.size(); p.fn(); _exit(0); }
        int st = 0; unsigned long last = ~0ul; double t = now(); bool hung = false;
        for (;;)
        {
            if (waitpid(c, &st, WNOHANG) == c) break;
            if (sh()->beat != last) { last = sh()->beat; t = now(); }
            if (now() - t > 8) { hung = true; kill(c, SIGKILL); waitpid(c, &st, 0); break; }
            usleep(2000);
        }
        total += sh()->cases;
        if (hung) { printf("FAIL [%s] does not terminate: %s\n", p.name, sh()->desc); rc = 1; break; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { printf("FAIL [%s] %s: %s\n", p.name, sh()->desc, sh()->fail); rc = 1; break; }
        if (WIFSIGNALED(st)) printf("FAIL [%s] killed by signal %d: %s\n", p.name, WTERMSIG(st), sh()->desc);
        else printf("FAIL [%s] stopped with status %d (sanitizer or abort): %s\n", p.name, WEXITSTATUS(st), sh()->desc);
        rc = 1; break;
    }
    printf("cases=%lu\n", total);
    return rc;
}
// run f in a child process: true if it ended by abort()
inline int ends(const std::function<void()> &f)
{
    fflush(0);
    pid_t c = fork();
    if (!c) { if (!freopen("/dev/null", "w", stderr)) {} f(); _exit(0); }
    int st = 0; double t = now();
    while (waitpid(c, &st, WNOHANG) != c)
    {
        beat();
        if (now() - t > 6) { kill(c, SIGKILL); waitpid(c, &st, 0); return 'H'; }
        usleep(200);
    }
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT ? 'A' : 'S';
    return WEXITSTATUS(st) == 0 ? 'R' : WEXITSTATUS(st) == 77 ? 'F' : 'S';
}
}  // namespace hz
#include <fcntl.h>
// system allocation stand-in used by the replay builds: real memory, with a record of every call
#include <sysops/memory_ops.h>
#include <stdlib.h>
namespace hz { struct syscall_t { char op; void *p; std::size_t align, size; }; inline std::vector<syscall_t> sys; inline bool sys_fail = false; }
namespace sysops { namespace memory { namespace ops {
int posix_memalign(void **p, std::size_t a, std::size_t n) noexcept
{
    if (hz::sys_fail || n > (1ull << 32)) { hz::sys.push_back({'m', nullptr, a, n}); *p = (void *)0x10; /* unspecified on failure */ return 12; }
    if (a < sizeof(void *) || (a & (a - 1))) { hz::sys.push_back({'m', nullptr, a, n}); *p = (void *)0x10; return 22; }
    int r = ::posix_memalign(p, a, n); hz::sys.push_back({'m', r ? nullptr : *p, a, n}); return r;
}
void free(void *p) noexcept { hz::sys.push_back({'f', p, 0, 0}); ::free(p); }
}}}
