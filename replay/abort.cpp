#include "harness.h"
#include <algorithm>
#include <memory>
#include <new>
#include <string>
#include <fcntl.h>
#include <utils/common.h>
using namespace hz;
// runs f in a child with its standard error and output captured: 'A' aborted, 'R' returned, other: crash
static char outcome(const std::function<void()> &f, std::string &err, std::string &out)
{
    int p[2], q[2]; if (pipe(p) || pipe(q)) return '?'; fflush(0); pid_t c = fork();
    if (!c) { dup2(p[1], 2); dup2(q[1], 1); signal(SIGABRT, SIG_DFL); f(); fflush(0); _exit(0); }
    close(p[1]); close(q[1]); char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) err.append(b, n); while ((n = read(q[0], b, sizeof b)) > 0) out.append(b, n); close(p[0]); close(q[0]);
    int st; waitpid(c, &st, 0); return WIFSIGNALED(st) ? (WTERMSIG(st) == SIGABRT ? 'A' : 'S') : WEXITSTATUS(st) == 0 ? 'R' : 'S';
}
static void exact(const char *what, bool cond, const std::string &msg, const std::function<void()> &f)
{
    desc("%s condition=%d", what, cond); std::string e, o; char r = outcome(f, e, o);
    if (r != (cond ? 'A' : 'R')) fail("%s", r == 'A' ? "aborted" : r == 'R' ? "returned" : "crashed");
    if (e != (cond ? msg : "")) fail("standard error is \"%s\", expected \"%s\"", e.c_str(), cond ? msg.c_str() : ""); if (!o.empty()) fail("wrote to standard output");
}
static void has(const char *what, bool cond, const std::string &msg, const std::function<void()> &f)
{
    desc("%s condition=%d", what, cond); std::string e, o; char r = outcome(f, e, o);
    if (r != (cond ? 'A' : 'R')) fail("%s", r == 'A' ? "aborted" : r == 'R' ? "returned" : "crashed");
    if (cond ? e.find(msg) == std::string::npos || e.empty() : !e.empty()) fail("standard error is \"%s\", expected it to contain \"%s\"", e.c_str(), cond ? msg.c_str() : "");
}
static int evaluated; static bool ev(bool b) { ++evaluated; return b; }
static void all()
{
    for (int c = 0; c < 2; ++c)
    {
        bool b = c;
        exact("abort_if(c)", b, "", [=] { utils::abort_if(b); }); exact("abort_if(c, nullptr)", b, "", [=] { utils::abort_if(b, nullptr); });
        exact("abort_if(c, \"\")", b, "", [=] { utils::abort_if(b, ""); }); exact("abort_if(c, \"text\")", b, "text", [=] { utils::abort_if(b, "text"); }); exact("abort_if(c, \"100%%\")", b, "100%", [=] { utils::abort_if(b, "100%%"); });
        exact("abort_if with arguments", b, "-7 abc 123456789012 0xff x", [=] { utils::abort_if(b, "%d %s %ld %#x %c", -7, "abc", 123456789012l, 255u, 'x'); });
        std::string big(5000, 'q'); exact("abort_if long message", b, "<" + big + ">", [=] { utils::abort_if(b, "<%s>", big.c_str()); });
        has("UTILS_ABORT_IF(c)", b, "", [=] { UTILS_ABORT_IF(b); }); has("UTILS_ABORT_IF(c, text)", b, "plain text", [=] { UTILS_ABORT_IF(b, "plain text"); });
        has("UTILS_ABORT_IF with arguments", b, "v=<42> [str] -5", [=] { UTILS_ABORT_IF(b, "v=<%d> [%s] %ld", 42, "str", -5l); });
        has("UTILS_DEBUG_ABORT_IF with arguments", b, "v=<42>", [=] { UTILS_DEBUG_ABORT_IF(b, "v=<%d>", 42); }); has("UTILS_DEBUG_ABORT_IF(c)", b, "", [=] { UTILS_DEBUG_ABORT_IF(b); });
    }
    for (int closed = 0; closed < 2; ++closed) for (int c = 0; c < 2; ++c)
    {
        bool b = c; desc("condition=%d with standard error %s", c, closed ? "closed" : "full"); std::string e, o;
        char r = outcome([=] { if (closed) { close(2); fclose(stderr); } else { int f = open("/dev/full", O_WRONLY); dup2(f, 2); setvbuf(stderr, nullptr, _IONBF, 0); } utils::abort_if(b, "message %d\n", 5); }, e, o);
        if (r != (c ? 'A' : 'R')) fail("%s", r == 'A' ? "aborted" : r == 'R' ? "returned" : "crashed");
    }
    desc("condition evaluated once"); evaluated = 0; UTILS_ABORT_IF(ev(false), "x %d", 1); UTILS_DEBUG_ABORT_IF(ev(false)); if (evaluated != 2) fail("evaluated %d times in two macros", evaluated);
}
int main(int argc, char **argv) { return run(argc, argv, {{"abort_if", all}}); }
