// Native replay runtime: runs a harness entry on recorded inputs against the real build of the code.
// Usage: prog <entry> <inputs-file>     (exit 0 ok, 1 check failed, 3 assumption violated, 4 input mismatch)
//        prog --batch <entry> <file>    file holds several input blocks separated by lines "--"; each block is run in
//                                       a child process; prints one line per block: "<exit> <observations...>"
#include "vx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct In
{
    std::string name, kind;
    std::uint64_t v;
};
static std::vector<In> ins;
static size_t          pos = 0;
static std::string     obs;
static int             outFd = -1;

static void finish(int code)
{
    if (outFd >= 0)
    {
        std::string l = std::to_string(code) + obs + "\n";
        if (write(outFd, l.data(), l.size()) < 0) {}
    }
    fflush(stdout);
    fflush(stderr);
    _exit(code);
}
static std::uint64_t next(const char* name)
{
    if (pos >= ins.size())
    {
        fprintf(stderr, "replay: input list exhausted at '%s'\n", name);
        finish(4);
    }
    if (ins[pos].name != name)
    {
        fprintf(stderr, "replay: expected input '%s', harness asks for '%s'\n", ins[pos].name.c_str(), name);
        finish(4);
    }
    return ins[pos++].v;
}
extern "C"
{
    std::uint64_t vx_u64(const char* n) { return next(n); }
    std::uint32_t vx_u32(const char* n) { return (std::uint32_t) next(n); }
    std::uint16_t vx_u16(const char* n) { return (std::uint16_t) next(n); }
    std::uint8_t  vx_u8(const char* n) { return (std::uint8_t) next(n); }
    bool          vx_bool(const char* n) { return next(n) & 1; }
    double        vx_f64(const char* n) { std::uint64_t u = next(n); double d; memcpy(&d, &u, 8); return d; }
    std::uint64_t vx_range(const char* n, std::uint64_t lo, std::uint64_t hi)
    {
        std::uint64_t v = next(n);
        if (v < lo || v > hi) finish(3);
        return v;
    }
    std::int64_t vx_irange(const char* n, std::int64_t lo, std::int64_t hi)
    {
        std::int64_t v = (std::int64_t) next(n);
        if (v < lo || v > hi) finish(3);
        return v;
    }
    std::uint64_t vx_part() { return next("$part"); }
    void vx_assume(bool c) { if (!c) finish(3); }
    void vx_check(bool c, const char* label)
    {
        if (!c)
        {
            printf("CHECK FAILED: %s\n", label);
            finish(1);
        }
    }
    void vx_fail(const char* label)
    {
        printf("CHECK FAILED: %s\n", label);
        finish(1);
        __builtin_unreachable();
    }
    void vx_observe(std::uint64_t v)
    {
        char b[32];
        snprintf(b, sizeof b, " 0x%llx", (unsigned long long) v);
        obs += b;
    }
    void          vx_reach(const char*) {}
    std::uint64_t vx_concretize(std::uint64_t v) { return v; }
    bool          vx_symbolic() { return false; }
    // environment stubs (linked with --wrap=<fn> when the property declares them)
#ifndef VX_REAL_THREADS
    double __wrap_exp(double) { return vx_f64("$exp"); }
    double __wrap_pow(double, double) { return vx_f64("$pow"); }
    double __wrap_erf(double) { return vx_f64("$erf"); }
#endif
    int  vx_rand_max = 0x7fffffff;
    int  __wrap_rand() { return static_cast<int>(vx_range("$rand", 0, static_cast<std::uint64_t>(vx_rand_max))); }
    void __wrap_srand(unsigned) {}
    long __wrap_time(long* t) { if (t) *t = 1000; return 1000; }
}

static bool readBlock(FILE* f)
{
    ins.clear();
    pos = 0;
    obs.clear();
    char line[4096];
    bool any = false;
    while (fgets(line, sizeof line, f))
    {
        any = true;
        if (!strncmp(line, "--", 2)) return true;
        if (line[0] == '#' || line[0] == '\n') continue;
        char k[256], v[256], n[2048];
        if (sscanf(line, "%255s %255s %2047[^\n]", k, v, n) == 3) ins.push_back({n, k, strtoull(v, nullptr, 0)});
    }
    return any;
}

int main(int argc, char** argv)
{
    bool batch = argc > 1 && !strcmp(argv[1], "--batch");
    if (argc < (batch ? 4 : 3)) return 9;
    const char* entry = argv[batch ? 2 : 1];
    const char* file  = argv[batch ? 3 : 2];
    auto fn = (void (*)()) dlsym(RTLD_DEFAULT, entry);
    if (!fn) { fprintf(stderr, "no entry %s\n", entry); return 9; }
    FILE* f = fopen(file, "r");
    if (!f) return 9;
    if (!batch)
    {
        readBlock(f);
        fn();
        printf("replay: completed, all checks passed\n");
        return 0;
    }
    while (readBlock(f))
    {
        fflush(stdout);
        int p[2];
        if (pipe(p)) return 9;
        pid_t c = fork();
        if (c == 0)
        {
            close(p[0]);
            outFd = p[1];
            alarm(60);
            fn();
            finish(0);
        }
        close(p[1]);
        std::string r;
        char        b[4096];
        ssize_t     n;
        while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t) n);
        close(p[0]);
        int st = 0;
        waitpid(c, &st, 0);
        if (r.empty()) printf("BLOCK crash:%d\n", WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st));
        else printf("BLOCK %s", r.c_str());
    }
    return 0;
}

#ifndef VX_REAL_THREADS
#define VX_NATIVE
#include "threads.inc"
#else
extern "C" { int vx_thread_order = 0; }
#endif
