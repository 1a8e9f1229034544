// Runs the registered sub-checks in forked workers, watches for failures,
// crashes, exits and hangs, shrinks the failing choice list, confirms it by
// replaying and writes a replay file.
#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <unordered_set>

using namespace pbt;

std::vector<Sub> &pbt::registry() { static std::vector<Sub> r; return r; }

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" const char *__asan_default_options() {
    return "exitcode=99:detect_leaks=0:allocator_may_return_null=0:handle_abort=1:max_malloc_fill_size=262144:malloc_fill_byte=190:detect_odr_violation=0:quarantine_size_mb=48:symbolize=1:print_stats=0:detect_stack_use_after_return=0:max_allocation_size_mb=6000";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }
// Mutex::lock: unguarded look at its debugging fields; staticRun: virtual table pointer read while a
// subclass may still be under construction; cblas_dgemm: error-reporting flags of the reference CBLAS
extern "C" const char *__tsan_default_suppressions() { return "race_top:Mutex::lock\nrace_top:Thread::staticRun\nrace_top:cblas_dgemm\n"; }
extern "C" const char *__tsan_default_options() { return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:detect_deadlocks=0"; }

namespace pbt { size_t liveBytes(); }
size_t pbt::liveBytes() {
    if (__sanitizer_get_current_allocated_bytes) return __sanitizer_get_current_allocated_bytes();
    struct mallinfo2 m = mallinfo2();
    return m.uordblks + m.hblkhd;
}

static double cpuNow() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static const int MAXSUB = 400, MAXHASH = 120000, NSAMP = 2, SAMPLEN = 1800;
struct Shm {
    volatile int state;           // 0 starting, 1 in a case, 2 between cases, 3 finished, 4 failed (msg)
    volatile int curSub; volatile long curIdx; volatile long done;
    volatile double caseStart, cpuStart;
    volatile int nch; uint64_t ch[MAX_CHOICES];
    char msg[2000];
    volatile long evals[MAXSUB], nontriv[MAXSUB], discards[MAXSUB];
    volatile int nsamp[MAXSUB]; char samples[MAXSUB][NSAMP][SAMPLEN];
    volatile int nhash; uint64_t hashes[MAXHASH];
    volatile int truncated;
    volatile double maxCase; volatile int maxSub;
};
static Shm *newShm() {
    void *p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shm *)p;
}

struct Opt {
    std::string prop, flavor = "asan", replay, replayDir = "replays", evidence, only;
    uint64_t seed = 1; int workers = 4; double cap = 300, mult = 1, caseTimeout = 25; bool leak = false, plain = false, thorough = false, verbose = false, list = false;
    double shrinkTime = 60;
} opt;

static std::vector<int> sel;          // selected sub indices
static std::vector<long> quota;       // cases per selected sub
static const int ROUNDS = 24;

static uint64_t caseSeed(int sub, long idx) {
    return mix(opt.seed * 0x9e3779b97f4a7c15ULL ^ mix(hstr(registry()[sub].prop) * 31 + hstr(registry()[sub].name)) ^ mix(uint64_t(idx) + (hstr(opt.flavor.c_str()) << 8)));
}

// result: 0 ok, 1 failure (msg set), 2 discard
static int execCase(Shm *sh, int sub, Src &s) {
    sh->msg[0] = 0;
    try {
        registry()[sub].fn(s);
    } catch (Failure &f) {
        if (opt.prop == "C39") return 0;      // wrong values are the other properties' business
        snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
        return 1;
    } catch (Discard &) {
        return 2;
    } catch (std::exception &e) {
        snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what());
        return 1;
    }
    return 0;
}

static int runCase(Shm *sh, int sub, long idx, const std::vector<uint64_t> *choices, bool wantDesc, std::string *desc, bool *nontriv) {
    sh->curSub = sub; sh->curIdx = idx; sh->caseStart = now(); sh->cpuStart = cpuNow();
    auto once = [&](bool describe) {
        Src s(sh->ch, &sh->nch);
        s.flavorPlain = opt.plain;
        s.wantDesc = describe;
        if (choices) { s.replay = true; s.in = choices->data(); s.nin = int(choices->size()); }
        else s.rng = Rng(caseSeed(sub, idx));
        sh->state = 1;
        int r = execCase(sh, sub, s);
        if (desc && describe) *desc = s.desc;
        if (nontriv) *nontriv = s.nontriv;
        return r;
    };
    int r;
    if (opt.leak) {
        // warm up, then a leak is steady growth of live memory over repeats of the case
        size_t b0 = liveBytes();
        r = once(wantDesc);
        if (desc && wantDesc) b0 += 0;
        if (r == 0 && liveBytes() > b0 + (desc ? desc->capacity() : 0)) {
            size_t prev = liveBytes(); int grow = 0; size_t by = 0;
            for (int k = 0; k < 4; ++k) {
                once(false);
                size_t b = liveBytes();
                if (b > prev) { ++grow; by = b - prev; }
                prev = b;
            }
            if (grow == 4) { snprintf(sh->msg, sizeof sh->msg, "leak: live heap grows by %zu bytes every time the case runs", by); r = 1; }
        }
    } else r = once(wantDesc);
    double t = now() - sh->caseStart;
    if (t > sh->maxCase) { sh->maxCase = t; sh->maxSub = sub; }
    sh->state = r == 1 ? 4 : 2;
    return r;
}

// deterministic order of a worker's cases: calls f(sub, idx); stops when f returns false
template <typename F> static void workerCases(int w, F f) {
    for (int r = 0; r < ROUNDS; ++r)
        for (size_t k = 0; k < sel.size(); ++k) {
            long n = quota[k], a = n * r / ROUNDS, b = n * (r + 1) / ROUNDS;
            for (long i = a; i < b; ++i) if (i % opt.workers == (w + long(k)) % opt.workers) if (!f(sel[k], i)) return;
        }
}

static void quiet() {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}
static void childSetup(int logfd) { prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (logfd >= 0) { dup2(logfd, 1); dup2(logfd, 2); } else quiet();
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (opt.plain) mallopt(M_PERTURB, 0x01);
    if (workerHook() && opt.prop == "C38") workerHook()();
}

static void workerMain(Shm *sh, int w, double deadline) {
    childSetup(-1);
    std::unordered_set<uint64_t> *seen = new std::unordered_set<uint64_t>;
    workerCases(w, [&](int sub, long idx) {
        if (now() > deadline) { sh->truncated = 1; return false; }
        bool nt = false; std::string desc;
        bool want = sh->nsamp[sub] < NSAMP && (idx % 7 < 4);
        int r = runCase(sh, sub, idx, nullptr, want, want ? &desc : nullptr, &nt);
        if (r == 1) _exit(10);
        sh->evals[sub]++; sh->done++;
        if (r == 2) { sh->discards[sub]++; return true; }
        if (nt) {
            uint64_t h = mix(sub + 1000003);
            for (int i = 0; i < sh->nch; ++i) h = mix(h ^ sh->ch[i]) + i;
            if (seen->insert(h).second) {
                sh->nontriv[sub]++;
                if (sh->nhash < MAXHASH) sh->hashes[sh->nhash++] = h;
            }
            if (want && !desc.empty() && sh->nsamp[sub] < NSAMP) {
                snprintf(sh->samples[sub][sh->nsamp[sub]], SAMPLEN, "%s", desc.c_str());
                sh->nsamp[sub]++;
            }
        }
        return true;
    });
    sh->state = 3;
    _exit(0);
}

struct Outcome { int kind = 0; std::string msg; };   // kind 0 pass, 1 oracle failure, 2 crash/exit, 3 hang, 4 discard

// a case's time is its own processor time, so that a busy machine is no failure; four times as long by the clock in any case.
// Where threads wait for one another (C36) it is the clock that counts.
static double cpuOf(pid_t pid) {
    char p[40]; snprintf(p, sizeof p, "/proc/%d/stat", int(pid)); FILE *f = fopen(p, "r"); if (!f) return 1e9; char b[1024]; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
    char *q = strrchr(b, ')'); unsigned long u = 0, v = 0; if (!q || sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &v) != 2) return 1e9; return double(u + v) / double(sysconf(_SC_CLK_TCK));
}
static bool overdue(pid_t pid, double wall, double cpuStart, double limit) { return wall > limit && (opt.prop == "C36" || wall > 4 * limit || cpuOf(pid) - cpuStart > limit); }
static Outcome await(pid_t pid, Shm *sh, double limit) {
    double t0 = now(); int st = 0;
    useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (overdue(pid, now() - t0, 0, limit)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); Outcome o; o.kind = 3; char b[100]; snprintf(b, sizeof b, "did not terminate within %.0f s", limit); o.msg = b; return o; }
        usleep(nap); if (nap < 20000) nap += nap / 4;
    }
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (sh->state == 2 || sh->state == 3)) return o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { o.kind = 1; o.msg = sh->msg; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.kind = 4; return o; }
    o.kind = 2;
    char b[200];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crashed with signal %d", WTERMSIG(st));
    else if (WEXITSTATUS(st) == 99) snprintf(b, sizeof b, "sanitizer report (address/undefined behaviour)");
    else if (WEXITSTATUS(st) == 98) snprintf(b, sizeof b, "memcheck report (use of uninitialised memory or invalid access)");
    else if (WEXITSTATUS(st) == 66) snprintf(b, sizeof b, "thread sanitizer report (data race or lock misuse)");
    else snprintf(b, sizeof b, "process exited with status %d inside the call", WEXITSTATUS(st));
    o.msg = b; return o;
}

static Shm *gsh;       // scratch area for replays
static Outcome replayChoices(int sub, const std::vector<uint64_t> &c, double limit, int logfd = -1, std::string *desc = nullptr) {
    gsh->state = 0; gsh->msg[0] = 0; gsh->samples[0][0][0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(logfd);
        std::string d; bool nt;
        int r = runCase(gsh, sub, -1, &c, desc != nullptr, &d, &nt);
        snprintf(gsh->samples[0][0], SAMPLEN, "%s", d.c_str());
        _exit(r == 1 ? 10 : r == 2 ? 77 : 0);
    }
    Outcome o = await(pid, gsh, limit);
    if (desc) *desc = gsh->samples[0][0];
    return o;
}
static Outcome replaySeq(int w, long from, long to, double limit, int logfd = -1) {
    gsh->state = 0; gsh->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(logfd);
        long n = 0; int res = 0;
        workerCases(w, [&](int sub, long idx) {
            long k = n++;
            if (k < from) return true;
            if (k > to) return false;
            bool nt; int r = runCase(gsh, sub, idx, nullptr, false, nullptr, &nt);
            if (r == 1) { res = 1; return false; }
            return true;
        });
        if (res) _exit(10);
        gsh->state = 3; _exit(0);
    }
    return await(pid, gsh, limit);
}

static bool bad(const Outcome &o) { return o.kind >= 1 && o.kind <= 3; }

static std::vector<uint64_t> shrink(int sub, std::vector<uint64_t> c, int kind0, double limit) {
    double t0 = now(); int tries = 0;
    auto good = [&](const std::vector<uint64_t> &d) -> bool {
        if (now() - t0 > opt.shrinkTime) return false;
        ++tries;
        Outcome o = replayChoices(sub, d, limit);
        if (!bad(o)) return false;
        if ((o.kind == 3) != (kind0 == 3)) return false;
        c.assign(gsh->ch, gsh->ch + gsh->nch);     // normalised: what was actually drawn
        if (c.size() > d.size()) c = d;
        return true;
    };
    bool progress = true;
    while (progress && now() - t0 < opt.shrinkTime) {
        progress = false;
        for (size_t len = c.size() / 2; len >= 1; len /= 2) {           // delete runs
            for (size_t i = 0; i + len <= c.size();) {
                std::vector<uint64_t> d = c; d.erase(d.begin() + i, d.begin() + i + len);
                size_t before = c.size();
                if (good(d) && c.size() < before) progress = true; else i += len;
                if (now() - t0 > opt.shrinkTime) break;
            }
            if (len > 8 && now() - t0 > opt.shrinkTime) break;
        }
        for (size_t len = 8; len >= 1; len /= 2)                          // zero runs
            for (size_t i = 0; i + len <= c.size(); i += len) {
                bool nz = false; for (size_t k = i; k < i + len; ++k) nz |= c[k] != 0;
                if (!nz) continue;
                std::vector<uint64_t> d = c; for (size_t k = i; k < i + len; ++k) d[k] = 0;
                if (good(d)) progress = true;
                if (now() - t0 > opt.shrinkTime) break;
            }
        for (size_t i = 0; i < c.size(); ++i) {                          // lower values
            uint64_t lo = 0, hi = c[i];
            while (lo < hi && now() - t0 < opt.shrinkTime) {
                uint64_t m = lo + (hi - lo) / 2;
                std::vector<uint64_t> d = c; if (i >= d.size()) break; d[i] = m;
                if (good(d)) { progress = true; hi = m; if (i < c.size() && c[i] < hi) hi = c[i]; } else lo = m + 1;
                if (i >= c.size()) break;
            }
        }
    }
    return c;
}

static std::string jsonEsc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else if (ch < 127) o += ch;
        else o += '?';
    }
    return o;
}

static int doReplayFile(const std::string &path) {
    FILE *f = fopen(path.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", path.c_str()); return 3; }
    char line[4096]; std::string subName, prop; std::vector<uint64_t> c; bool seq = false; long from = 0, to = 0; int w = 0;
    while (fgets(line, sizeof line, f)) {
        char a[300]; unsigned long long v;
        if (sscanf(line, "sub %299s", a) == 1) subName = a;
        else if (sscanf(line, "prop %299s", a) == 1) prop = a;
        else if (sscanf(line, "c %llu", &v) == 1) c.push_back(v);
        else if (!strncmp(line, "leak 1", 6)) opt.leak = true;
        else if (sscanf(line, "seq seed %llu", &v) == 1) { seq = true; opt.seed = v; }
        else if (sscanf(line, "seq workers %d", &opt.workers) == 1) {}
        else if (sscanf(line, "seq mult %lf", &opt.mult) == 1) {}
        else if (sscanf(line, "seq worker %d", &w) == 1) {}
        else if (sscanf(line, "seq from %ld to %ld", &from, &to) == 2) {}
        else if (sscanf(line, "seq sel %299s", a) == 1) opt.prop = a;
    }
    fclose(f);
    if (seq) {
        sel.clear(); quota.clear();
        for (size_t i = 0; i < registry().size(); ++i) {
            if (opt.prop == "C39" ? registry()[i].c39 != 0 : opt.prop == registry()[i].prop) { sel.push_back(int(i)); quota.push_back(std::max(1L, long(registry()[i].quick * opt.mult))); }
        }
        Outcome o = replaySeq(w, from, to, 600, 2);
        printf("replay: %s %s\n", bad(o) ? "FAILS" : "passes", o.msg.c_str());
        return bad(o) ? 1 : 0;
    }
    for (size_t i = 0; i < registry().size(); ++i)
        if (prop == registry()[i].prop && subName == registry()[i].name) {
            std::string desc;
            Outcome o = replayChoices(int(i), c, opt.caseTimeout, 2, &desc);
            printf("replay of %s.%s: %s %s\n  case: %s\n", prop.c_str(), subName.c_str(), bad(o) ? "FAILS:" : "passes", o.msg.c_str(), desc.c_str());
            return bad(o) ? 1 : 0;
        }
    fprintf(stderr, "no sub-check %s.%s in this binary\n", prop.c_str(), subName.c_str());
    return 3;
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") opt.prop = nx(); else if (a == "--seed") opt.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--flavor") opt.flavor = nx(); else if (a == "--workers") opt.workers = atoi(nx().c_str());
        else if (a == "--cap") opt.cap = atof(nx().c_str()); else if (a == "--mult") opt.mult = atof(nx().c_str());
        else if (a == "--timeout") opt.caseTimeout = atof(nx().c_str()); else if (a == "--leak") opt.leak = true;
        else if (a == "--replay") opt.replay = nx(); else if (a == "--replay-dir") opt.replayDir = nx();
        else if (a == "--evidence") opt.evidence = nx(); else if (a == "--only") opt.only = nx();
        else if (a == "--shrink-time") opt.shrinkTime = atof(nx().c_str());
        else if (a == "--verbose") opt.verbose = true; else if (a == "--list") opt.list = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    opt.plain = opt.flavor == "plain";
    setvbuf(stdout, 0, _IOLBF, 0);
    gsh = newShm();
    if (!opt.replay.empty()) return doReplayFile(opt.replay);
    for (size_t i = 0; i < registry().size(); ++i) {
        const Sub &r = registry()[i];
        if (!opt.only.empty() && opt.only != r.name) continue;
        bool take = opt.prop == "C39" ? r.c39 != 0 : opt.prop == r.prop;
        if (take) { sel.push_back(int(i)); quota.push_back(std::max(1L, long(r.quick * opt.mult))); }
    }
    if (opt.list) { for (int k : sel) printf("%s.%s %d\n", registry()[k].prop, registry()[k].name, registry()[k].quick); return 0; }
    if (sel.empty()) { fprintf(stderr, "no sub-checks for %s\n", opt.prop.c_str()); return 3; }
    if (registry().size() >= MAXSUB) { fprintf(stderr, "too many sub-checks\n"); return 3; }

    double t0 = now(), deadline = t0 + opt.cap;
    int W = opt.workers;
    std::vector<Shm *> sh(W); std::vector<pid_t> pid(W); std::vector<bool> alive(W, true);
    for (int w = 0; w < W; ++w) { sh[w] = newShm(); }
    fflush(stdout);
    for (int w = 0; w < W; ++w) {
        pid[w] = fork();
        if (pid[w] == 0) workerMain(sh[w], w, deadline);
        if (pid[w] < 0) { perror("fork"); return 3; }
    }
    int failedW = -1; Outcome fo; int unrep = 0; std::vector<std::string> notes;
    std::string failPath; int violations = 0; std::string failMsg, failSub;
    int nalive = W;
    while (nalive > 0 && failedW < 0) {
        bool any = false;
        for (int w = 0; w < W && failedW < 0; ++w) {
            if (!alive[w]) continue;
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            bool fin = false; Outcome o;
            if (r == pid[w]) {
                any = true; alive[w] = false; --nalive;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->state == 3) continue;
                fin = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { o.kind = 1; o.msg = sh[w]->msg; }
                else { o.kind = 2; char b[100];
                    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crashed with signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "exited with status %d inside a case", WEXITSTATUS(st));
                    o.msg = b; }
            } else if (sh[w]->state == 1 && overdue(pid[w], now() - sh[w]->caseStart, sh[w]->cpuStart, opt.caseTimeout)) {
                kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); alive[w] = false; --nalive; fin = true; any = true;
                o.kind = 3; o.msg = "case did not terminate";
            }
            if (!fin) continue;
            int sub = sh[w]->curSub;
            if (sh[w]->state == 0) { fprintf(stderr, "worker died before its first case\n"); unrep++; continue; }
            std::vector<uint64_t> c(sh[w]->ch, sh[w]->ch + sh[w]->nch);
            // confirm alone in a fresh process
            int tries = o.kind == 3 ? 3 : 10, rep = 0, need = o.kind == 3 ? 2 : 3;
            Outcome last;
            for (int k = 0; k < tries && rep < need; ++k) { Outcome q = replayChoices(sub, c, opt.caseTimeout); if (bad(q)) { ++rep; last = q; } else if (o.kind == 3) break; }
            std::string body; 
            if (rep >= need || (rep > 0 && o.kind != 3)) {
                failedW = w;
                for (int v = 0; v < W; ++v) if (alive[v]) kill(pid[v], SIGKILL);
                if (rep >= need) c = shrink(sub, c, last.kind, last.kind == 3 ? opt.caseTimeout : opt.caseTimeout);
                mkdir(opt.replayDir.c_str(), 0777);
                char nm[400]; snprintf(nm, sizeof nm, "%s/%s-%s-%s-%llu", opt.replayDir.c_str(), opt.prop.c_str(), registry()[sub].name, opt.flavor.c_str(), (unsigned long long)opt.seed);
                std::string logp = std::string(nm) + ".log";
                int lfd = open(logp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
                std::string desc;
                Outcome q; for (int k = 0; k < 10 && !bad(q); ++k) q = replayChoices(sub, c, opt.caseTimeout, lfd, &desc);
                if (lfd >= 0) close(lfd);
                if (!bad(q)) q = last;
                failPath = std::string(nm) + ".replay";
                FILE *f = fopen(failPath.c_str(), "w");
                if (f) {
                    fprintf(f, "# minimal reproduction (list of generator choices); run: python3 check.py %s --replay <this file>\n", opt.prop.c_str());
                    fprintf(f, "# %s\n# case: %s\n", q.msg.c_str(), desc.c_str());
                    fprintf(f, "flavor %s\nprop %s\nsub %s\n", opt.flavor.c_str(), registry()[sub].prop, registry()[sub].name);
                    if (opt.leak) fprintf(f, "leak 1\n");
                    for (uint64_t v : c) fprintf(f, "c %llu\n", (unsigned long long)v);
                    fclose(f);
                }
                failMsg = q.msg; failSub = registry()[sub].name; violations = 1;
                if (!desc.empty()) failMsg += " | case: " + desc;
            } else {
                // not reproducible alone: replay this worker's history up to here
                long to = sh[w]->done; bool got = false;
                for (long K = 1;; K *= 4) {
                    long from = to + 1 - K; if (from < 0) from = 0;
                    int ok = 0; Outcome q;
                    for (int k = 0; k < 3; ++k) { q = replaySeq(w, from, to, 300); if (bad(q)) ++ok; else break; }
                    if (ok == 3) {
                        got = true; failedW = w;
                        for (int v = 0; v < W; ++v) if (alive[v]) kill(pid[v], SIGKILL);
                        mkdir(opt.replayDir.c_str(), 0777);
                        char nm[400]; snprintf(nm, sizeof nm, "%s/%s-history-%s-%llu.replay", opt.replayDir.c_str(), opt.prop.c_str(), opt.flavor.c_str(), (unsigned long long)opt.seed);
                        failPath = nm;
                        FILE *f = fopen(nm, "w");
                        if (f) {
                            fprintf(f, "# history of %ld cases in one process that fails (each case alone passes)\n# %s\nflavor %s\n", to - from + 1, q.msg.c_str(), opt.flavor.c_str());
                            if (opt.leak) fprintf(f, "leak 1\n");
                            fprintf(f, "seq seed %llu\nseq workers %d\nseq mult %.17g\nseq worker %d\nseq from %ld to %ld\nseq sel %s\n", (unsigned long long)opt.seed, opt.workers, opt.mult, w, from, to, opt.prop.c_str());
                            fclose(f);
                        }
                        failMsg = q.msg + " (after a history of cases in the same process)"; failSub = registry()[sub].name; violations = 1;
                        break;
                    }
                    if (from == 0 || now() - t0 > opt.cap + 120) break;
                }
                if (!got) { unrep++; notes.push_back(std::string(registry()[sub].name) + ": " + o.msg + " (did not reproduce)"); }
            }
        }
        if (!any) usleep(20000);
    }
    for (int w = 0; w < W; ++w) if (alive[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); }
    // evidence fragment
    long ev = 0, nt = 0, disc = 0; std::set<uint64_t> hs; int trunc = 0; double mc = 0; std::string mcs;
    for (int w = 0; w < W; ++w) {
        for (int k : sel) { ev += sh[w]->evals[k]; nt += sh[w]->nontriv[k]; disc += sh[w]->discards[k]; }
        for (int i = 0; i < sh[w]->nhash; ++i) hs.insert(sh[w]->hashes[i]);
        trunc += sh[w]->truncated;
        if (sh[w]->maxCase > mc) { mc = sh[w]->maxCase; mcs = registry()[sh[w]->maxSub].name; }
    }
    long capped = 0; for (int w = 0; w < W; ++w) { long x = 0; for (int k : sel) x += sh[w]->nontriv[k]; if (x > MAXHASH) capped += x - MAXHASH; }
    long distinct = long(hs.size()) + capped;
    if (!opt.evidence.empty()) {
        FILE *f = fopen(opt.evidence.c_str(), "w");
        if (!f) { perror("evidence"); return 3; }
        fprintf(f, "{\"flavor\":\"%s\",\"evaluations\":%ld,\"distinct_nontrivial\":%ld,\"discarded\":%ld,\"truncated\":%d,\"unreproduced\":%d,\"wall\":%.2f,\"violations\":%d,\"max_case_s\":%.3f,\"max_case\":\"%s\",\n\"subs\":[", opt.flavor.c_str(), ev, distinct, disc, trunc, unrep, now() - t0, violations, mc, mcs.c_str());
        for (size_t q = 0; q < sel.size(); ++q) {
            int k = sel[q]; long e = 0, n = 0; std::string smp; int ns = 0;
            for (int w = 0; w < W; ++w) { e += sh[w]->evals[k]; n += sh[w]->nontriv[k];
                for (int j = 0; j < sh[w]->nsamp[k] && ns < NSAMP; ++j, ++ns) { if (ns) smp += ","; smp += "\"" + jsonEsc(sh[w]->samples[k][j]) + "\""; } }
            fprintf(f, "%s{\"sub\":\"%s.%s\",\"evaluations\":%ld,\"nontrivial\":%ld,\"rule\":\"%s\",\"samples\":[%s]}", q ? ",\n" : "\n", registry()[k].prop, registry()[k].name, e, n, jsonEsc(registry()[k].rule).c_str(), smp.c_str());
        }
        fprintf(f, "]");
        fprintf(f, ",\n\"notes\":["); for (size_t i = 0; i < notes.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(notes[i]).c_str()); fprintf(f, "]");
        fprintf(f, ",\n\"failure\":{\"sub\":\"%s\",\"msg\":\"%s\",\"replay\":\"%s\"}}\n", failSub.c_str(), jsonEsc(failMsg).c_str(), failPath.c_str());
        fclose(f);
    }
    if (opt.verbose) {
        for (int k : sel) { long e = 0, n = 0, d = 0; for (int w = 0; w < W; ++w) { e += sh[w]->evals[k]; n += sh[w]->nontriv[k]; d += sh[w]->discards[k]; }
            printf("  %-28s evals %6ld nontrivial %6ld discarded %ld\n", registry()[k].name, e, n, d); }
        printf("  slowest case %.3f s (%s)%s\n", mc, mcs.c_str(), trunc ? " TRUNCATED" : "");
    }
    for (auto &n : notes) printf("UNREPRODUCED %s\n", n.c_str());
    printf("%s flavor=%s evaluations=%ld distinct_nontrivial=%ld discarded=%ld wall=%.1f\n", opt.prop.c_str(), opt.flavor.c_str(), ev, distinct, disc, now() - t0);
    if (violations) { printf("FAIL %s.%s: %s\n  replay: %s\n", opt.prop.c_str(), failSub.c_str(), failMsg.c_str(), failPath.c_str()); return 1; }
    return 0;
}

// ---- a reproducible C random generator (see detrand.hpp)
#include "detrand.hpp"
static pbt::Rng g_rand(1);
void detrand(uint64_t seed) { g_rand.s = pbt::mix(seed); }
extern "C" void srand(unsigned) __THROW { }
extern "C" int rand(void) __THROW { return int(g_rand.next() & RAND_MAX); }
