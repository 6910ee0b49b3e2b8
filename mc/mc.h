// mc.h - a small stateless model checker for sequential C++ code.
//
// A *family* is a function body(Ctx&) that closes the system under test: it makes every
// nondeterministic decision (operation, argument, shape, environment answer) through
// Ctx::choose(n) and checks the real code against a reference model.  The explorer runs the
// body once for EVERY sequence of choices (depth-first, lexicographic, first choice simplest).
// Optional state caching (Ctx::seen) prunes a run when an already expanded state is reached
// with no more remaining depth than before.
//
// Executions run in forked workers.  The choices made so far live in shared memory, so a
// crash, an exit() of the library (ROFL_ASSERT) or a hang is attributed to its exact choice
// sequence.  A violation is only reported after it has been replayed in fresh processes.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

namespace mc {

typedef uint64_t u64;

inline u64 mix(u64 h, u64 v) {
    h = (h + 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull;
    h = (h ^ (h >> 29)) + v;
    h = (h ^ (h >> 32)) * 0x94d049bb133111ebull;
    return h ^ (h >> 31);
}

const int MAX_CHOICES = 4096;
const int MAX_WORKERS = 16;
const size_t TABLE = 1u << 25;

struct WorkerSlot {
    volatile u64 execs;       // completed executions
    volatile u64 pruned;      // executions cut at an already expanded state
    volatile u64 transitions; // operations applied to the real code
    volatile u64 bulk;        // inputs enumerated by inner loops, distinct by construction
    volatile u64 maxdepth;
    volatile u64 prefixes;    // distinct prefixes met (all workers must agree)
    volatile int nchoices;    // choices of the running execution
    volatile int choices[MAX_CHOICES];
    volatile int done;        // 1: the worker explored its share
    volatile int failed;      // 1: a check failed (msg)
    char msg[1024];
    int nsamples;
    int samplelen[6];
    int samples[6][256];
};

struct Shared {
    WorkerSlot w[MAX_WORKERS];
    volatile u64 distinct;    // distinct observed states (hash table below)
    volatile u64 saturated;
    u64 table[TABLE];
};

struct SkipExec {};           // execution belongs to another worker
struct PruneExec {};          // state already expanded

class Ctx {
   public:
    bool describing = false;
    int level_ = 0;  // 0, 1 or 2: size of the explored space
    u64 salt_ = 0;
    std::ostringstream os;
    int descFd = -1;
    void flushDesc() {  // delivered at once, so that a crash keeps the description
        if (descFd < 0) return;
        std::string s = os.str(); os.str("");
        if (!s.empty() && write(descFd, s.data(), s.size()) < 0) {}
    }

    bool thorough() const { return level_ >= 1; }
    bool deep() const { return level_ >= 2; }
    template <typename T> T tier(T quick, T thorough) const { return level_ ? thorough : quick; }
    template <typename T> T tier(T quick, T thorough, T deep) const { return level_ >= 2 ? deep : level_ ? thorough : quick; }

    // Nondeterministic choice among 0 .. n-1.
    int choose(int n) {
        if (n <= 0) internal("choose() with an empty domain");
        int c;
        if (pos_ < (int)path_.size()) {
            if (path_[pos_].n >= 0 && path_[pos_].n != n) internal("divergence while replaying a prefix");
            path_[pos_].n = n;
            c = path_[pos_].c;
            if (c >= n) internal("choice out of range while replaying");
        } else {
            if (replay_) internal("replay needs more choices than recorded");
            path_.push_back({0, n});
            c = 0;
        }
        if (slot_ && pos_ < MAX_CHOICES) {
            slot_->choices[pos_] = c;
            slot_->nchoices = pos_ + 1;
        }
        ++pos_;
        if (pos_ == splitDepth_) {
            if (newPrefix_) {
                newPrefix_ = false;
                if ((int)(prefix_++ % nworkers_) != worker_) throw SkipExec();
            }
        }
        return c;
    }
    int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
    bool flag() { return choose(2) != 0; }
    template <typename T> T pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose((int)v.size())); }
    // Subset of {0..n-1} as a bit mask.
    unsigned subset(int n) { unsigned m = 0; for (int i = 0; i < n; ++i) if (flag()) m |= 1u << i; return m; }

    // Counts operations applied to the implementation.
    void step(u64 n = 1) { if (slot_) slot_->transitions += n; }
    // Inputs enumerated in an inner loop (distinct by construction).
    void bulk(u64 n) { if (slot_) slot_->bulk += n; }
    // Records an observed state.
    void state(u64 h) {
        if (!sh_) return;
        h = mix(h, salt_);  // states of different families are different
        if (h == 0) h = 1;
        size_t i = h & (TABLE - 1);
        for (int k = 0; k < 64; ++k, i = (i + 1) & (TABLE - 1)) {
            u64 cur = __atomic_load_n(&sh_->table[i], __ATOMIC_RELAXED);
            if (cur == h) return;
            if (cur == 0) {
                u64 exp = 0;
                if (__atomic_compare_exchange_n(&sh_->table[i], &exp, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                    __atomic_add_fetch(&sh_->distinct, 1, __ATOMIC_RELAXED);
                    return;
                }
                if (exp == h) return;
            }
        }
        __atomic_add_fetch(&sh_->saturated, 1, __ATOMIC_RELAXED);
    }
    // State caching: call after an operation with a key that determines all futures and the
    // number of operations still allowed.  Prunes when nothing new can follow.
    void seen(u64 key, int remaining) {
        state(key);
        if (replay_) return;
        auto it = cache_.find(key);
        // While the prefix is being re-executed the states on it are by construction cached.
        if (pos_ < (int)path_.size() || pos_ <= splitDepth_) return;
        if (it != cache_.end() && it->second >= remaining) throw PruneExec();
        cache_[key] = remaining;
    }

    [[noreturn]] void fail(const std::string& msg) {
        if (slot_) {
            strncpy(slot_->msg, msg.c_str(), sizeof(slot_->msg) - 1);
            slot_->failed = 1;
        }
        _exit(3);
    }
    void check(bool ok, const char* msg) { if (!ok) fail(msg); }
    template <typename F> void checkf(bool ok, F f) { if (!ok) { std::ostringstream s; f(s); fail(s.str()); } }

    [[noreturn]] void internal(const char* msg) {
        if (slot_) {
            snprintf(slot_->msg, sizeof(slot_->msg), "INTERNAL %s", msg);
            slot_->failed = 2;
        }
        _exit(4);
    }

    // --- engine side
    struct Choice { int c; int n; };
    std::vector<Choice> path_;
    int pos_ = 0;
    bool replay_ = false;
    Shared* sh_ = nullptr;
    WorkerSlot* slot_ = nullptr;
    int splitDepth_ = -1, nworkers_ = 1, worker_ = 0;
    u64 prefix_ = 0;
    bool newPrefix_ = true;   // the first splitDepth_ choices differ from those of the last execution
    std::unordered_map<u64, int> cache_;

    bool advance() {
        while (!path_.empty() && path_.back().c + 1 >= path_.back().n) path_.pop_back();
        if (path_.empty()) return false;
        path_.back().c++;
        if ((int)path_.size() <= splitDepth_) newPrefix_ = true;
        return true;
    }
};

#define DESC(ctx, expr) do { if ((ctx).describing) { (ctx).os << expr; (ctx).flushDesc(); } } while (0)
#define REQUIRE(ctx, cond, expr) do { if (!(cond)) { std::ostringstream _s; _s << expr; (ctx).fail(_s.str()); } } while (0)

struct Family {
    std::string name;
    std::string what;
    int splitDepth;
    std::function<void(Ctx&)> body;
};

inline std::vector<Family>& families() { static std::vector<Family> f; return f; }
struct Reg {
    Reg(const char* name, const char* what, int split, std::function<void(Ctx&)> b) {
        families().push_back({name, what, split, b});
    }
};
// what: states alphabet and bounds for the evidence file
#define MC_FAMILY(ident, what, split) \
    static void ident(mc::Ctx& c); \
    static mc::Reg reg_##ident(#ident, what, split, ident); \
    static void ident(mc::Ctx& c)

inline std::string jsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

struct Engine {
    Shared* sh = nullptr;
    int level = 0;
    int workers = 8;
    u64 seed = 1;
    double hangLimit = 40;

    static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);  /* never a virtual clock */ return t.tv_sec + 1e-9 * t.tv_nsec; }

    // A runaway allocation ends the worker, not the sandbox (with ASan: hard_rss_limit_mb).
    static void limitMemory() {
#ifndef __SANITIZE_ADDRESS__
        struct rlimit r = {6ull << 30, 6ull << 30};
        setrlimit(RLIMIT_AS, &r);
#endif
        struct rlimit nc = {0, 0};
        setrlimit(RLIMIT_CORE, &nc);
    }

    void quiet(int errfd = -1) {
        limitMemory();
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(errfd >= 0 ? errfd : n, 2);
        if (!getenv("MC_VERBOSE")) {
            std::cout.setstate(std::ios::failbit);
            if (errfd < 0) std::cerr.setstate(std::ios::failbit);
        }
    }

    void workerMain(const Family& f, int w) {
        quiet();
        Ctx c;
        c.level_ = level;
        c.sh_ = sh;
        c.salt_ = std::hash<std::string>()(f.name);
        c.slot_ = &sh->w[w];
        c.nworkers_ = workers;
        c.worker_ = w;
        c.splitDepth_ = workers > 1 ? f.splitDepth : -1;
        u64 nextSample = 0;
        u64 rnd = seed * 7919 + 13;
        while (true) {
            c.pos_ = 0;
            bool mine = true;
            c.slot_->nchoices = 0;
            try {
                f.body(c);
                if (c.splitDepth_ > 0 && c.pos_ < c.splitDepth_) { // short execution: owned by prefix counter too
                    u64 k = c.prefix_++;
                    mine = (int)(k % workers) == w;
                }
                if (mine) {
                    c.slot_->execs++;
                }
            } catch (SkipExec&) {
                mine = false;
            } catch (PruneExec&) {
                c.slot_->pruned++;
            } catch (std::exception& e) {
                c.fail(std::string("unexpected exception: ") + e.what());
            }
            if (mine && c.slot_->execs >= nextSample && c.slot_->nsamples < 6 && c.path_.size() < 256) {
                int s = c.slot_->nsamples;
                c.slot_->samplelen[s] = c.pos_;
                for (int i = 0; i < c.pos_; ++i) c.slot_->samples[s][i] = c.path_[i].c;
                c.slot_->nsamples++;
                nextSample = nextSample * 7 + 1 + rnd % 11;
            }
            c.path_.resize(c.pos_);
            if ((u64)c.pos_ > c.slot_->maxdepth) c.slot_->maxdepth = c.pos_;
            if (!c.advance()) break;
        }
        c.slot_->prefixes = c.prefix_;
        c.slot_->done = 1;
        _exit(0);
    }

    struct Outcome { int kind = 0; std::string msg; }; // 0 ok 1 fail 2 crash/exit 3 hang 4 internal

    std::string readFd(int fd) {
        std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n;
        while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
        return s;
    }

    // Runs one execution in a fresh process.
    Outcome runOne(const Family& f, const std::vector<int>& ch, bool describe, std::string* desc, double limit) {
        WorkerSlot* slot = &sh->w[MAX_WORKERS - 1];
        slot->failed = 0; slot->done = 0; slot->msg[0] = 0;
        char errname[] = "/tmp/mcerrXXXXXX"; int errfd = mkstemp(errname); unlink(errname);
        int p[2]; if (pipe(p)) abort();
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            quiet(errfd);
            Ctx c;
            c.level_ = level; c.slot_ = slot; c.replay_ = true; c.describing = describe;
            if (describe) c.descFd = p[1];
            for (int x : ch) c.path_.push_back({x, -1});
            try { f.body(c); } catch (PruneExec&) {} catch (SkipExec&) {}
            catch (std::exception& e) { c.fail(std::string("unexpected exception: ") + e.what()); }
            slot->done = 1;
            _exit(0);
        }
        close(p[1]);
        double t0 = now();
        int st = 0; Outcome o; std::string ds;
        fcntl(p[0], F_SETFL, O_NONBLOCK);
        while (true) {
            char b[8192]; ssize_t n;
            while ((n = read(p[0], b, sizeof b)) > 0) ds.append(b, n);
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.kind = 3; o.msg = "no termination within the time limit"; break; }
            usleep(2000);
        }
        char b[8192]; ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) ds.append(b, n);
        close(p[0]);
        if (desc) *desc = ds;
        if (o.kind == 0) {
            if (slot->failed == 1) { o.kind = 1; o.msg = slot->msg; }
            else if (slot->failed == 2) { o.kind = 4; o.msg = slot->msg; }
            else if (!slot->done) {
                o.kind = 2;
                std::ostringstream s;
                if (WIFSIGNALED(st)) s << "crash: signal " << WTERMSIG(st);
                else s << "library called exit(" << WEXITSTATUS(st) << ")";
                std::string e = readFd(errfd);
                size_t k = e.find("ERROR: AddressSanitizer");
                if (k == std::string::npos) k = 0;
                s << " " << e.substr(k, 300);
                o.msg = s.str();
            }
        }
        close(errfd);
        return o;
    }

    struct FamilyResult {
        u64 execs = 0, pruned = 0, transitions = 0, bulk = 0, maxdepth = 0, distinct = 0;
        double wall = 0;
        std::vector<std::string> samples;
    };
    struct Violation { bool found = false; std::string family, msg, mode, desc; std::vector<int> choices; int worker = 0; };

    // Explores one family.  Returns 0 ok, 1 violation, 2 internal error.
    int explore(const Family& f, FamilyResult& r, Violation& v) {
        double t0 = now();
        u64 distinct0 = sh->distinct;
        memset((void*)sh->w, 0, sizeof(sh->w));
        std::vector<pid_t> pid(workers);
        std::vector<double> beat(workers, now());
        std::vector<u64> last(workers, 0);
        std::vector<int> state(workers, 0); // 0 running 1 done 2 bad
        std::vector<int> hang(workers, 0);
        std::vector<int> status(workers, 0);
        std::cout.flush();
        for (int w = 0; w < workers; ++w) {
            pid[w] = fork();
            if (pid[w] == 0) workerMain(f, w);
        }
        int running = workers; int bad = -1;
        while (running > 0 && bad < 0) {
            for (int w = 0; w < workers; ++w) {
                if (state[w]) continue;
                int st;
                pid_t q = waitpid(pid[w], &st, WNOHANG);
                if (q == pid[w]) {
                    --running;
                    status[w] = st;
                    if (sh->w[w].done) state[w] = 1; else { state[w] = 2; bad = w; }
                    continue;
                }
                u64 b = sh->w[w].execs * 1000003 + sh->w[w].pruned * 31 + sh->w[w].nchoices * 7 + sh->w[w].transitions + sh->w[w].bulk;
                if (b != last[w]) { last[w] = b; beat[w] = now(); }
                else if (now() - beat[w] > hangLimit) {
                    kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); --running;
                    state[w] = 2; hang[w] = 1; bad = w;
                }
            }
            usleep(3000);
        }
        if (bad >= 0) {
            for (int w = 0; w < workers; ++w) if (state[w] == 0) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); }
            WorkerSlot* s = &sh->w[bad];
            if (s->failed == 2) { v.family = f.name; v.msg = s->msg; return 2; }
            std::vector<int> ch(s->choices, s->choices + s->nchoices);
            std::string firstMsg = s->msg; bool failed = s->failed;
            // Replay before report: twice in fresh processes.
            std::string desc;
            Outcome a = runOne(f, ch, true, &desc, 120), b = runOne(f, ch, false, nullptr, 120);
            v.family = f.name; v.choices = ch; v.worker = bad;
            // kind 4: alone it runs past the recorded choices, so the death needs earlier executions.
            if (a.kind && b.kind && a.kind != 4 && b.kind != 4) {
                v.found = true; v.msg = a.msg; v.desc = desc; v.mode = "execution";
                return 1;
            }
            // Not reproducible alone: state carried over between executions of one process.
            // Re-run the worker's whole deterministic share and require the same death twice.
            bool same = true;
            std::string m2;
            for (int k = 0; k < 2 && same; ++k) {
                u64 e0 = s->execs;
                std::vector<int> ch0 = ch;
                memset((void*)s, 0, sizeof(*s));
                pid_t q = fork();
                if (q == 0) workerMain(f, bad);
                int st; double t1 = now(); bool dead = false; double lastb = now(); u64 lv = 0;
                while (!dead) {
                    if (waitpid(q, &st, WNOHANG) == q) { dead = true; break; }
                    u64 b2 = s->execs * 1000003 + s->nchoices * 7 + s->transitions + s->bulk;
                    if (b2 != lv) { lv = b2; lastb = now(); }
                    if (now() - lastb > 2 * hangLimit || now() - t1 > 400) { kill(q, SIGKILL); waitpid(q, &st, 0); break; }
                    usleep(3000);
                }
                if (s->done) same = false;
                std::vector<int> ch1(s->choices, s->choices + s->nchoices);
                if (s->execs != e0 || ch1 != ch0) same = false;
                m2 = s->failed ? std::string(s->msg) : std::string("crash, exit or hang");
            }
            if (same) {
                v.found = true; v.msg = m2 + " (depends on earlier executions in the same process)"; v.mode = "worker";
                return 1;
            }
            v.msg = "not reproducible: " + (failed ? firstMsg : std::string("crash or hang")); v.mode = "internal";
            return 2;
        }
        for (int w = 0; w < workers; ++w) {
            r.execs += sh->w[w].execs; r.pruned += sh->w[w].pruned; r.transitions += sh->w[w].transitions; r.bulk += sh->w[w].bulk;
            r.maxdepth = std::max(r.maxdepth, (u64)sh->w[w].maxdepth);
        }
        for (int w = 1; w < workers; ++w) if (sh->w[w].prefixes != sh->w[0].prefixes) {
            v.family = f.name; v.msg = "workers disagree on the choice tree"; v.mode = "internal"; return 2;
        }
        r.distinct = sh->distinct - distinct0;
        // A few actual cases, re-executed in describe mode (also checks replayability).
        std::vector<std::vector<int>> smp;
        for (int w = 0; w < workers && smp.size() < 3; ++w)
            for (int k = sh->w[w].nsamples - 1; k >= 0 && smp.size() < (size_t)(w + 2); --k)
                smp.push_back(std::vector<int>(sh->w[w].samples[k], sh->w[w].samples[k] + sh->w[w].samplelen[k]));
        for (auto& ch : smp) {
            std::string d;
            Outcome o = runOne(f, ch, true, &d, 120);
            if (o.kind) { v.family = f.name; v.msg = "sample replay diverged: " + o.msg; v.mode = "internal"; return 2; }
            if (d.size() > 400) d = d.substr(0, 400) + "...";
            r.samples.push_back(d);
        }
        r.wall = now() - t0;
        return 0;
    }
};

inline int mainImpl(int argc, char** argv) {
    Engine e;
    std::string out, replay, only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--level") e.level = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--workers") e.workers = atoi(argv[++i]);
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--seed") e.seed = strtoull(argv[++i], 0, 10);
    }
    e.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (e.sh == MAP_FAILED) { perror("mmap"); return 2; }
    signal(SIGPIPE, SIG_IGN);

    if (!replay.empty()) {  // file: family, mode, worker, choices
        FILE* fp = fopen(replay.c_str(), "r");
        if (!fp) { perror("replay"); return 2; }
        char fam[256], mode[64]; int worker, n, thor;
        if (fscanf(fp, "family %255s mode %63s level %d worker %d n %d", fam, mode, &thor, &worker, &n) != 5) return 2;
        std::vector<int> ch(n);
        for (auto& x : ch) if (fscanf(fp, "%d", &x) != 1) return 2;
        fclose(fp);
        e.level = thor;
        for (auto& f : families()) if (f.name == fam) {
            if (std::string(mode) == "worker") {
                Engine::FamilyResult r; Engine::Violation v;
                int rc = e.explore(f, r, v);
                printf("%s\n", rc == 1 ? ("REPRODUCED " + v.msg).c_str() : "not reproduced");
                return rc == 1 ? 1 : 0;
            }
            std::string d;
            auto o = e.runOne(f, ch, true, &d, 120);
            printf("case: %s\n%s %s\n", d.c_str(), o.kind ? "REPRODUCED" : "not reproduced", o.msg.c_str());
            return o.kind ? 1 : 0;
        }
        fprintf(stderr, "no family %s\n", fam);
        return 2;
    }

    std::ostringstream js;
    js << "{\"families\":[";
    bool first = true; int rc = 0; Engine::Violation v;
    for (auto& f : families()) {
        if (!only.empty() && f.name != only) continue;
        Engine::FamilyResult r;
        rc = e.explore(f, r, v);
        if (rc) break;
        if (!first) js << ",";
        first = false;
        js << "{\"name\":\"" << jsonEsc(f.name) << "\",\"what\":\"" << jsonEsc(f.what) << "\",\"executions\":" << r.execs
           << ",\"pruned\":" << r.pruned << ",\"transitions\":" << r.transitions << ",\"inner\":" << r.bulk
           << ",\"distinct_states\":" << r.distinct << ",\"max_choices\":" << r.maxdepth << ",\"wall_s\":" << r.wall << ",\"samples\":[";
        for (size_t i = 0; i < r.samples.size(); ++i) js << (i ? "," : "") << "\"" << jsonEsc(r.samples[i]) << "\"";
        js << "]}";
        fprintf(stderr, "[%s] executions=%llu pruned=%llu transitions=%llu inner=%llu states=%llu maxchoices=%llu %.2fs\n", f.name.c_str(),
                (unsigned long long)r.execs, (unsigned long long)r.pruned, (unsigned long long)r.transitions,
                (unsigned long long)r.bulk, (unsigned long long)r.distinct, (unsigned long long)r.maxdepth, r.wall);
    }
    js << "],\"saturated\":" << e.sh->saturated << ",\"rc\":" << rc;
    if (rc) {
        js << ",\"violation\":{\"family\":\"" << jsonEsc(v.family) << "\",\"msg\":\"" << jsonEsc(v.msg) << "\",\"mode\":\"" << v.mode
           << "\",\"worker\":" << v.worker << ",\"desc\":\"" << jsonEsc(v.desc) << "\",\"choices\":[";
        for (size_t i = 0; i < v.choices.size(); ++i) js << (i ? "," : "") << v.choices[i];
        js << "]}";
    }
    js << "}";
    if (!out.empty()) { FILE* fp = fopen(out.c_str(), "w"); if (!fp) return 2; fputs(js.str().c_str(), fp); fclose(fp); }
    else puts(js.str().c_str());
    if (rc) fprintf(stderr, "family %s: %s\n  case: %s\n", v.family.c_str(), v.msg.c_str(), v.desc.c_str());
    return rc;
}

}  // namespace mc

#define MC_MAIN() int main(int argc, char** argv) { return mc::mainImpl(argc, argv); }
