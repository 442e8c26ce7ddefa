// Supervisor: runs batches of episodes in forked children, checks determinism,
// gates and minimises violations, writes replay files and statistics.
#include "core.h"

#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <poll.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

namespace sim {
bool acceptable(int prop, const Shared &plan, std::string &why);
}

static double now_s() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

struct Result {
    bool violation = false, harness_error = false;
    std::string cls, msg;
    u64 hash = 0;
};

static int g_cpu = 100; // seconds of processor time one batch may take before it counts as not progressing
static const char *g_stop = nullptr; // exists once some worker has found a violation
static bool g_quiet = true;
static const char *errfile = nullptr;

// runs what SH describes (explicit) or generates it
static Result run_child(bool generate, u64 base, u32 E) {
    SH->status = 0;
    SH->nh = 0;
    SH->hash = 0;
    SH->cls[0] = SH->msg[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(2);
    }
    if (pid == 0) {
        if (g_quiet) {
            int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 2);
        }
        struct rlimit rl{ 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = (rlim_t)g_cpu;
        rl.rlim_max = (rlim_t)g_cpu + 5;
        setrlimit(RLIMIT_CPU, &rl);
        W.generating = generate;
        u32 n = generate ? E : SH->nep;
        for (u32 e = 0; e < n; e++) {
            if (generate) {
                SH->ep[e] = EpHdr{};
                SH->ep[e].knob = mix(base, e);
                SH->nep = e + 1;
            }
            run_episode(e);
            if (W.stop) break;
            if (generate && (SH->nops + 100 > MAXOPS || SH->nacts + 300 > MAXACTS)) break;
        }
        if (SH->status == 0) SH->status = 1;
        _exit(SH->status == 2 ? 10 : 0);
    }
    int st = 0;
    bool stuck = false;
    // nothing in a run waits for anything outside: one that uses no processor time for a minute never ends
    if (int fd = (int)syscall(SYS_pidfd_open, pid, 0); fd >= 0) {
        clockid_t clk;
        struct pollfd pf{ fd, POLLIN, 0 };
        long last = -1;
        int idle = 0;
        while (!stuck && poll(&pf, 1, 10000) == 0) {
            struct timespec ts{};
            if (clock_getcpuclockid(pid, &clk) || syscall(SYS_clock_gettime, clk, &ts)) break;
            const long now = ts.tv_sec * 1000000000L + ts.tv_nsec;
            idle = now == last ? idle + 1 : 0;
            last = now;
            if (idle >= 6) {
                stuck = true;
                kill(pid, SIGKILL);
            }
        }
        close(fd);
    }
    while (waitpid(pid, &st, 0) != pid) {}
    const bool hang = stuck || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU);
    Result r;
    r.hash = SH->hash;
    if (hang) {
        r.violation = true;
        r.cls = "no-progress";
        r.msg = stuck ? "the run is blocked for good" : "the run used up its processor time without ending";
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return r;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
        r.violation = true;
        r.cls = SH->cls;
        r.msg = SH->msg;
    } else {
        r.violation = true;
        char b[128];
        if (WIFSIGNALED(st))
            snprintf(b, sizeof b, "crash-signal-%d", WTERMSIG(st));
        else
            snprintf(b, sizeof b, "memory-error");
        r.cls = b;
        snprintf(b, sizeof b, "the run ended abnormally (%s) in episode %u, op %u", r.cls.c_str(), SH->cur_ep, SH->cur_op);
        r.msg = b;
    }
    return r;
}

// ---- plans ---------------------------------------------------------------------------
struct Ep {
    u64 knob;
    u32 ntasks;
    std::vector<Op> ops;
    std::vector<Act> acts;
};
using Plan = std::vector<Ep>;

static Plan take_plan(u32 last_ep) {
    Plan p;
    for (u32 e = 0; e <= last_ep && e < SH->nep; e++) {
        EpHdr &h = SH->ep[e];
        Ep x{ h.knob, h.ntasks, {}, {} };
        x.ops.assign(SH->ops + h.op0, SH->ops + h.op1);
        x.acts.assign(SH->acts + h.act0, SH->acts + h.act1);
        p.push_back(std::move(x));
    }
    return p;
}
static void put_plan(const Plan &p) {
    SH->nep = (u32)p.size();
    SH->nops = SH->nacts = 0;
    for (u32 e = 0; e < p.size(); e++) {
        EpHdr &h = SH->ep[e];
        h = EpHdr{};
        h.knob = p[e].knob;
        h.ntasks = p[e].ntasks;
        h.op0 = SH->nops;
        for (auto &o : p[e].ops) SH->ops[SH->nops++] = o;
        h.op1 = SH->nops;
        h.act0 = SH->nacts;
        for (auto &a : p[e].acts) SH->acts[SH->nacts++] = a;
        h.act1 = SH->nacts;
    }
}
static Result run_plan(const Plan &p) {
    put_plan(p);
    return run_child(false, 0, 0);
}

static std::string plan_text(const Plan &p, int prop, const Result &r, const char *variant, u64 seed) {
    std::string s = "pigro-sim-replay 1\n";
    char b[400];
    snprintf(b, sizeof b, "property C%02d\nvariant %s\nseed %llu\nclass %s\n", prop, variant, (unsigned long long)seed, r.cls.c_str());
    s += b;
    std::string m = "message " + r.msg;
    for (char &c : m)
        if ((unsigned char)c < 32) c = ' ';
    s += m;
    snprintf(b, sizeof b, "\nhash %016llx\n", (unsigned long long)r.hash);
    s += b;
    for (auto &e : p) {
        snprintf(b, sizeof b, "episode %016llx %u\n", (unsigned long long)e.knob, e.ntasks);
        s += b;
        for (auto &o : e.ops) {
            snprintf(b, sizeof b, "op %u task %u %s %d %d %d %016llx\n", o.id, o.task, op_name(o.kind), o.a, o.b, o.c, (unsigned long long)o.bits);
            s += b;
            for (auto &a : e.acts)
                if (a.op == o.id) {
                    snprintf(b, sizeof b, "act %u %u %s %d %d\n", a.op, a.k, ak_name[a.kind], a.a, a.b);
                    s += b;
                }
        }
    }
    return s;
}
static bool parse_plan(const char *file, Plan &p, int &prop, u64 &seed, std::string &cls, u64 &hash) {
    FILE *f = fopen(file, "r");
    if (!f) return false;
    char line[1000];
    while (fgets(line, sizeof line, f)) {
        unsigned long long x;
        unsigned a, b, c;
        char w[64];
        int i, j, k;
        if (sscanf(line, "property C%d", &i) == 1) prop = i;
        else if (sscanf(line, "seed %llu", &x) == 1) seed = x;
        else if (sscanf(line, "class %63s", w) == 1) cls = w;
        else if (sscanf(line, "hash %llx", &x) == 1) hash = x;
        else if (sscanf(line, "episode %llx %u", &x, &a) == 2) p.push_back(Ep{ x, a, {}, {} });
        else if (!p.empty() && sscanf(line, "op %u task %u %63s %d %d %d %llx", &a, &b, w, &i, &j, &k, &x) == 7) {
            Op o{ a, (u8)b, 0, i, j, k, x };
            for (int q = 0; q < 16; q++)
                if (!strcmp(op_name(q), w)) {
                    o.kind = (u8)q;
                    break;
                }
            p.back().ops.push_back(o);
        } else if (p.empty()) {
        } else if (sscanf(line, "act %u %u %63s %d %d", &a, &b, w, &i, &j) == 5) {
            Act t{ a, b, 0, i, j };
            for (int q = 0; q < AK_N; q++)
                if (!strcmp(ak_name[q], w)) t.kind = (u8)q;
            p.back().acts.push_back(t);
        }
        (void)c;
    }
    fclose(f);
    return !p.empty();
}

// how a run that went off the rails ends depends on what lies in memory
static bool same(const std::string &a, const std::string &b) {
    auto wild = [](const std::string &c) { return c.rfind("crash", 0) == 0 || c == "memory-error"; };
    return a == b || (wild(a) && wild(b));
}

// ---- minimisation ----------------------------------------------------------------------
static int g_tries = 0;
static bool still(const Plan &p, const Result &want) {
    if (++g_tries > 3000) return false;
    Result r = run_plan(p);
    return r.violation && same(r.cls, want.cls);
}
template<class T, class F>
static void ddmin(std::vector<T> &v, F test) {
    size_t chunk = v.size();
    while (chunk >= 1 && !v.empty()) {
        bool any = false;
        for (size_t i = 0; i < v.size();) {
            std::vector<T> t = v;
            size_t e = std::min(i + chunk, v.size());
            t.erase(t.begin() + (long)i, t.begin() + (long)e);
            if (test(t)) {
                v = t;
                any = true;
            } else
                i = e;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > v.size()) chunk = chunk > 1 ? (chunk + 1) / 2 : 1;
    }
}
static void minimise(Plan &p, const Result &want) {
    g_tries = 0;
    double deadline = now_s() + 12;
    // episodes: usually the last one alone suffices
    {
        Plan q{ p.back() };
        if (still(q, want)) p = q;
        else ddmin(p, [&](const Plan &t) { return !t.empty() && still(t, want); });
    }
    for (int round = 0; round < 4 && now_s() < deadline; round++) {
        size_t before = 0, after = 0;
        for (auto &e : p) before += e.ops.size() + e.acts.size();
        for (size_t e = 0; e < p.size(); e++) {
            Plan q = p;
            ddmin(q[e].ops, [&](const std::vector<Op> &t) {
                if (now_s() > deadline) return false;
                Plan x = q;
                x[e].ops = t;
                std::vector<Act> as;
                for (auto &a : x[e].acts)
                    for (auto &o : t)
                        if (o.id == a.op) {
                            as.push_back(a);
                            break;
                        }
                x[e].acts = as;
                return still(x, want);
            });
            p = q;
            std::vector<Act> as;
            for (auto &a : p[e].acts)
                for (auto &o : p[e].ops)
                    if (o.id == a.op) {
                        as.push_back(a);
                        break;
                    }
            p[e].acts = as;
            ddmin(p[e].acts, [&](const std::vector<Act> &t) {
                if (now_s() > deadline) return false;
                Plan x = p;
                x[e].acts = t;
                return still(x, want);
            });
            // simpler ops
            for (size_t i = 0; i < p[e].ops.size() && now_s() < deadline; i++) {
                auto attempt = [&](auto change) {
                    Plan x = p;
                    change(x[e].ops[i]);
                    if (memcmp(&x[e].ops[i], &p[e].ops[i], sizeof(Op)) == 0) return false;
                    if (!still(x, want)) return false;
                    p = x;
                    return true;
                };
                attempt([](Op &o) { o.bits = 0; });
                for (int b = 0; b < 32; b++)
                    if (p[e].ops[i].bits >> b & 1) attempt([&](Op &o) { o.bits &= ~(1ull << b); });
                attempt([](Op &o) { o.task = 0; });
                attempt([](Op &o) { o.b = 0; });
                attempt([](Op &o) { o.c = 0; });
                while (p[e].ops[i].b > 1 && attempt([](Op &o) { o.b /= 2; })) {}
            }
            for (size_t i = 0; i < p[e].acts.size() && now_s() < deadline; i++)
                if (p[e].acts[i].kind == AK_FAULT) {
                    Plan x = p;
                    x[e].acts[i].a = 0;
                    if (x[e].acts[i].a != p[e].acts[i].a && still(x, want)) p = x;
                }
            while (p[e].ntasks > 1) {
                Plan x = p;
                x[e].ntasks--;
                bool used = false;
                for (auto &o : x[e].ops) used |= o.task >= x[e].ntasks;
                if (used || !still(x, want)) break;
                p = x;
            }
        }
        for (auto &e : p) after += e.ops.size() + e.acts.size();
        if (after == before) break;
    }
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char **argv) {
    // same addresses in every process, where the system permits
    if (!getenv("SIM_NOASLR_DONE")) {
        setenv("SIM_NOASLR_DONE", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    auto opt = [&](const char *n, const char *d) -> const char * {
        for (int i = 2; i + 1 < argc; i++)
            if (!strcmp(argv[i], n)) return argv[i + 1];
        return d;
    };
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (SH == MAP_FAILED) return 2;
    const char *variant = opt("--variant", "plain");
    if (mode == "replay") {
        Plan p;
        int prop = 0;
        u64 seed = 0, hash = 0;
        std::string cls;
        if (argc < 3 || !parse_plan(argv[2], p, prop, seed, cls, hash)) {
            fprintf(stderr, "cannot read replay file\n");
            return 2;
        }
        g_quiet = false;
        W.target = prop;
        W.scn = make_scenario(prop);
        Result r = run_plan(p);
        if (!r.violation) {
            printf("REPLAY property=C%02d no violation hash=%016llx\n", prop, (unsigned long long)r.hash);
            return 0;
        }
        printf("REPLAY property=C%02d class=%s hash=%016llx %s\n", prop, r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
        return same(r.cls, cls) ? 1 : 3;
    }
    if (mode != "run") return 2;

    int prop = atoi(opt("--prop", "1"));
    u64 seed = strtoull(opt("--seed", "1"), nullptr, 10);
    u32 from = (u32)atoi(opt("--from", "0")), step = (u32)atoi(opt("--step", "1")), batches = (u32)atoi(opt("--batches", "10"));
    u32 E = (u32)atoi(opt("--episodes", "24"));
    double cap = atof(opt("--cap", "600"));
    u32 check_every = (u32)atoi(opt("--redo", "16"));
    std::string out = opt("--out", ""), replay = opt("--replay", "replay.txt");
    if (*opt("--stop", "")) g_stop = opt("--stop", "");
    W.target = prop;
    W.scn = make_scenario(prop);
    static char ef[300];
    if (!out.empty()) {
        snprintf(ef, sizeof ef, "%s.err", out.c_str());
        errfile = ef;
    }
    double t0 = now_s();
    std::unordered_set<u64> hist, sched;
    u64 nontrivial = 0, redone = 0, mism = 0, rejected = 0;
    u64 all_hash = 0;
    std::string samples, found, reject_msg;
    memset(&SH->st, 0, sizeof SH->st);
    u32 b = from, done = 0;
    std::string error;
    for (; b < batches; b += step) {
        if (now_s() - t0 > cap) break;
        if (g_stop && access(g_stop, F_OK) == 0) break;
        u64 base = mix(seed, (u64)prop, b, 0x51);
        SH->nep = SH->nops = SH->nacts = 0;
        Stats keep = SH->st;
        Result r = run_child(true, base, E);
        done++;
        if (!r.violation) {
            for (u32 i = 0; i < SH->nh; i++) {
                all_hash = mix(all_hash, SH->ep_hash[i]);
                bool nw = hist.insert(SH->ep_hash[i]).second;
                if (SH->nontrivial[i] && nw) {
                    nontrivial++;
                    sched.insert(SH->sched_hash[i]);
                }
            }
            if (samples.size() < 2500 && done <= 2) {
                Plan p = take_plan(0);
                if (p.size()) {
                    Result z;
                    z.cls = "none";
                    z.hash = SH->ep_hash[0];
                    samples += (samples.empty() ? "" : ",") + jstr(plan_text(p, prop, z, variant, seed).substr(0, 1200));
                }
            }
            if (check_every && done % check_every == 1) { // the same seed again: same history, event for event
                std::vector<u64> h(SH->ep_hash, SH->ep_hash + SH->nh);
                keep = SH->st;
                // once generating again, once from the explicit plan
                bool explicit_ = (done / check_every) & 1;
                if (explicit_) {
                    Plan p = take_plan(SH->nep - 1);
                    run_plan(p);
                } else {
                    SH->nep = SH->nops = SH->nacts = 0;
                    run_child(true, base, E);
                }
                redone++;
                if (h != std::vector<u64>(SH->ep_hash, SH->ep_hash + SH->nh)) {
                    mism++;
                    error = "a repeated run took another course (batch " + std::to_string(b) + ", " + (explicit_ ? "explicit" : "generated") + ")";
                    break;
                }
                SH->st = keep;
            }
            continue;
        }
        // a violation: gate it
        all_hash = mix(all_hash, r.hash);
        keep = SH->st;
        u32 last = r.cls.rfind("crash", 0) == 0 || r.cls == "memory-error" || r.cls == "no-progress" ? SH->cur_ep : SH->vio_ep;
        Plan p = take_plan(last);
        if (r.cls == "no-progress") g_cpu = 20;
        Result r1 = run_plan(p), r2 = run_plan(p);
        if (!(r1.violation && r2.violation && same(r1.cls, r.cls) && same(r2.cls, r.cls))) {
            error = "a violation (" + r.cls + ": " + r.msg + ") did not repeat from its recorded plan";
            SH->st = keep;
            if (++mism >= 6) break;
            continue;
        }
        if (g_stop) { // the first worker to find something minimises it, the others leave it at that
            int fd = open(g_stop, O_WRONLY | O_CREAT | O_EXCL, 0644);
            if (fd < 0) break;
            close(fd);
        }
        minimise(p, r1);
        put_plan(p);
        std::string why;
        SH->st = keep;
        if (!acceptable(prop, *SH, why)) {
            rejected++;
            reject_msg = r.cls + ": " + why;
            if (g_stop) unlink(g_stop);
            if (rejected >= 60) break;
            continue;
        }
        Result m1 = run_plan(p), m2 = run_plan(p);
        SH->st = keep;
        if (!m1.violation || !m2.violation || !same(m1.cls, m2.cls)) {
            error = "the minimised plan of a violation (" + r.cls + ") did not repeat";
            if (g_stop) unlink(g_stop);
            if (++mism >= 6) break;
            continue;
        }
        std::string text = plan_text(p, prop, m1, variant, mix(base, last));
        FILE *f = fopen(replay.c_str(), "w");
        if (!f) return 2;
        fputs(text.c_str(), f);
        fclose(f);
        found = m1.cls + ": " + m1.msg;
        break;
    }
    double wall = now_s() - t0;
    Stats &s = SH->st;
    std::string j = "{";
    auto num = [&](const char *n, unsigned long long v) { j += std::string(j.size() > 1 ? "," : "") + "\"" + n + "\":" + std::to_string(v); };
    num("batches", done);
    num("episodes", s.episodes);
    num("ops", s.ops);
    num("calls", s.calls);
    num("failed_calls", s.failed_calls);
    num("recoveries", s.recoveries);
    num("callbacks", s.callbacks);
    num("memory_accesses", s.memacc);
    num("switches", s.switches);
    num("memory_switches", s.memswitches);
    num("mutations_during_calls", s.mutations);
    num("nested", s.nested);
    num("allocations", s.allocs);
    num("sim_seconds", s.simtime_us / 1000000);
    num("nontrivial", nontrivial);
    num("foreign", s.foreign);
    num("redone", redone);
    num("mismatches", mism);
    num("rejected", rejected);
    num("distinct_here", hist.size());
    j += ",\"wall\":" + std::to_string(wall);
    j += ",\"all_hash\":\"" + std::to_string(all_hash) + "\"";
    j += ",\"fault_points\":{";
    for (int i = 0; i < PK_N; i++) j += std::string(i ? "," : "") + "\"" + pk_name[i] + "\":" + std::to_string(s.fault_pk[i]);
    j += "},\"fault_kinds\":{";
    for (int i = 0; i < EX_N; i++) j += std::string(i ? "," : "") + "\"" + ex_name[i] + "\":" + std::to_string(s.fault_ex[i]);
    j += "},\"op_kinds\":{";
    for (int i = 0, c = 0; i < 16; i++)
        if (s.opk[i]) j += std::string(c++ ? "," : "") + "\"" + op_name(i) + "\":" + std::to_string(s.opk[i]);
    j += "},\"probes\":{";
    for (int i = 0, c = 0; i < (int)NPROBE; i++)
        if (probe_names[i]) j += std::string(c++ ? "," : "") + jstr(probe_names[i]) + ":" + std::to_string(s.probe[i]);
    j += "},\"foreign_msg\":" + jstr(SH->foreign_msg) + ",\"reject_msg\":" + jstr(reject_msg) + ",\"error\":" + jstr(error) + ",\"found\":" + jstr(found) + ",\"samples\":[" + samples + "]";
    j += ",\"hist\":[";
    {
        std::string h;
        for (u64 x : hist) h += (h.empty() ? "" : ",") + std::to_string(x >> 16);
        j += h + "],\"sched\":[";
        h.clear();
        for (u64 x : sched) h += (h.empty() ? "" : ",") + std::to_string(x >> 16);
        j += h + "]}";
    }
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (!f) return 2;
        fputs(j.c_str(), f);
        fputs("\n", f);
        fclose(f);
    } else
        printf("%.3000s\n", j.c_str());
    if (!found.empty()) {
        printf("FOUND %s\n", found.c_str());
        return 1;
    }
    if (!error.empty()) {
        printf("ERROR %s\n", error.c_str());
        return 2;
    }
    return 0;
}
