#include "core.h"

#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <pthread.h>
#include <functional>
#include <optional>
#include <random>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <unistd.h>

namespace sim {

Shared *SH = nullptr;
World W;
thread_local Task *tl_task = nullptr;
thread_local int tl_harness = 1;
thread_local int tl_nothrow = 0;
thread_local int tl_counted = 0;
void (*on_eq)(int, int) = nullptr;

Lib::Lib() : saved{ tl_harness }, base{ tl_task ? tl_task->base_unc : 0 } {
    tl_harness = 0;
    if (tl_task) tl_task->base_unc = std::uncaught_exceptions();
}
Lib::~Lib() {
    tl_harness = saved;
    if (tl_task) tl_task->base_unc = base;
}

void fold(u64 v) { W.hash = mix(W.hash, v); }

void violate(u32 mask, const char *cls, const char *fmt, ...) {
    Harness h;
    char buf[500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (W.stop) return;
    if (!(mask & P(W.target))) {
        SH->st.foreign++;
        SH->foreign_mask |= mask;
        snprintf(SH->foreign_msg, sizeof SH->foreign_msg, "%s: %s", cls, buf);
        return;
    }
    W.stop = true;
    SH->status = 2;
    SH->vio_ep = W.ep;
    SH->vio_mask = mask;
    snprintf(SH->cls, sizeof SH->cls, "%s", cls);
    snprintf(SH->msg, sizeof SH->msg, "%s [op %u, callback %u]", buf, tl_task ? tl_task->run.op.id : 0, tl_task ? tl_task->run.cb : 0);
}

// Every kind is a type of its own that carries its serial number: an exception that was copied as its base,
// replaced or translated does not pass for the original.
struct ExLive { // exception objects alive
    ExLive() { W.live_ex++; }
    ExLive(const ExLive &) { W.live_ex++; }
    ExLive &operator=(const ExLive &) = default;
    ~ExLive() { W.live_ex--; }
};
struct FaultId {
    int kind = 0;
    u64 id = 0;
    ExLive live{};
    virtual ~FaultId() = default;
};
template<class B>
struct StdFault : B, FaultId {
    template<class... A>
    StdFault(int k, u64 i, A &&...a) : B(std::forward<A>(a)...), FaultId{} {
        kind = k;
        id = i;
    }
};
struct SimFault : std::exception {
    const char *what() const noexcept override { return "injected"; }
};
struct PlainFault {
    u64 id;
    ExLive live{};
};
struct NestedFault : std::nested_exception {
    u64 id;
    ExLive live{};
    explicit NestedFault(u64 i) : id{ i } {}
};

ExId current_exception_id() {
    ExId r;
    try {
        throw;
    } catch (const std::exception &e) {
        auto *f = dynamic_cast<const FaultId *>(&e);
        r.kind = f ? f->kind : -2;
        r.id = f ? f->id : 0;
    } catch (const NestedFault &e) {
        r.kind = typeid(e) == typeid(NestedFault) ? EX_NESTED : -2;
        r.id = e.id;
    } catch (const PlainFault &e) {
        r.kind = EX_STRUCT;
        r.id = e.id;
    } catch (const char *p) {
        r.kind = EX_PTR;
        r.id = (u64)(uintptr_t)p;
    } catch (int i) {
        r.kind = EX_INT;
        r.id = (u64)(u32)i;
    } catch (...) {
        r.kind = -2;
    }
    return r;
}

void throw_kind(int ex, u64 id) {
    static constexpr std::errc codes[] = { std::errc::interrupted, std::errc::resource_unavailable_try_again, std::errc::timed_out, std::errc::operation_canceled, std::errc::not_enough_memory };
    switch (ex) {
    case EX_STD: throw StdFault<SimFault>{ ex, id };
    case EX_STRUCT: throw PlainFault{ id };
    case EX_INT: throw (int)id;
    case EX_RUNTIME: throw StdFault<std::runtime_error>{ ex, id, "injected" };
    case EX_LOGIC: throw StdFault<std::out_of_range>{ ex, id, "injected" };
    case EX_SYSTEM: throw StdFault<std::system_error>{ ex, id, std::make_error_code(codes[id % 5]) };
    case EX_BADOPT: throw StdFault<std::bad_optional_access>{ ex, id };
    case EX_BADCALL: throw StdFault<std::bad_function_call>{ ex, id };
    case EX_BADCAST: throw StdFault<std::bad_cast>{ ex, id };
    case EX_NESTED: throw NestedFault{ id };
    case EX_PTR: throw (const char *)(uintptr_t)id;
    default: throw StdFault<std::bad_alloc>{ EX_BADALLOC, id };
    }
}

void throw_fault(Task &t, PK pk, int node, int exkind) {
    OpRun &o = t.run;
    u64 id = (++W.exserial) * 7919 + 13;
    if (pk == PK_ALLOC) exkind = EX_BADALLOC;
    o.fault_fired = true;
    o.fault_pk = pk;
    o.fault_node = node;
    o.ex = ExId{ exkind, id };
    W.faults++;
    SH->st.fault_pk[pk]++;
    SH->st.fault_ex[exkind]++;
    fold(mix(0xfa17, pk, (u64)node, exkind));
    W.shash = mix(W.shash, 0xfa17, pk, (u64)node, o.op.id);
    W.scn->on_fault(t, pk, node);
    throw_kind(exkind, id);
}

// ---- scheduler -----------------------------------------------------------------
static std::binary_semaphore main_sem{ 0 };

static void switch_to(Task &self, int target, bool mem) {
    int n = (int)W.tasks.size();
    if (target < 0 || target >= n || target == self.id || W.tasks[target]->done) return;
    W.switches++;
    (mem ? SH->st.memswitches : SH->st.switches)++;
    fold(mix(0x5317c4, (u64)self.id, target));
    W.shash = mix(W.shash, self.id, target, self.run.op.id, self.run.cb);
    W.tasks[target]->sem.release();
    self.sem.acquire();
}

void give_way() { // round robin
    Task &t = *tl_task;
    const int n = (int)W.tasks.size();
    for (int i = 1; i < n; i++) {
        Task &o = *W.tasks[(size_t)((t.id + i) % n)];
        if (o.done || o.blocked) continue;
        Harness h;
        switch_to(t, o.id, false);
        return;
    }
}

void live_add(int n) { W.live_vals += n; }

void point_forced(PK k, int node, bool can_throw) {
    if (tl_nothrow) can_throw = false;
    Task *tp = tl_task;
    if (!tp || W.stop) return;
    Task &t = *tp;
    OpRun &o = t.run;
    if (++W.steps > 4000000) { // since the last call began
        violate(ALLPROPS, "no-progress", "a single call made more than 4000000 callbacks without ending");
        _exit(10);
    }
    o.cb++;
    SH->st.callbacks++;
    SH->st.pk[k]++;
    fold(mix((u64)k, (u64)(u32)node, t.id));
    bool unwinding = std::uncaught_exceptions() > t.base_unc;
    while (o.next < o.acts.size() && o.acts[o.next].k <= o.cb) {
        Act a = o.acts[o.next++];
        if (a.kind == AK_FAULT) {
            o.armed = true;
            o.armed_act = a;
            continue;
        }
        if (a.k < o.cb || unwinding) continue;
        switch (a.kind) {
        case AK_SWITCH: {
            Harness h;
            switch_to(t, a.a, false);
            break;
        }
        case AK_MUTATE: {
            Harness h;
            SH->st.mutations++;
            W.muts++;
            fold(mix(0x3a7e, (u64)a.a, a.b));
            W.scn->mutate(a.a, a.b);
            break;
        }
        case AK_NESTED: {
            if ((k > PK_SRC_OUT && k != PK_CB) || tl_nothrow) break;
            Harness h;
            SH->st.nested++;
            W.nest++;
            W.scn->nested(t, a.a, a.b, k, node); // may throw: the failure of the nested call passes through
            break;
        }
        default: break;
        }
        if (W.stop) return;
    }
    if (o.armed && !o.fault_fired && can_throw && !unwinding && (o.armed_act.b == 0 || o.armed_act.b == k + 1)) {
        Harness h;
        throw_fault(t, k, node, o.armed_act.a);
    }
}

// memory-access switch points (only called from programs built with access hooks)
void mem_point() {
    Task *tp = tl_task;
    if (!tp || tl_harness != 0 || W.stop) return;
    OpRun &o = tp->run;
    o.mem++;
    SH->st.memacc++;
    if (o.cb != tp->spin_cb) tp->spin_cb = o.cb, tp->spin = 0;
    if (++tp->spin % 100000 == 0) give_way(); // it may be waiting in a loop for what another thread is to do
    if (o.mnext < o.macts.size() && o.macts[o.mnext].k <= o.mem) {
        Act a = o.macts[o.mnext++];
        if (a.k == o.mem) {
            Harness h;
            switch_to(*tp, a.a, true);
        }
    }
}

static int est_cb(Task &t) { return t.last_cb < 6 ? 6 : t.last_cb; }

static void draw_acts(Task &t, const Op &op, std::vector<Act> &out) {
    Rng &r = W.rng;
    const Knobs &k = W.kn;
    int est = est_cb(t);
    auto pos = [&] { return (u32)(r.chance(0.35) ? r.range(1, 8) : r.range(1, est + est / 8 + 1)); };
    int nt = (int)W.tasks.size();
    if (nt > 1) {
        if (r.chance(k.p_switch)) out.push_back({ op.id, 0, AK_SWITCH, (i32)r.below(nt), 0 });
        for (int i = 0; i < 6 && r.chance(k.p_switch); i++) out.push_back({ op.id, pos(), AK_SWITCH, (i32)r.below(nt), 0 });
        for (int i = 0; i < 6 && r.chance(k.p_mem); i++) out.push_back({ op.id, (u32)r.range(1, r.chance(0.5) ? 60 : 600), AK_MEMSWITCH, (i32)r.below(nt), 0 });
    }
    if (r.chance(k.p_fault)) {
        Act a{ op.id, pos(), AK_FAULT, (i32)r.below(r.chance(0.5) ? 4 : EX_N), 0 };
        if (k.fault_classes && r.chance(0.8)) {
            int c;
            do c = (int)r.below(PK_N);
            while (!(k.fault_classes & (1u << c)));
            a.b = c + 1;
            if (r.chance(0.5)) a.k = (u32)r.range(1, est);
        }
        if (k.only_user_faults && a.b == 0) a.b = 1 + (int)r.below(4);
        out.push_back(a);
    }
    for (int i = 0; i < 3 && r.chance(k.p_mutate); i++) {
        Act a{ op.id, pos(), AK_MUTATE, 0, 0 };
        if (W.scn->gen_mutate(r, a.a, a.b)) out.push_back(a);
    }
    for (int i = 0; i < 2 && r.chance(k.p_nested); i++) {
        Act a{ op.id, pos(), AK_NESTED, 0, 0 };
        if (W.scn->gen_nested(r, a.a, a.b)) out.push_back(a);
    }
    if (k.p_cascade > 0 && SH->nacts + 400 < MAXACTS && r.chance(k.p_cascade)) { // calls inside calls inside calls ...
        u32 at = (u32)r.range(1, 6);
        for (int i = r.range(10, 150); i > 0; i--) {
            Act a{ op.id, at++, AK_NESTED, 0, 0 };
            if (W.scn->gen_cascade(r, a.a, a.b)) out.push_back(a);
        }
    }
}

static bool next_op(Task &t) {
    OpRun &o = t.run;
    o.acts.clear();
    o.macts.clear();
    o.next = o.mnext = 0;
    o.cb = o.mem = o.drawn = 0;
    o.armed = o.fault_fired = false;
    o.ex = ExId{};
    std::vector<Act> as;
    if (W.generating) {
        if (t.budget-- <= 0) return false;
        if (SH->nops + 2 >= MAXOPS || SH->nacts + 40 >= MAXACTS) return false;
        Op op{};
        op.task = (u8)t.id;
        if (!W.scn->gen_op(W.rng, t, op)) return false;
        op.id = W.next_op_id++;
        draw_acts(t, op, as);
        for (auto &a : as) SH->acts[SH->nacts++] = a;
        SH->ops[SH->nops++] = op;
        SH->ep[W.ep].op1 = SH->nops;
        SH->ep[W.ep].act1 = SH->nacts;
        o.op = op;
    } else {
        if (t.qpos >= t.queue.size()) return false;
        o.op = SH->ops[t.queue[t.qpos++]];
        EpHdr &e = SH->ep[W.ep];
        for (u32 i = e.act0; i < e.act1; i++)
            if (SH->acts[i].op == o.op.id) as.push_back(SH->acts[i]);
    }
    for (auto &a : as) (a.kind == AK_MEMSWITCH ? o.macts : o.acts).push_back(a);
    auto srt = [](std::vector<Act> &v) {
        for (size_t i = 1; i < v.size(); i++)
            for (size_t j = i; j > 0 && v[j].k < v[j - 1].k; j--) std::swap(v[j], v[j - 1]);
    };
    srt(o.acts);
    srt(o.macts);
    return true;
}

static void *task_main(void *arg) {
    Task &t = *(Task *)arg;
    tl_task = &t;
    tl_harness = 1;
    t.sem.acquire();
    while (!W.stop && next_op(t)) {
        OpRun &o = t.run;
        while (o.next < o.acts.size() && o.acts[o.next].k == 0) {
            Act a = o.acts[o.next++];
            if (a.kind == AK_SWITCH) switch_to(t, a.a, false);
        }
        if (W.stop) break;
        SH->cur_op = o.op.id;
        SH->st.ops++;
        SH->st.opk[o.op.kind & 15]++;
        fold(mix(o.op.kind, (u64)o.op.a, o.op.b, o.op.c, o.op.bits));
        W.scn->exec(t, o.op);
        if (o.cb > 3) t.last_cb = o.cb > 4000 ? 4000 : (int)o.cb;
        SH->hash = W.hash;
    }
    t.done = true;
    for (Task *n : W.tasks)
        if (!n->done) {
            n->sem.release();
            tl_task = nullptr;
            return nullptr;
        }
    tl_task = nullptr;
    main_sem.release();
    return nullptr;
}

// fixed addresses for the task stacks: address-dependent behaviour replays
static constexpr size_t STK = 16 * 1024 * 1024;
static char *stack_base() {
#ifdef SIM_ASAN
    return nullptr;
#else
    static char *b = [] {
        void *p = mmap((void *)0x200000000000ull, STK * 24, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        return p == MAP_FAILED ? nullptr : (char *)p;
    }();
    return b;
#endif
}

void arena_reset();

struct Closer { // the scenario's finish() runs as a task of its own
};

void run_episode(u32 e) {
    EpHdr &h = SH->ep[e];
    W.ep = e;
    SH->cur_ep = e;
    W.knob = h.knob;
    W.rng = Rng{ mix(h.knob, 0x0b5) };
    W.stop = false;
    W.next_op_id = 1;
    W.steps = 0;
    W.hash = mix(h.knob, 1);
    W.shash = 0x5c4ed;
    W.clock_ns = 1'600'000'000'000'000'000ll;
    W.live_vals = W.live_ex = 0;
    W.lib_allocs = W.lib_bytes = 0;
    W.exserial = 0;
    W.faults = W.switches = W.nest = W.muts = 0;
    W.kn = Knobs{};
    Rng kr{ mix(h.knob, 0xc0f) };
    W.scn->configure(kr, W.kn);
    W.quarantine = W.kn.quarantine;
    u32 f0 = SH->st.failed_calls;
    (void)f0;
    int nt;
    if (W.generating) {
        h.op0 = h.op1 = SH->nops;
        h.act0 = h.act1 = SH->nacts;
        nt = W.kn.tasks;
        h.ntasks = (u32)nt;
    } else
        nt = (int)h.ntasks;
    arena_reset();
    W.scn->begin();
    std::vector<Task> pool((size_t)nt);
    W.tasks.clear();
    for (int i = 0; i < nt; i++) {
        pool[i].id = i;
        W.tasks.push_back(&pool[i]);
    }
    if (W.generating) {
        for (int i = 0; i < nt; i++) pool[i].budget = (W.kn.ops + nt - 1) / nt;
    } else {
        for (u32 i = h.op0; i < h.op1; i++) {
            int t = SH->ops[i].task;
            if (t < nt) pool[t].queue.push_back(i);
        }
    }
    char *sb = stack_base();
    for (int i = 0; i < nt; i++) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        if (!sb) pthread_attr_setstacksize(&at, 4 * STK);
        if (sb) pthread_attr_setstack(&at, sb + STK * (size_t)i, STK);
        pthread_t th;
        if (pthread_create(&th, &at, task_main, &pool[i])) abort();
        pool[i].th = th;
        pthread_attr_destroy(&at);
    }
    pool[0].sem.release();
    main_sem.acquire();
    for (int i = 0; i < nt; i++) pthread_join((pthread_t)pool[i].th, nullptr);
    W.tasks.clear();
    // closing phase
    {
        Task closer;
        closer.id = 0;
        tl_task = &closer;
        tl_harness = 1;
        closer.run.op.id = 0;
        W.tasks.push_back(&closer);
        W.scn->finish();
        W.tasks.clear();
        tl_task = nullptr;
    }
    SH->hash = W.hash;
    SH->st.episodes++;
    if (SH->nh < MAXEP) {
        SH->ep_hash[SH->nh] = W.hash;
        SH->sched_hash[SH->nh] = mix(W.shash, W.switches, W.faults);
        SH->nontrivial[SH->nh] = W.faults + W.switches + W.nest + W.muts > 0;
        SH->nh++;
    }
}

// ---- allocator ---------------------------------------------------------------------
struct Hd {
    u32 magic;
    u16 tag, off;
    u64 size;
};
static constexpr u32 HLIVE = 0xa110c8ed, HDEAD = 0xdeadb10c;
#ifndef SIM_ASAN
static constexpr size_t ARENA = 64u << 20;
static char *arena_base, *arena_top, *arena_hi;
static void *freelist[258];
void arena_reset() {
    if (!arena_base) {
        void *p = mmap((void *)0x210000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) abort();
        arena_base = arena_top = arena_hi = (char *)p;
    }
    if (arena_top > arena_hi) arena_hi = arena_top;
    arena_top = arena_base;
    memset(freelist, 0, sizeof freelist);
}
static void *arena_alloc(size_t n) { // n includes the header
    size_t c = (n + 15) / 16;
    if (c < 258 && freelist[c] && !W.quarantine) {
        void *p = freelist[c];
        memcpy(&freelist[c], (char *)p + 16, sizeof(void *));
        return p;
    }
    if (arena_top + c * 16 > arena_base + ARENA) return nullptr;
    void *p = arena_top;
    arena_top += c * 16;
    return p;
}
static void arena_free(void *p, size_t n) {
    size_t c = (n + 15) / 16;
    memset((char *)p + 16, 0xDD, n - 16);
    if (c < 258 && c > 1 && !W.quarantine) {
        memcpy((char *)p + 16, &freelist[c], sizeof(void *));
        freelist[c] = p;
    }
}
#else
void arena_reset() {}
#endif

static void *sim_alloc(size_t n, size_t al) {
    bool lib = tl_task && (tl_harness == 0 || tl_counted > 0);
    if (lib) {
        SH->st.allocs++;
        if (tl_harness == 0) point_forced(PK_ALLOC, 0);
        W.lib_allocs++;
        W.lib_bytes += (long)n;
    }
    if (al < 16) al = 16;
    size_t off = al;
    Hd *h;
    char *p;
#ifndef SIM_ASAN
    if (lib && al == 16 && n < (1 << 20)) {
        if (char *b = (char *)arena_alloc(n + 32)) { // an exhausted arena is no failure of the code under test
            p = b + 16;
            h = (Hd *)b;
            *h = Hd{ HLIVE, 2, 16, n };
            memset(p, 0xCD, n);
            return p;
        }
    }
#endif
    char *b = nullptr;
    if (posix_memalign((void **)&b, al, n + off)) abort();
    p = b + off;
    h = (Hd *)(p - 16);
    *h = Hd{ HLIVE, (u16)(lib ? 1 : 0), (u16)off, n };
    if (lib) memset(p, 0xCD, n);
    return p;
}
static void sim_free(void *q) noexcept {
    if (!q) return;
    char *p = (char *)q;
    Hd *h = (Hd *)(p - 16);
    if (h->magic != HLIVE) {
        violate(P(10) | P(14) | P(13) | P(15) | P(16) | P(17) | P(19) | P(21) | P(23) | P(24), "bad-free", "memory block released twice or never allocated");
        if (W.stop) return;
        return;
    }
    h->magic = HDEAD;
    if (h->tag) W.lib_allocs--, W.lib_bytes -= (long)h->size;
#ifndef SIM_ASAN
    if (h->tag == 2) {
        arena_free(h, h->size + 32);
        return;
    }
#endif
    if (h->tag) memset(p, 0xDD, h->size);
    ::free(p - h->off);
}

} // namespace sim

void *operator new(std::size_t n) { return sim::sim_alloc(n, 16); }
void *operator new[](std::size_t n) { return sim::sim_alloc(n, 16); }
void *operator new(std::size_t n, std::align_val_t a) { return sim::sim_alloc(n, (std::size_t)a); }
void *operator new[](std::size_t n, std::align_val_t a) { return sim::sim_alloc(n, (std::size_t)a); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept {
    sim::Harness h;
    return sim::sim_alloc(n, 16);
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept {
    sim::Harness h;
    return sim::sim_alloc(n, 16);
}
void operator delete(void *p) noexcept { sim::sim_free(p); }
void operator delete[](void *p) noexcept { sim::sim_free(p); }
void operator delete(void *p, std::size_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, std::size_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::sim_free(p); }

// ---- clock: whatever asks for the time inside a simulated run gets simulated time ----
#ifndef SIM_ASAN
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (sim::tl_task) {
        long long n = sim::W.clock_ns;
        ts->tv_sec = n / 1000000000;
        ts->tv_nsec = n % 1000000000;
        return 0;
    }
    extern int sim_real_clock_gettime(clockid_t, struct timespec *);
    return sim_real_clock_gettime(id, ts);
}
int sim_real_clock_gettime(clockid_t id, struct timespec *ts) { return (int)syscall(SYS_clock_gettime, id, ts); }
extern "C" time_t time(time_t *t) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
#endif

// ---- randomness: whatever asks for it inside a simulated run gets the seed's numbers ----
// They depend on the operation and on how far it got, so that they stay the same when other operations are left out.
static unsigned long long drawn() {
    sim::Task &t = *sim::tl_task;
    return sim::mix(sim::W.knob, t.run.op.id, t.run.cb, ++t.run.drawn) >> 13;
}
extern "C" int rand() noexcept {
    static auto real = (int (*)())dlsym(RTLD_NEXT, "rand");
    return sim::tl_task ? (int)(drawn() & 0x7fffffff) : real();
}
extern "C" long random() noexcept {
    static auto real = (long (*)())dlsym(RTLD_NEXT, "random");
    return sim::tl_task ? (long)(drawn() & 0x7fffffff) : real();
}
extern "C" ssize_t getrandom(void *p, size_t n, unsigned flags) {
    if (!sim::tl_task) return syscall(SYS_getrandom, p, n, flags);
    for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)drawn();
    return (ssize_t)n;
}
extern "C" int getentropy(void *p, size_t n) { return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
unsigned std::random_device::_M_getval() {
    unsigned v = 0;
    if (sim::tl_task)
        v = (unsigned)drawn();
    else if (syscall(SYS_getrandom, &v, sizeof v, 0) != sizeof v)
        abort();
    return v;
}

// ---- locks ---------------------------------------------------------------------------
// A simulated thread that finds a lock taken hands the baton on and tries again when it comes back; when every
// thread that has not finished waits for a lock, that is a deadlock, found at once.
namespace sim {
template<class F>
static F next_sym(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static void unblock() {
    for (Task *t : W.tasks) t->blocked = false;
}
static void await_lock() {
    Task &t = *tl_task;
    Harness h;
    t.blocked = true;
    const int n = (int)W.tasks.size();
    for (int i = 1; i < n; i++) {
        Task &o = *W.tasks[(size_t)((t.id + i) % n)];
        if (o.done || o.blocked) continue;
        fold(mix(0x10c4ed, (u64)t.id, o.id));
        o.sem.release();
        t.sem.acquire();
        t.blocked = false;
        return;
    }
    if (SH->status != 2) { // a violation found earlier stands
        violate(ALLPROPS, "deadlock", "every thread that has not finished waits for a lock");
    }
    _exit(10);
}
template<class T>
static int lock_with(T try_it) {
    int r;
    while ((r = try_it()) == EBUSY && tl_task) await_lock();
    return r;
}
}
#define NEXT(n) static auto f = sim::next_sym<decltype(&n)>(#n)
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    NEXT(pthread_mutex_lock);
    static auto tr = sim::next_sym<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    return sim::tl_task ? sim::lock_with([&] { return tr(m); }) : f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    NEXT(pthread_mutex_unlock);
    if (sim::tl_task) sim::unblock();
    return f(m);
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
    NEXT(pthread_rwlock_rdlock);
    static auto tr = sim::next_sym<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
    return sim::tl_task ? sim::lock_with([&] { return tr(m); }) : f(m);
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
    NEXT(pthread_rwlock_wrlock);
    static auto tr = sim::next_sym<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
    return sim::tl_task ? sim::lock_with([&] { return tr(m); }) : f(m);
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
    NEXT(pthread_rwlock_unlock);
    if (sim::tl_task) sim::unblock();
    return f(m);
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { // others run meanwhile; then it wakes up spuriously
    NEXT(pthread_cond_wait);
    if (!sim::tl_task) return f(c, m);
    pthread_mutex_unlock(m);
    sim::await_lock();
    return pthread_mutex_lock(m);
}
static void elapse(const struct timespec *by) { // sleeping takes no real time: the simulated clock moves on and others run
    sim::W.clock_ns += by ? by->tv_sec * 1000000000ll + by->tv_nsec : 1000000ll;
    if (sim::tl_harness == 0) sim::give_way();
}
static void until(clockid_t id, const struct timespec *at) {
    struct timespec now{};
    clock_gettime(id, &now);
    long long d = (at->tv_sec - now.tv_sec) * 1000000000ll + (at->tv_nsec - now.tv_nsec);
    struct timespec by{ d > 0 ? d / 1000000000 : 0, d > 0 ? d % 1000000000 : 0 };
    elapse(&by);
}
static bool others_run() { // someone else could get on
    for (sim::Task *t : sim::W.tasks)
        if (t != sim::tl_task && !t->done && !t->blocked) return true;
    return false;
}
extern "C" int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t id, const struct timespec *at) noexcept {
    NEXT(pthread_mutex_clocklock);
    static auto tr = sim::next_sym<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    if (!sim::tl_task) return f(m, id, at);
    int r;
    while ((r = tr(m)) == EBUSY) {
        if (!others_run()) {
            until(id, at);
            return ETIMEDOUT;
        }
        sim::await_lock();
    }
    return r;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *at) noexcept {
    NEXT(pthread_mutex_timedlock);
    return sim::tl_task ? pthread_mutex_clocklock(m, CLOCK_REALTIME, at) : f(m, at);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *at) {
    NEXT(pthread_cond_clockwait);
    if (!sim::tl_task) return f(c, m, id, at);
    pthread_mutex_unlock(m);
    until(id, at);
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *at) {
    NEXT(pthread_cond_timedwait);
    return sim::tl_task ? pthread_cond_clockwait(c, m, CLOCK_REALTIME, at) : f(c, m, at);
}
extern "C" int pthread_once(pthread_once_t *o, void (*init)()) { // as glibc: 1 under way, 2 done
    NEXT(pthread_once);
    if (!sim::tl_task) return f(o, init);
    volatile int *v = (volatile int *)o;
    while (!(*v & 2)) {
        if (*v & 1) {
            sim::await_lock();
            continue;
        }
        *v = 1;
        try {
            init();
        } catch (...) {
            *v = 0;
            sim::unblock();
            throw;
        }
        __atomic_store_n((int *)o, 2, __ATOMIC_RELEASE);
        sim::unblock();
    }
    return 0;
}
extern "C" int nanosleep(const struct timespec *by, struct timespec *rem) {
    NEXT(nanosleep);
    if (!sim::tl_task) return f(by, rem);
    elapse(by);
    return 0;
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec *by, struct timespec *rem) {
    NEXT(clock_nanosleep);
    if (!sim::tl_task) return f(id, flags, by, rem);
    flags & TIMER_ABSTIME ? until(id, by) : elapse(by);
    return 0;
}
extern "C" int usleep(useconds_t us) {
    NEXT(usleep);
    if (!sim::tl_task) return f(us);
    struct timespec by{ us / 1000000, (long)(us % 1000000) * 1000 };
    elapse(&by);
    return 0;
}
extern "C" long syscall(long n, ...) noexcept { // atomic::wait and semaphores sleep on a futex
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && sim::tl_task && sim::tl_harness == 0) {
        const int op = (int)a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile int *)a[0] != (int)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            sim::await_lock();
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sim::unblock();
            return 0;
        }
    }
    using F = long (*)(long, ...);
    static F f = sim::next_sym<F>("syscall");
    return f(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
// initialisation of static variables: as in the C++ ABI, byte 0 says done, byte 1 under way
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(volatile long *g) {
    volatile char *b = (volatile char *)g;
    if (b[0]) return 0;
    while (b[1] && sim::tl_task) {
        sim::await_lock();
        if (b[0]) return 0;
    }
    b[1] = 1;
    return 1;
}
extern "C" void __cxa_guard_release(volatile long *g) noexcept {
    volatile char *b = (volatile char *)g;
    b[1] = 0;
    __atomic_store_n((char *)b, 1, __ATOMIC_RELEASE);
    if (sim::tl_task) sim::unblock();
}
extern "C" void __cxa_guard_abort(volatile long *g) noexcept {
    ((volatile char *)g)[1] = 0;
    if (sim::tl_task) sim::unblock();
}
}
// a thread that gives way lets another one run
extern "C" int sched_yield() noexcept {
    if (sim::tl_task && sim::tl_harness == 0) sim::give_way();
    return 0;
}

// ---- memory access hooks: compiled-in by -fsanitize=thread, this is the runtime -------
#ifdef SIM_MEMHOOKS
namespace sim {
void mem_point();
}
extern "C" {
#define H(n) \
    void __tsan_##n(void *) { sim::mem_point(); }
H(read1) H(read2) H(read4) H(read8) H(read16) H(write1) H(write2) H(write4) H(write8) H(write16)
H(unaligned_read2) H(unaligned_read4) H(unaligned_read8) H(unaligned_read16)
H(unaligned_write2) H(unaligned_write4) H(unaligned_write8) H(unaligned_write16)
H(vptr_read) H(volatile_read1) H(volatile_read2) H(volatile_read4) H(volatile_read8) H(volatile_read16)
H(volatile_write1) H(volatile_write2) H(volatile_write4) H(volatile_write8) H(volatile_write16)
#undef H
void __tsan_vptr_update(void **, void *) { sim::mem_point(); }
void __tsan_read_range(void *, unsigned long) { sim::mem_point(); }
void __tsan_write_range(void *, unsigned long) { sim::mem_point(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
#define A(n, T) \
    T __tsan_atomic##n##_load(const volatile T *p, int) { sim::mem_point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int) { sim::mem_point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { sim::mem_point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { sim::mem_point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { sim::mem_point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { sim::mem_point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { sim::mem_point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { sim::mem_point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { sim::mem_point(); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { sim::mem_point(); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int, int) { sim::mem_point(); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
A(8, unsigned char) A(16, unsigned short) A(32, unsigned int) A(64, unsigned long)
#undef A
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif
