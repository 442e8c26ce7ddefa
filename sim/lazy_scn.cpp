// The lazy-function simulation: objects, reference model, oracles.
#include "lazy_rt.h"
#include "lazy_shared.h"

#include <algorithm>
#include <sstream>

namespace sim {
const char *probe_names[NPROBE] = {
    "equal result stopped the propagation", "input changed and changed back between calls", "input changed during a call", "two samples of a call saw different input states",
    "failed call had noticed a changed input", "recovery call after a failure", "copy of a warm object", "copy of an object whose last call failed",
    "object called on another thread than before", "call while another task's call is suspended", "nested call", "nested call failed through its caller",
    "call made while unwinding", "failure while storing or comparing a result", "failure in a dependency after another dependency re-ran", "failure in a wrapped function",
    "sub-lazy used warm in a composition", "kept result reused after a failure elsewhere", "soak of >= 300 calls", "soak of >= 65536 calls",
    "lazy function built, copied or destroyed during a call", "void function re-run", "void dependency re-ran without its dependent", "build, copy or move failed",
    "two failures in a row", "object destroyed while others of its family live", "failure in a nested level >= 2", "clock jump", "same lazy in several places", "moved warm object", "soak with recurring failures", "soak over which the cost per call was compared", "called again after as many other calls as a small counter can count", "call made while another failure was being handled", "failed call repeated by the handler of its failure", "more than 24 calls in progress inside each other", "lazy functions shared by reference", "failure in a lazy function shared by reference"
};
const char *op_name(int k) {
    static const char *const n[] = { "build", "call", "soak", "set", "copy", "move", "destroy", "clock", "gap", "shared" };
    return k < 10 ? n[k] : "?";
}
} // namespace sim

namespace sim::lz {

enum { O_BUILD, O_CALL, O_SOAK, O_SET, O_COPY, O_MOVE, O_DESTROY, O_CLOCK, O_GAP, O_SHARED };

static std::vector<const Shape *> &shapes() {
    static std::vector<const Shape *> v;
    return v;
}
Reg::Reg(const Shape *const *s, int n) {
    for (int i = 0; i < n; i++) shapes().push_back(s[i]);
}

enum { NST_CALL, NST_COPY, NST_DESTROY, NST_BUILD };
enum : u8 { S_NONE, S_VALID, S_MAYBE };
struct NodeState {
    u8 s = S_NONE;
    u8 alt_ok = 0;
    i16 last[MAXCH]{};
    i16 alt[MAXCH]{};
    long ctr = 0;
};
struct Obj {
    u32 id = 0;
    const Shape *shape = nullptr;
    int root = 0;
    AnyLazy *h = nullptr;
    bool busy = false, failed_since_ok = false, failed_ever = false, derived = false;
    int last_task = -1;
    u32 family = 0;
    bool called = false;
    u64 last_inputs = 0;
    NodeState st[MAXN];
};
struct Ev {
    i16 node;
    u8 fn, done, n;
    i16 res;
    long ctr;
    i16 args[MAXCH];
};
struct Frame {
    Obj *o = nullptr; // null: build, copy, move, destroy
    bool fault = false;
    u8 fpk = 0;
    int fnode = 0;
    ExId ex;
    int depth = 0;
    std::vector<Ev> evs;
    u16 eq[MAXN]{};
    Frame *prev = nullptr;
    u32 cellver0 = 0;
};

struct Lz;
static Lz *L;

struct Lz final : Scenario {
    std::vector<Obj *> objs;
    int cells[8]{};
    u32 cellver = 0;
    u32 serial = 0;
    int nvals = 4, maxobjs = 14;
    std::vector<const Shape *> pool;
    int w[10]{};
    int active_calls = 0;
    std::vector<Frame *> frames_free;

    Obj *find(u32 id) {
        for (Obj *o : objs)
            if (o->id == id) return o;
        return nullptr;
    }

    // ---------------------------------------------------------------- configuration
    void configure(Rng &r, Knobs &k) override {
        const int p = W.target;
        auto pick = [&](std::initializer_list<double> l) { return l.begin()[r.below((u32)l.size())]; };
        k.ops = r.chance(0.7) ? r.range(4, 24) : r.range(20, 60);
        k.tasks = r.chance(0.25) ? 2 : 1;
        k.p_switch = pick({ 0.1, 0.3, 0.5 });
        k.p_mutate = pick({ 0, 0, 0.15, 0.4 });
        k.p_nested = pick({ 0, 0, 0.15, 0.3 });
        k.quarantine = r.chance(0.5);
        double pf = 0;
        nvals = (int)pick({ 2, 3, 8 });
        int ww[10] = { 6, 50, 0, 22, 3, 1, 2, 1, 0, 0 };
        bool want_void = false, want_instr = false, want_ctr = false;
        switch (p) {
        case 1: pf = pick({ 0, 0, 0, 0.15 }); break;
        case 2: pf = pick({ 0, 0, 0, 0.15 }); break;
        case 3: pf = pick({ 0, 0, 0.15 }); want_instr = true; break;
        case 4: pf = pick({ 0, 0.2 }); break;
        case 5: pf = pick({ 0.2, 0.4, 0.7 }); break;
        case 6: pf = pick({ 0.15, 0.3, 0.6 }); break;
        case 7: pf = pick({ 0.15, 0.3, 0.6 }); k.only_user_faults = r.chance(0.7); break;
        case 8:
            pf = pick({ 0, 0, 0.2 });
            ww[O_COPY] = 14;
            ww[O_MOVE] = 7;
            ww[O_DESTROY] = 5;
            ww[O_BUILD] = 10;
            want_ctr = r.chance(0.6);
            break;
        case 9:
            pf = pick({ 0, 0, 0.2 });
            k.tasks = r.range(2, 4);
            k.p_switch = pick({ 0.3, 0.5, 0.8 });
            k.p_mem = pick({ 0, 0.5, 0.8 });
            k.p_nested = pick({ 0, 0.2, 0.4 });
            k.ops = r.range(8, 40);
            break;
        case 10:
            pf = pick({ 0.2, 0.4, 0.7 });
            ww[O_COPY] = 8;
            ww[O_MOVE] = 5;
            ww[O_DESTROY] = 6;
            ww[O_BUILD] = 12;
            want_instr = r.chance(0.5);
            break;
        case 11:
            pf = pick({ 0, 0.2 });
            ww[O_COPY] = 14;
            ww[O_MOVE] = 8;
            ww[O_DESTROY] = 8;
            ww[O_BUILD] = 16;
            break;
        case 12:
            pf = pick({ 0, 0.2, 0.5 });
            want_void = true;
            break;
        case 22:
            pf = pick({ 0, 0.2 });
            k.tasks = 1;
            k.p_nested = 0;
            k.p_mutate = 0;
            k.ops = r.range(4, 9);
            ww[O_SOAK] = 40;
            ww[O_CALL] = 10;
            ww[O_SET] = 10;
            break;
        }
        if (p != 22 && r.chance(0.02)) ww[O_SOAK] = 3;
        if (p != 22 && r.chance(0.03)) ww[O_GAP] = 5;
        if (p != 22 && p != 3 && r.chance(0.05)) ww[O_SHARED] = 8;
        if (p == 9 ? r.chance(0.1) : p != 22 && r.chance(0.01)) {
            k.tasks = r.range(5, 10);
            k.ops = r.range(30, 90);
        }
        maxobjs = 14;
        if (p != 22 && r.chance(0.03)) { // a crowd of lazy functions
            maxobjs = r.range(30, 120);
            k.p_cascade = pick({ 0, 0.1, 0.3 });
            k.ops = maxobjs + r.range(40, 120);
            ww[O_BUILD] = 40;
            ww[O_COPY] += 10;
            ww[O_DESTROY] = 1;
        }
        for (int i = 0; i < 10; i++) w[i] = ww[i];
        if (r.chance(0.3)) w[O_SET] = r.chance(0.5) ? 6 : 60;
        if (r.chance(0.2)) w[O_COPY] = 0;
        k.p_fault = pf;
        if (pf > 0 && r.chance(0.6)) { // swarm: a few fault classes only
            for (int i = 0; i < PK_CB; i++)
                if (r.chance(0.3)) k.fault_classes |= 1u << i;
        }
        if (k.only_user_faults) k.fault_classes = 0xf;
        pool.clear();
        auto &all = shapes();
        int np = r.range(1, 3);
        for (int i = 0; i < np && !all.empty(); i++) {
            const Shape *s = nullptr;
            for (int t = 0; t < 60; t++) {
                s = all[r.below((u32)all.size())];
                if (want_void && !(s->tags & ST_VOID)) continue;
                if (want_instr && !(s->tags & ST_INSTR)) continue;
                if (want_ctr && !(s->tags & ST_CTR)) continue;
                break;
            }
            pool.push_back(s);
        }
        if (np > 1 && r.chance(0.4)) pool[0] = pool[1]; // objects of one and the same type
    }
    void begin() override {
        objs.clear();
        Rng r{ mix(W.knob, 0xce11) };
        for (int &c : cells) c = (int)r.below((u32)nvals);
        cellver = 1;
        serial = 0;
        active_calls = 0;
    }
    // ---------------------------------------------------------------- generation
    Obj *pick_obj(Rng &r) {
        Obj *c[128];
        int n = 0;
        for (Obj *o : objs)
            if (!o->busy && n < 128) c[n++] = o;
        if (!n) return nullptr;
        if (r.chance(0.3)) return c[n - 1];
        return c[r.below((u32)n)];
    }
    bool gen_op(Rng &r, Task &, Op &op) override {
        if (pool.empty()) return false;
        if ((int)objs.size() >= maxobjs) {
            op.kind = O_DESTROY;
        } else if (objs.empty())
            op.kind = O_BUILD;
        else {
            int tot = 0;
            for (int x : w) tot += x;
            int v = (int)r.below((u32)tot), i = 0;
            while (v >= w[i]) v -= w[i++];
            op.kind = (u8)i;
        }
        switch (op.kind) {
        case O_BUILD: {
            u32 s = r.below((u32)pool.size());
            op.a = pool[s]->id;
            op.bits = r.chance(0.45) ? 0 : ((r.next() & r.next()) & 0xffffffffu) | (r.next() << 32);
            break;
        }
        case O_SET:
            op.a = (i32)r.below(6);
            op.b = (i32)r.below((u32)nvals);
            break;
        case O_CLOCK:
            op.a = r.range(-2000, 100000);
            break;
        case O_SHARED:
            op.a = (i32)r.below(1000);
            op.b = r.range(4, 60);
            op.bits = r.next();
            break;
        default: {
            Obj *o = pick_obj(r);
            if (!o) {
                op.kind = O_SET;
                op.a = (i32)r.below(6);
                op.b = (i32)r.below((u32)nvals);
                break;
            }
            op.a = (i32)o->id;
            if (op.kind == O_CALL) op.b = r.chance(0.06) ? 1 : r.chance(0.05) ? 2 : r.chance(0.1) ? 3 : 0;
            if (op.kind == O_COPY) op.b = r.chance(0.2) ? 1 : 0;
            if (op.kind == O_GAP) { // left alone while other calls are made, about as many as a counter can count
                static constexpr int wraps[] = { 128, 256, 256, 256, 1024, 4096 };
                Obj *other = pick_obj(r);
                op.c = (i32)(other ? other->id : o->id);
                op.b = (r.chance(0.04) && (!other || other->shape->n <= 4) ? 65536 : wraps[r.below(6)]) + r.range(-2, 1);
                op.bits = r.next() >> 16;
            }
            if (op.kind == O_SOAK) {
                op.b = r.chance(0.6) ? 300 : 1100;
                if (o->shape->n <= 5 && r.chance(0.3)) op.b = o->shape->n <= 3 && r.chance(0.2) ? 140000 : 66000;
                op.c = r.chance(0.5) ? -1 : r.range(1, 300);
                if (W.target == 22) {
                    op.b = o->shape->n <= 6 ? 4800 : 1200;
                    op.c = r.chance(0.15) ? -1 : r.chance(0.5) ? 1 : r.range(1, op.b / 240);
                }
                if (r.chance(0.3)) op.bits = r.next() | 1;
                if (W.target == 22 && op.bits && (op.bits >> 12 & 7) == 7 && o->shape->n <= 6) op.b = 10000;
            }
        }
        }
        return true;
    }
    bool gen_mutate(Rng &r, i32 &a, i32 &b) override {
        a = (i32)r.below(6);
        b = (i32)r.below((u32)nvals);
        return true;
    }
    bool gen_nested(Rng &r, i32 &a, i32 &b) override {
        if ((int)objs.size() < maxobjs - 2 && r.chance(0.08)) {
            const Shape *s = pool[r.below((u32)pool.size())];
            a = s->id;
            b = NST_BUILD;
            return true;
        }
        Obj *o = pick_obj(r);
        if (!o) return false;
        a = (i32)o->id;
        b = r.chance(0.75) ? NST_CALL : r.chance(0.3) ? NST_DESTROY : (int)objs.size() < maxobjs - 2 ? NST_COPY : NST_CALL;
        return true;
    }
    bool gen_cascade(Rng &r, i32 &a, i32 &b) override {
        if (objs.empty()) return false;
        a = (i32)objs[r.below((u32)objs.size())]->id;
        b = NST_CALL;
        return true;
    }
    void mutate(i32 c, i32 v) override { set_cell(c, v); }
    void set_cell(int c, int v) {
        c &= 7;
        if (cells[c] != v) {
            cells[c] = v;
            cellver++;
            if (active_calls) probe(2);
        }
    }
    // ---------------------------------------------------------------- functions computed by the user's code
    static int fkey(const Shape &s, int def, const int *k, int n) {
        int D = s.nodes[def].D;
        u64 sel = mix(W.knob, (u64)(s.id * 64 + def), 0xf) % 8;
        int mod = D;
        if (sel == 0)
            mod = W.target == 1 ? 2 : 1;
        else if (sel <= 2)
            mod = 2;
        if (mod > D) mod = D;
        u64 h = mix(W.knob, (u64)(s.id * 64 + def));
        for (int i = 0; i < n; i++) h = mix(h, (u64)(k[i] + 100));
        int base = (int)(mix(W.knob, (u64)def, 3) % (u64)D);
        return (int)((h % (u64)mod + (u64)base) % (u64)D);
    }
    int srckey(const Shape &s, int def) const {
        int D = s.nodes[def].D;
        return (int)((u64)(cells[s.nodes[def].cell & 7] + (int)(mix(W.knob, (u64)(s.id * 64 + def), 5) % 97)) % (u64)D);
    }
    // ---------------------------------------------------------------- frames
    Frame *push(Task &t, Obj *o) {
        Frame *f;
        if (frames_free.empty())
            f = new Frame;
        else {
            f = frames_free.back();
            frames_free.pop_back();
        }
        f->o = o;
        f->fault = false;
        f->ex = ExId{};
        f->evs.clear();
        memset(f->eq, 0, sizeof f->eq);
        f->prev = (Frame *)t.frame;
        f->depth = f->prev ? f->prev->depth + 1 : 0;
        f->cellver0 = cellver;
        t.frame = f;
        return f;
    }
    void pop(Task &t, Frame *f) {
        t.frame = f->prev;
        frames_free.push_back(f);
    }
    void on_fault(Task &t, PK k, int node) override {
        Frame *f = (Frame *)t.frame;
        if (!f) return;
        f->fault = true;
        f->fpk = k;
        f->fnode = node;
        f->ex = t.run.ex;
        if (k == PK_EQ || k == PK_ASSIGN || k == PK_COPY) probe(13);
        if (k == PK_FN_IN || k == PK_FN_OUT) probe(15);
    }
    void nested(Task &t, i32 id, i32 what, PK k, int node) override {
        if (what != NST_CALL) { // lazy functions are built, copied and destroyed by user code that a call runs
            Op op{};
            op.id = (1u << 20) + (t.run.op.id << 6 | (t.run.cb & 63));
            op.a = id;
            op.kind = what == NST_BUILD ? O_BUILD : what == NST_COPY ? O_COPY : O_DESTROY;
            op.bits = mix(W.knob, op.id) & mix(W.knob, op.id, 3);
            probe(20);
            exec(t, op);
            return;
        }
        Obj *o = find((u32)id);
        if (!o || o->busy) return;
        probe(10);
        Frame *outer = (Frame *)t.frame;
        std::exception_ptr ep;
        do_call(t, *o, &ep);
        if (ep) {
            probe(11);
            if (outer) {
                outer->fault = true;
                outer->fpk = k;
                outer->fnode = node;
                outer->ex = t.run.ex;
            }
            std::rethrow_exception(ep);
        }
    }
    // ---------------------------------------------------------------- lazy functions shared by reference
    static int graph_value(const GraphLog &g, int fn, int *args, int &n) { // what it yields for the current inputs
        int x[3], m;
        auto in = [&](int f) { return graph_value(g, f, x, m); };
        auto src = [&](int i) { return g.cells[i] % g.sd[i]; };
        switch (fn) {
        case 0: n = 2, args[0] = src(0), args[1] = src(1); break;
        case 1: n = 2, args[0] = in(0), args[1] = src(2); break;
        case 2: n = 2, args[0] = 1, args[1] = in(0); break;
        case 3: n = 3, args[0] = in(1), args[1] = in(0), args[2] = in(2); break;
        case 4: n = 2, args[0] = in(0), args[1] = 0; break;
        default: n = 1, args[0] = src(0); return 0;
        }
        return graph_key(fn, g.fn[fn].D, args, n);
    }
    void shared(Task &t, const Op &op) {
        probe(36);
        Frame *f = push(t, nullptr);
        AnyGraph *g = nullptr;
        try {
            g = graphs()[(size_t)op.a % graphs().size()]();
        } catch (...) {
        }
        pop(t, f);
        if (!g) return;
        static constexpr u8 below[7] = { 0x01, 0x03, 0x05, 0x0f, 0x31, 0x20, 0x03 }; // which functions a call brings up to date
        static constexpr u8 asks[7][3] = { { 1, 1, 0 }, { 1, 1, 1 }, { 1, 1, 0 }, { 3, 3, 1 }, { 2, 1, 0 }, { 1, 0, 0 }, { 1, 1, 1 } };
        static const char *const nm[7] = { "s", "a", "b", "c", "d", "v", "the copy of a" };
        GraphLog &l = g->log;
        const int fails = (int)(mix(op.bits, 1) % 4); // 0, 1: none
        bool failed = false, ever = false;
        for (int i = 0; i < op.b && !W.stop; i++) {
            const u64 x = mix(op.bits, i, 3);
            if (x % 5 < 2) {
                l.cells[x / 5 % GSRC] = (int)(x >> 20) % 3 & 3;
                continue;
            }
            if (x % 5 == 2 && x / 5 % 8 == 0) {
                Frame *c = push(t, nullptr);
                try {
                    g->copy();
                } catch (...) {
                }
                pop(t, c);
                continue;
            }
            const int which = (int)(x / 40 % 7);
            if (fails > 1 && x / 400 % (u64)(2 * fails) == 0) {
                OpRun &r = t.run;
                r.acts.clear();
                r.next = 0;
                r.armed = r.fault_fired = false;
                r.acts.push_back({ op.id, r.cb + 1 + (u32)(x / 4000 % 16), AK_FAULT, (i32)(x / 80000 % EX_N), 0 });
            }
            for (auto &s : l.src) s = 0;
            for (auto &fn : l.fn) fn.runs = 0, fn.needless = fn.altered = false;
            Frame *c = push(t, nullptr);
            active_calls++;
            W.steps = 0;
            SH->st.calls++;
            l.calling = true;
            bool ok = false;
            int key = -99;
            ExId got;
            const int h0 = tl_harness;
            try {
                key = g->call(which);
                ok = true;
            } catch (...) {
                got = current_exception_id();
            }
            tl_harness = h0;
            l.calling = false;
            active_calls--;
            t.frame = c->prev;
            fold(mix(ok, (u64)(u32)key, (u64)got.kind, got.id));
            if (!W.stop) {
                const u32 after = failed ? P(6) : 0, voids = P(12);
                if (!g->own()) violate(P(1) | P(9), "copy-ran", "a call of %s ran a copy of a function or dependency that was given by reference", nm[which]);
                if (ok && c->fault) violate(P(5) | P(9), "swallowed", "a failure (%s) did not reach the caller of %s, which shares lazy functions by reference", pk_name[c->fpk], nm[which]);
                if (!ok && !c->fault) violate(P(5) | after | P(9), "spurious-exception", "a call of %s in which nothing failed ended with an exception", nm[which]);
                if (!ok && c->fault && !(got == c->ex)) violate(P(5), "other-exception", "the caller of %s received another exception than the one thrown (%s)", nm[which], pk_name[c->fpk]);
                if (!ok) {
                    probe(37);
                    SH->st.failed_calls++;
                    failed = ever = true;
                } else {
                    if (failed) SH->st.recoveries++;
                    failed = false;
                    int args[3], n;
                    const int want = graph_value(l, which == 6 ? 1 : which, args, n);
                    for (int k = 0; k < GFN; k++) {
                        const auto &fn = l.fn[k];
                        if (!(below[which] >> k & 1)) {
                            if (fn.runs) violate(P(1) | P(2) | P(9), "foreign-run", "a call of %s ran %s, which it does not depend on", nm[which], nm[k]);
                            continue;
                        }
                        if (fn.altered) violate(P(1) | P(9) | after, "altered-value", "an argument of %s is not a value its input ever had", nm[k]);
                        if (fn.needless && !ever && !(k == 1 && g->copied())) violate(P(2) | P(9) | (k == 5 ? voids : 0), "needless-run", "%s, shared by reference, ran again although none of its inputs changed", nm[k]);
                        if (k == 1 && g->copied()) continue; // two of them keep results
                        graph_value(l, k, args, n);
                        bool same = fn.n == n;
                        for (int j = 0; j < n && same; j++) same = fn.last[j] == args[j];
                        if (!same) violate(P(9) | (k == 5 ? voids : 0), "missing-run", "%s was not brought up to date by a call of %s, which uses it by reference", nm[k], nm[which]);
                    }
                    for (int k = 0; k < GSRC; k++)
                        if (l.src[k] != asks[which][k])
                            violate(P(4) | P(9), "sampling", "dependency function %d was invoked %d times instead of %d in one call of %s, which shares lazy functions by reference", k, l.src[k], asks[which][k], nm[which]);
                    if (key != want) violate(P(1) | P(9) | after, "stale-result", "the call of %s returned value %d instead of %d, the value for the current inputs of what it shares by reference", nm[which], key, want);
                }
            }
            frames_free.push_back(c);
        }
        if (W.stop) return; // state is suspect: let it go
        f = push(t, nullptr);
        {
            Lib lib;
            delete g;
        }
        pop(t, f);
    }
    // ---------------------------------------------------------------- calling
    bool do_call(Task &t, Obj &o, std::exception_ptr *out = nullptr) {
        if (active_calls) probe(9);
        Frame *f = push(t, &o);
        if (f->depth > 24) probe(35);
        o.busy = true;
        active_calls++;
        W.steps = 0;
        SH->st.calls++;
        if (o.last_task >= 0 && o.last_task != t.id) probe(8);
        o.last_task = t.id;
        bool ok = false;
        int key = -99;
        ExId got;
        int h0 = tl_harness;
        try {
            key = o.h->call();
            ok = true;
        } catch (...) {
            got = current_exception_id();
            if (out) *out = std::current_exception();
        }
        tl_harness = h0;
        active_calls--;
        o.busy = false;
        t.frame = f->prev;
        fold(mix(ok, (u64)(u32)key, (u64)got.kind, got.id));
        if (!W.stop) verify(o, *f, ok, key, got);
        frames_free.push_back(f);
        return ok;
    }
    static const char *nname(const Shape &s, int node, char *b) {
        sprintf(b, "%s node %d (%s)", s.nodes[node].is_void ? "void" : "", node, s.text);
        return b;
    }
    void verify(Obj &o, Frame &f, bool ok, int key, const ExId &got) {
        const Shape &s = *o.shape;
        const NodeDesc *nd = s.nodes;
        const u32 after_fail = o.failed_since_ok ? P(6) : 0;
        const u32 ever = o.failed_ever ? P(7) : 0;
        u8 in[MAXN] = {};
        u8 np[MAXN] = {};
        u16 cf[MAXN] = {};
        int evi[MAXN];
        in[o.root] = 1;
        for (int p = o.root; p >= 0; p--)
            if (in[p])
                for (int j = 0; j < nd[p].nch; j++) in[nd[p].ch[j]] = 1;
        for (int p = 0; p <= o.root; p++)
            if (in[p]) np[nd[p].def]++;
        auto voidish = [&](int p) -> u32 {
            if (nd[p].is_void) return P(12);
            for (int j = 0; j < nd[p].nch; j++)
                if (nd[nd[p].ch[j]].is_void) return P(12);
            return 0;
        };
        bool foreign = false;
        for (size_t i = 0; i < f.evs.size(); i++) {
            Ev &e = f.evs[i];
            if (!np[e.node]) {
                foreign = true;
                continue;
            }
            cf[e.node]++;
            evi[e.node] = (int)i;
        }
        if (foreign) violate(P(1) | P(8) | P(9), "foreign-run", "a call ran a function that does not belong to the called lazy function (%s)", s.text);
        // counters inside the callables
        for (Ev &e : f.evs) {
            if (!np[e.node] || np[e.node] > 1 || e.ctr < 0) continue;
            int place = -1;
            for (int p = 0; p <= o.root; p++)
                if (in[p] && nd[p].def == e.node) place = p;
            NodeState &st = o.st[place];
            if (e.ctr != st.ctr + 1)
                violate(P(8) | P(9), "callable-state", "the state inside the callable of node %d was %ld instead of %ld (%s)", e.node, e.ctr, st.ctr + 1, s.text);
            st.ctr = e.ctr;
        }
        // comparisons
        for (int p = 0; p <= o.root; p++)
            if (f.eq[p] > cf[p] && np[p])
                violate(P(3), "comparison", "results of node %d were compared %d times in a call that ran it %d times (%s)", p, f.eq[p], cf[p], s.text);
        // sampling
        for (int p = 0; p <= o.root; p++)
            if (np[p] && nd[p].kind == N_SRC) {
                if (cf[p] > np[p] || (ok && cf[p] < np[p]))
                    violate(P(4) | P(9), "sampling", "dependency function node %d was invoked %d times instead of %d in one call that %s (%s)", p, cf[p], np[p], ok ? "returned" : "failed", s.text);
            }
        // outcome
        if (ok && f.fault) violate(P(5) | P(9), "swallowed", "a failure (%s at node %d) did not reach the caller (%s)", pk_name[f.fpk], f.fnode, s.text);
        if (!ok && !f.fault)
            violate(P(5) | after_fail | P(9), "spurious-exception", "a call in which nothing failed ended with an exception (%s)", s.text);
        if (!ok && f.fault && !(got == f.ex))
            violate(P(5), "other-exception", "the caller received another exception than the one thrown (%s at node %d; %s)", pk_name[f.fpk], f.fnode, s.text);
        if (W.stop) return;

        if (!ok || f.fault) {
            SH->st.failed_calls++;
            if (o.failed_since_ok) probe(24);
            if (f.depth >= 2) probe(26);
            for (Ev &e : f.evs)
                if (e.fn && e.done && np[e.node] == 1) {
                    NodeState &st = o.st[place_of(s, e.node, in, o.root)];
                    if (ever && st.s == S_VALID && same(st.last, e.args, e.n))
                        violate(ever, "rerun-after-failure", "wrapped function node %d ran again with the inputs of its last run (%s)", e.node, s.text);
                }
            after_failure(o, f, in, np, cf);
            o.failed_since_ok = o.failed_ever = true;
            return;
        }

        // freshness and economy
        bool ambiguous = false;
        for (Ev &e : f.evs)
            if (np[e.node] > 1 && !e.fn && e.res != f.evs[evi[e.node]].res) ambiguous = true;
        int val[MAXN] = {};
        bool samples_differ_from_now = false;
        for (int p = 0; p <= o.root && !W.stop; p++) {
            if (!in[p]) continue;
            const NodeDesc &n = nd[p];
            int d = n.def;
            if (n.kind == N_CONST) {
                val[p] = const_key(s.id, d);
            } else if (n.kind == N_SRC) {
                if (cf[d] == 0)
                    val[p] = srckey(s, d);
                else
                    val[p] = f.evs[evi[d]].res;
                if (val[p] != srckey(s, d)) samples_differ_from_now = true;
            } else {
                int a[MAXCH];
                i16 a16[MAXCH];
                for (int j = 0; j < n.nch; j++) a16[j] = (i16)(a[j] = val[n.ch[j]]);
                val[p] = n.is_void ? 0 : fkey(s, d, a, n.nch);
                if (np[d] != 1 || ambiguous) continue;
                NodeState &st = o.st[p];
                bool known = st.s != S_NONE && same(st.last, a16, n.nch);
                bool missing = false; // reported for its own property; others go on with what the code really did
                if (cf[d] > 1)
                    violate(P(2) | P(9) | voidish(p), "run-twice", "wrapped function node %d ran %d times in one call (%s)", p, cf[d], s.text);
                if (cf[d] >= 1) {
                    Ev &e = f.evs[evi[d]];
                    if (e.n != n.nch || !same(e.args, a16, n.nch)) {
                        char b1[80], b2[80];
                        violate(P(1) | P(8) | P(9) | after_fail | voidish(p), "wrong-arguments", "wrapped function node %d received (%s) while its dependencies yielded (%s) in that call (%s)", p, list(e.args, e.n, b1), list(a16, n.nch, b2), s.text);
                    } else if (st.s == S_VALID && known)
                        violate(P(2) | P(8) | P(9) | ever | voidish(p), "needless-run", "wrapped function node %d ran again although none of its inputs changed (%s)", p, s.text);
                    if (n.is_void && st.s != S_NONE) probe(21);
                } else {
                    bool alt = st.s == S_MAYBE && (st.alt_ok == 2 || (st.alt_ok && same(st.alt, a16, n.nch)));
                    missing = !known && !alt;
                    if (missing)
                        violate(P(8) | P(9) | voidish(p), "missing-run", "wrapped function node %d did not run although %s (%s)", p, st.s == S_NONE ? "it had never completed" : "an input changed", s.text);
                    if (st.s == S_VALID && o.failed_since_ok) probe(17);
                    for (int j = 0; j < n.nch; j++) {
                        const NodeDesc &c = nd[n.ch[j]];
                        if (c.kind == N_FN && np[c.def] == 1 && cf[c.def]) {
                            probe(0);
                            if (c.is_void) probe(22);
                            break;
                        }
                    }
                }
                if (missing) {
                    st.s = st.s == S_NONE ? S_NONE : S_MAYBE;
                    st.alt_ok = 2;
                    continue;
                }
                st.s = S_VALID;
                st.alt_ok = 0;
                memcpy(st.last, cf[d] ? f.evs[evi[d]].args : a16, sizeof st.last);
            }
        }
        if (W.stop) return;
        // several places of one lazy: only the number of runs is determined
        bool desync[MAXN] = {};
        for (int d = 0; d <= o.root && !ambiguous; d++) {
            if (np[d] <= 1 || nd[d].kind != N_FN) continue;
            int must = 0, may = 0;
            probe(28);
            for (int p = 0; p <= o.root; p++) {
                if (!in[p] || nd[p].def != d) continue;
                const NodeDesc &n = nd[p];
                i16 a16[MAXCH];
                for (int j = 0; j < n.nch; j++) a16[j] = (i16)val[n.ch[j]];
                NodeState &st = o.st[p];
                bool known = st.s != S_NONE && same(st.last, a16, n.nch);
                bool alt = st.s == S_MAYBE && (st.alt_ok == 2 || (st.alt_ok && same(st.alt, a16, n.nch)));
                if (!known && !alt) must++;
                if (!(st.s == S_VALID && known)) may++;
                for (Ev &e : f.evs)
                    if (e.node == d && !same(e.args, a16, n.nch))
                        violate(P(1) | P(8) | P(9) | after_fail, "wrong-arguments", "wrapped function node %d received stale arguments (%s)", d, s.text);
            }
            desync[d] = cf[d] > may || cf[d] < must;
            if (cf[d] > may)
                violate(P(2) | P(8) | P(9) | ever | voidish(d), "needless-run", "wrapped function node %d, used in %d places, ran %d times although only %d saw changed inputs (%s)", d, np[d], cf[d], may, s.text);
            if (cf[d] < must)
                violate(P(8) | P(9) | voidish(d), "missing-run", "wrapped function node %d, used in %d places, ran %d times although %d places saw changed inputs (%s)", d, np[d], cf[d], must, s.text);
        }
        for (int p = 0; p <= o.root; p++) {
            if (!in[p] || nd[p].kind != N_FN || np[nd[p].def] <= 1) continue;
            NodeState &st = o.st[p];
            st.s = ambiguous || desync[nd[p].def] ? S_MAYBE : S_VALID;
            st.alt_ok = desync[nd[p].def] ? 2 : 0;
            for (int j = 0; j < nd[p].nch; j++) st.last[j] = (i16)val[nd[p].ch[j]];
        }
        if (ambiguous) { // the places sampled different values: nothing above them is determined
            for (int p = 0; p <= o.root; p++)
                if (in[p] && nd[p].kind == N_FN) {
                    o.st[p].s = S_MAYBE;
                    o.st[p].alt_ok = 2;
                }
        }
        if (!ambiguous && key != val[o.root])
            violate(P(1) | P(8) | P(9) | after_fail | voidish(o.root), "stale-result", "the call returned value %d instead of %d, the value for the inputs seen in that call (%s)", key, val[o.root], s.text);
        if (samples_differ_from_now) probe(3);
        if (o.failed_since_ok) {
            probe(5);
            SH->st.recoveries++;
        }
        u64 ih = 0;
        for (int c : cells) ih = mix(ih, (u64)c);
        if (o.called && ih == o.last_inputs && f.cellver0 != o_ver(o)) probe(1);
        o.last_inputs = ih;
        o_ver(o) = cellver;
        o.called = true;
        o.failed_since_ok = false;
    }
    std::vector<std::pair<Obj *, u32>> vers;
    u32 &o_ver(Obj &o) {
        for (auto &v : vers)
            if (v.first == &o) return v.second;
        vers.push_back({ &o, 0 });
        return vers.back().second;
    }
    static const char *list(const i16 *a, int n, char *b) {
        char *q = b;
        *q = 0;
        for (int i = 0; i < n && i < 10; i++) q += sprintf(q, "%s%d", i ? "," : "", a[i]);
        return b;
    }
    static bool same(const i16 *a, const i16 *b, int n) { return memcmp(a, b, sizeof(i16) * (size_t)n) == 0; }
    static int place_of(const Shape &s, int def, const u8 *in, int root) {
        for (int p = 0; p <= root; p++)
            if (in[p] && s.nodes[p].def == def) return p;
        return def;
    }
    void after_failure(Obj &o, Frame &f, const u8 *in, const u8 *np, const u16 *cf) {
        const Shape &s = *o.shape;
        const NodeDesc *nd = s.nodes;
        bool dups = false;
        for (int p = 0; p <= o.root; p++)
            if (np[p] > 1) dups = true;
        bool user = f.fpk <= PK_SRC_OUT;
        u8 dep[MAXN] = {}; // depends on the failing function
        u8 safe[MAXN] = {};
        if (user && !dups) {
            for (int p = 0; p <= o.root; p++) {
                if (nd[p].def == f.fnode) dep[p] = 1;
                for (int j = 0; j < nd[p].nch; j++)
                    if (dep[nd[p].ch[j]]) dep[p] = 1;
            }
        } else
            for (int p = 0; p <= o.root; p++) dep[p] = 1;
        // whatever was needed to enter a wrapped function had been completed and delivered
        if (!dups)
            for (int p = o.root; p >= 0; p--) {
                if (!in[p] || nd[p].kind != N_FN) continue;
                if (safe[p] || cf[nd[p].def])
                    for (int j = 0; j < nd[p].nch; j++) safe[nd[p].ch[j]] = 1;
            }
        for (int p = 0; p <= o.root; p++) {
            if (!in[p] || nd[p].kind != N_FN) continue;
            NodeState &st = o.st[p];
            const Ev *done = nullptr;
            if (np[nd[p].def] == 1)
                for (Ev &e : f.evs)
                    if (e.node == nd[p].def && e.done) done = &e;
            if (!dep[p] || safe[p]) {
                if (done) {
                    st.s = S_VALID;
                    st.alt_ok = 0;
                    memcpy(st.last, done->args, sizeof st.last);
                }
                if (done && !dep[p]) probe(14);
                continue;
            }
            if (dups) {
                st.s = S_MAYBE;
                st.alt_ok = 2;
                continue;
            }
            if (done) {
                if (st.s != S_NONE) {
                    memcpy(st.alt, st.last, sizeof st.alt);
                    st.alt_ok = 1;
                    probe(4);
                }
                memcpy(st.last, done->args, sizeof st.last);
                st.s = S_MAYBE;
            } else if (st.s != S_NONE)
                st.s = S_MAYBE;
        }
        if (dups)
            for (int p = 0; p <= o.root; p++)
                if (in[p] && nd[p].kind == N_FN) o.st[p].alt_ok = 2;
    }
    // ---------------------------------------------------------------- ops
    struct InUnwind {
        Lz &l;
        Task &t;
        Obj &o;
        ~InUnwind() { l.do_call(t, o); }
    };
    Obj *add(u32 id, const Shape *s, int root, AnyLazy *h, const NodeState *st) {
        Obj *o = new Obj;
        o->id = id;
        o->shape = s;
        o->root = root;
        o->h = h;
        o->family = id;
        memcpy((void *)o->st, (const void *)st, sizeof o->st);
        objs.push_back(o);
        return o;
    }
    void remove(Obj *o) {
        for (size_t i = 0; i < objs.size(); i++)
            if (objs[i] == o) {
                objs.erase(objs.begin() + (long)i);
                break;
            }
        for (size_t i = 0; i < vers.size(); i++)
            if (vers[i].first == o) {
                vers.erase(vers.begin() + (long)i);
                break;
            }
        delete o;
    }
    void destroy(Task &t, Obj *o) {
        for (Obj *x : objs)
            if (x != o && x->family == o->family) {
                probe(25);
                break;
            }
        o->busy = true;
        Frame *f = push(t, nullptr);
        {
            Lib lib;
            delete o->h;
        }
        pop(t, f);
        remove(o);
    }
    // calls and says how deep the stack was at the deepest function entered
    __attribute__((noinline)) long stack_depth(Task &t, Obj &o, const char *here) {
        do_call(t, o);
        return W.stack_lo < here ? (long)(here - W.stack_lo) : 0;
    }
    void exec(Task &t, Op &op) override;
    void finish() override {
        while (!objs.empty()) {
            Obj *o = objs.back();
            if (W.stop) { // state is suspect: let it go
                remove(o);
                continue;
            }
            destroy(*tl_task, o);
        }
        for (Frame *f : frames_free) delete f;
        frames_free.clear();
        if (W.stop) return;
        if (W.live_vals != 0)
            violate(P(10), "leak", "%d values %s after every lazy function was destroyed", W.live_vals, W.live_vals > 0 ? "still alive" : "destroyed too often");
        if (W.live_ex != 0)
            violate(P(10), "leak", "%d exceptions that reached the caller long ago still alive after every lazy function was destroyed", W.live_ex);
        if (W.lib_allocs != 0)
            violate(P(10), "memory-leak", "%ld memory blocks not released after every lazy function was destroyed", W.lib_allocs);
        if (long n = Tr<SPtr>::extra_owners())
            violate(P(10), "leak", "%ld shared owners left after every lazy function was destroyed", n);
    }
};

struct Cost { // the most and the least that was held, or spent on a call, over a stretch of calls
    static constexpr int N = 6;
    long n = 0, v[N]{}, lo[N] = { LONG_MAX, LONG_MAX, LONG_MAX, LONG_MAX, LONG_MAX, LONG_MAX };
    template<class... A>
    void take(A... a) {
        int i = 0;
        n++;
        ((v[i] = v[i] > (long)a ? v[i] : (long)a, lo[i] = lo[i] < (long)a ? lo[i] : (long)a, i++), ...);
    }
    void judge(const Cost &early) const {
        static const char *const what[N] = { "values held", "memory blocks held", "bytes held", "callbacks per call", "bytes of stack per call", "exceptions held" };
        static const long slack[N] = { 64, 64, 8192, 256, 16384, 8 };
        // inputs recur, so what the cheapest call of the second half holds or needs was already there early on
        static const long slack_lo[N] = { 8, 8, 256, 24, 2048, 4 };
        for (int i = 0; i < N; i++)
            if (n && early.n && (v[i] > 2 * early.v[i] + slack[i] || lo[i] > early.v[i] + slack_lo[i])) violate(P(22), "growth", "after many calls with recurring inputs: %ld to %ld %s, earlier %ld at most", lo[i], v[i], what[i], early.v[i]);
    }
};

struct BuildCtx::Impl {
    Task &t;
    u32 opid;
    NodeState st[MAXN];
    u8 warm = 0;
};
bool BuildCtx::wants(int node) { return bits >> (node & 31) & 1; }
int BuildCtx::calls(int node) { return (int)("\0\1\1\2"[mix(bits >> 32, (u64)node) & 3]); }
int BuildCtx::keep(int node) { return (int)("\0\0\1\2"[mix(bits >> 32, (u64)node) >> 2 & 3]); }
void BuildCtx::sub_begin(int) {}
void BuildCtx::sub_call(int node, AnyLazy &h) {
    Obj tmp;
    tmp.id = 0;
    tmp.shape = shape;
    tmp.root = node;
    tmp.h = &h;
    memcpy((void *)tmp.st, (const void *)impl->st, sizeof tmp.st);
    L->do_call(impl->t, tmp);
    memcpy((void *)impl->st, (const void *)tmp.st, sizeof tmp.st);
    for (size_t i = 0; i < L->vers.size(); i++)
        if (L->vers[i].first == &tmp) L->vers.erase(L->vers.begin() + (long)i--);
    if (!impl->warm) probe(16);
    impl->warm = 1;
}
void BuildCtx::sub_keep(int node, AnyLazy *a) {
    Obj *o = L->add(impl->opid * 64 + (u32)node + 1, shape, node, a, impl->st);
    o->family = impl->opid * 64;
    o->derived = true;
}
void BuildCtx::dup(int from, int to) { impl->st[to] = impl->st[from]; }

void Lz::exec(Task &t, Op &op) {
    switch (op.kind) {
    case O_BUILD: {
        const Shape *s = nullptr;
        for (const Shape *x : shapes())
            if (x->id == op.a) s = x;
        if (!s) return;
        BuildCtx::Impl im{ t, op.id, {} };
        BuildCtx c{ s, op.bits, &im };
        AnyLazy *h = nullptr;
        Frame *f = push(t, nullptr);
        int h0 = tl_harness;
        try {
            Lib lib;
            h = s->build(c);
        } catch (...) {
            probe(23);
            h = nullptr;
        }
        tl_harness = h0;
        pop(t, f);
        if (h) {
            Obj *o = add(op.id * 64, s, s->n - 1, h, im.st);
            o->derived = im.warm;
        }
        break;
    }
    case O_CALL: {
        Obj *o = find((u32)op.a);
        if (!o || o->busy) return;
        if (op.b == 1) {
            probe(12);
            try {
                InUnwind u{ *this, t, *o };
                throw 0;
            } catch (int) {
            }
        } else if (op.b == 2) {
            probe(33);
            try {
                throw 0;
            } catch (int) {
                do_call(t, *o);
            }
        } else if (op.b == 3) {
            std::exception_ptr failure;
            if (do_call(t, *o, &failure) || !failure || W.stop) return;
            try {
                std::rethrow_exception(failure);
            } catch (...) {
                failure = nullptr;
                o = find((u32)op.a);
                if (!o || o->busy) return;
                probe(34);
                do_call(t, *o);
            }
        } else
            do_call(t, *o);
        break;
    }
    case O_SOAK: {
        Obj *o = find((u32)op.a);
        if (!o || o->busy) return;
        probe(18);
        if (op.b >= 65536) probe(19);
        int v0 = cells[0], v1 = (v0 + 1) % nvals;
        if (op.bits) probe(30);
        static constexpr u32 bursts[8] = { 0, 0, 0, 0, 5, 20, 70, 300 }; // failures in a row
        const u32 burst = op.bits ? bursts[op.bits >> 12 & 7] : 0;
        // the first eighth must have seen what recurs
        const bool watch = W.tasks.size() == 1 && W.nest == 0 && (op.c < 0 || op.c <= op.b / 240) && (burst + 3) * 32 <= (u32)op.b;
        if (watch) probe(31);
        Cost early, late;
        const u32 every = op.bits ? 2 + (u32)(op.bits >> 8 & 7) : 0; // recurring failures
        for (int i = 0; i < op.b && !W.stop; i++) {
            if (op.c > 0 && i % op.c == op.c - 1) set_cell((i / op.c / 2) % 6, (i / op.c) & 1 ? v0 : v1);
            o = find((u32)op.a);
            if (!o || o->busy) break;
            if (op.bits) {
                OpRun &r = t.run;
                r.acts.clear();
                r.next = 0;
                r.armed = r.fault_fired = false;
                const bool fails = burst ? (u32)i % (burst + 3) < burst : (u32)i % every == every - 1;
                if (fails) r.acts.push_back({ op.id, r.cb + 1 + (u32)(mix(op.bits, i) % (burst ? 3 : 40)), AK_FAULT, (i32)(mix(op.bits, i, 7) % EX_N), 0 });
            }
            W.stack_lo = (const char *)-1;
            const u32 cb0 = t.run.cb;
            if (W.target == 22) {
                char here;
                const long depth = stack_depth(t, *o, &here);
                if (watch && (i < op.b / 8 || i >= op.b / 2)) (i < op.b / 8 ? early : late).take(W.live_vals, W.lib_allocs, W.lib_bytes, (long)(t.run.cb - cb0), depth, W.live_ex);
            } else
                do_call(t, *o);
        }
        if (watch && W.target == 22 && !W.stop) late.judge(early);
        break;
    }
    case O_GAP: {
        Obj *o = find((u32)op.a), *b = find((u32)op.c);
        if (!o || o->busy) return;
        do_call(t, *o);
        for (int i = 0; i < op.b && !W.stop; i++) {
            b = find((u32)op.c);
            if (!b || b->busy) break;
            do_call(t, *b);
        }
        for (int i = 0; i < 6; i++)
            if (mix(op.bits, i) & 1) set_cell(i, (int)(mix(op.bits, i, 1) % (u64)nvals));
        o = find((u32)op.a);
        if (!o || o->busy || W.stop) return;
        probe(32);
        do_call(t, *o);
        break;
    }
    case O_SET: set_cell(op.a, op.b); break;
    case O_COPY:
    case O_MOVE: {
        Obj *o = find((u32)op.a);
        if (!o || o->busy) return;
        o->busy = true;
        bool warm = o->called;
        Frame *f = push(t, nullptr);
        AnyLazy *n = nullptr;
        int h0 = tl_harness;
        try {
            n = op.kind == O_MOVE ? o->h->move_out() : op.b ? o->h->erase() : o->h->clone();
        } catch (...) {
            probe(23);
        }
        tl_harness = h0;
        pop(t, f);
        o->busy = false;
        if (n) {
            Obj *c = add(op.id * 64, o->shape, o->root, n, o->st);
            c->family = o->family;
            c->derived = true;
            o->derived = true;
            c->failed_since_ok = o->failed_since_ok;
            c->failed_ever = o->failed_ever;
            c->called = o->called;
            if (warm) probe(op.kind == O_MOVE ? 29 : 6);
            if (o->failed_since_ok) probe(7);
        }
        if (op.kind == O_MOVE) destroy(t, o);
        break;
    }
    case O_DESTROY: {
        Obj *o = find((u32)op.a);
        if (!o || o->busy) return;
        destroy(t, o);
        break;
    }
    case O_SHARED:
        if (!graphs().empty()) shared(t, op);
        break;
    case O_CLOCK:
        probe(27);
        W.clock_ns += (i64)op.a * 1000000000ll;
        SH->st.simtime_us += (u64)(op.a < 0 ? -op.a : op.a) * 1000000ull;
        break;
    }
}

// ---------------------------------------------------------------------- callbacks
static Frame *cur() { return tl_task ? (Frame *)tl_task->frame : nullptr; }
static Ev *enter(int shape, int node, long ctr, bool fn) {
    Frame *f = cur();
    if (!f || !f->o) {
        violate(P(11), "ran-outside-call", "%s node %d of shape %d ran although no lazy function was being called", fn ? "wrapped function" : "dependency", node, shape);
        return nullptr;
    }
    if (f->o->shape->id != shape) {
        violate(P(1) | P(8) | P(9), "foreign-run", "a call ran a function of another lazy function");
        return nullptr;
    }
    if (f->fault)
        violate(P(5), "ran-after-failure", "%s node %d ran after the call had failed (%s)", fn ? "wrapped function" : "dependency", node, f->o->shape->text);
    if (f->evs.size() > 400) {
        violate(P(2) | P(4) | P(9), "runaway", "a single call ran more than 400 functions");
        return nullptr;
    }
    char here;
    if (&here < W.stack_lo) W.stack_lo = &here;
    f->evs.push_back(Ev{ (i16)node, fn, 0, 0, 0, ctr, {} });
    return &f->evs.back();
}
int on_fn(int shape, int node, long ctr, const int *keys, int n, u32 &rep) {
    Frame *f = cur();
    Ev *e = enter(shape, node, ctr, true);
    const Shape *s = nullptr;
    if (f && f->o && f->o->shape->id == shape)
        s = f->o->shape;
    else
        for (const Shape *x : shapes())
            if (x->id == shape) s = x;
    int k = s->nodes[node].is_void ? 0 : Lz::fkey(*s, node, keys, n);
    rep = (u32)mix(W.knob, ++L->serial);
    if (e) {
        e->n = (u8)n;
        for (int i = 0; i < n && i < MAXCH; i++) e->args[i] = (i16)keys[i];
        e->res = (i16)k;
        fold(mix((u64)node, k));
        for (int i = 0; i < n && i < MAXCH; i++)
            if (keys[i] < 0)
                violate(P(1) | P(8) | P(9) | (f->o->failed_since_ok ? P(6) : 0), "altered-value", "argument %d of wrapped function node %d is not a value any of its inputs ever had (%s)", i, node, s->text);
    }
    point_forced(PK_FN_IN, node);
    return k;
}
static void leave(int node, bool fn) {
    point_forced(fn ? PK_FN_OUT : PK_SRC_OUT, node);
    Frame *f = cur();
    if (!f || !f->o) return;
    for (size_t i = f->evs.size(); i-- > 0;)
        if (f->evs[i].node == node && f->evs[i].fn == fn && !f->evs[i].done) {
            f->evs[i].done = 1;
            break;
        }
}
void fn_out(int node) { leave(node, true); }
void src_out(int node) { leave(node, false); }
int on_src(int shape, int node, long ctr, u32 &rep) {
    Frame *f = cur();
    size_t before = f ? f->evs.size() : 0;
    bool have = enter(shape, node, ctr, false) != nullptr;
    point_forced(PK_SRC_IN, node);
    const Shape *s = nullptr;
    for (const Shape *x : shapes())
        if (x->id == shape) s = x;
    int k = L->srckey(*s, node);
    rep = (u32)mix(W.knob, ++L->serial);
    if (have) f->evs[before].res = (i16)k;
    fold(mix((u64)node, 0x55, k));
    return k;
}
void capture_broken(int node) { violate(P(1) | P(8) | P(10), "capture", "a value captured by the callable of node %d changed", node); }
int const_key(int shape, int node) {
    const Shape *s = nullptr;
    for (const Shape *x : shapes())
        if (x->id == shape) s = x;
    return (int)(mix(W.knob, (u64)(shape * 64 + node), 9) % (u64)s->nodes[node].D);
}
int task_id() { return tl_task ? tl_task->id : 7; }
std::vector<MakeGraph> &graphs() {
    static std::vector<MakeGraph> v;
    return v;
}
int graph_key(int fn, int D, const int *keys, int n) {
    u64 h = mix(W.knob, (u64)fn, 0x9a);
    for (int i = 0; i < n; i++) h = mix(h, (u64)(u32)keys[i]);
    return (int)(h % (u64)D);
}
static void eq_hook(int a, int b) {
    Frame *f = cur();
    if (!f || !f->o) return;
    if (a >= 0 && a < MAXN) f->eq[a]++;
    if (b != a && b >= 0 && b < MAXN) f->eq[b]++;
}

} // namespace sim::lz

namespace sim {
Scenario *make_scenario(int) {
    on_eq = lz::eq_hook;
    return lz::L = new lz::Lz;
}
} // namespace sim

namespace sim {
// Some violations only break a property when the shortest history that shows them has
// what the property speaks of (several objects, copies, failures).
bool acceptable(int prop, const Shared &p, std::string &why) {
    if (prop != 8 && prop != 9) return true;
    int builds = 0, copies = 0, acts = 0, tasks = 0;
    u64 bits = 0;
    for (u32 e = 0; e < p.nep; e++) {
        for (u32 i = p.ep[e].op0; i < p.ep[e].op1; i++) {
            int k = p.ops[i].kind;
            if (k == lz::O_BUILD) builds++, bits |= p.ops[i].bits & 0xffffffffu;
            if (k == lz::O_COPY || k == lz::O_MOVE) copies++;
            if (p.ops[i].task > 0) tasks++;
        }
        for (u32 i = p.ep[e].act0; i < p.ep[e].act1; i++)
            if (p.acts[i].kind != AK_FAULT && p.acts[i].kind != AK_MUTATE) acts++;
    }
    if (prop == 8) {
        if (!strcmp(p.cls, "callable-state") || copies || bits || builds > 1) return true;
        why = "needs neither a copy nor a second object";
        return false;
    }
    if (builds + copies > 1 || bits || acts || tasks) return true;
    why = "needs no second lazy function";
    return false;
}
} // namespace sim
