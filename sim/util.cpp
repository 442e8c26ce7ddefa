// Slots, operations and shared oracles of the utility-layer simulations.
#include "util.h"

namespace sim {
const char *probe_names[NPROBE] = {
    "build, copy or move failed", "object used again after a failure", "callable failed before changing anything", "callable failed after changing state or arguments",
    "nested use of another object", "failure of a nested use passed through", "object used on another thread than before", "use while another task's use is suspended",
    "copy used after its original changed", "use while unwinding or from a handler", "failure in a copy, move, assignment or allocation", "object moved while in use by the program",
    "value reached through a reference", "recursion depth >= 8", "empty element visited", "stopped before the last element", "used through const", "element written", "used as a temporary", "tuple- or pair-valued outcome", "argument received as a temporary and used up", "soak of >= 300 uses", "soak of >= 65536 uses", "soak with recurring failures"
};
const char *op_name(int k) {
    static const char *const n[] = { "new", "use", "copy", "move", "drop", "clock", "use-unwinding", "soak" };
    return k < 8 ? n[k] : "?";
}
} // namespace sim

namespace sim::ut {
enum { O_NEW, O_USE, O_COPY, O_MOVE, O_DROP, O_CLOCK, O_USEUNW, O_SOAK, O_COUNT };
u32 PROP = 0;
struct Entry {
    int prop;
    Case c;
};
static std::vector<Entry> &all() {
    static std::vector<Entry> v;
    return v;
}
Reg::Reg(int prop, const char *name, Make m, int verbs) { all().push_back({ prop, { name, m, verbs } }); }

struct U;
static U *S;

struct U final : Scenario {
    std::vector<UObj *> objs;
    std::vector<int> pool; // case numbers
    std::vector<const Case *> cases;
    int w[O_COUNT]{};
    int maxobjs = 12;
    int active = 0;
    UObj *find(u32 id) {
        for (UObj *o : objs)
            if (o->id == id) return o;
        return nullptr;
    }
    void configure(Rng &r, Knobs &k) override {
        if (cases.empty()) {
            // order of static initialisation across files must not matter
            std::vector<Entry *> es;
            for (auto &e : all())
                if (e.prop == W.target) es.push_back(&e);
            for (size_t i = 1; i < es.size(); i++)
                for (size_t j = i; j > 0 && strcmp(es[j]->c.name, es[j - 1]->c.name) < 0; j--) std::swap(es[j], es[j - 1]);
            for (auto *e : es) cases.push_back(&e->c);
        }
        auto pick = [&](std::initializer_list<double> l) { return l.begin()[r.below((u32)l.size())]; };
        k.ops = r.chance(0.7) ? r.range(4, 20) : r.range(16, 50);
        k.tasks = r.chance(0.35) ? r.range(2, 3) : 1;
        k.p_switch = pick({ 0.1, 0.3, 0.6 });
        k.p_nested = pick({ 0, 0, 0.15, 0.3 });
        k.quarantine = r.chance(0.5);
        k.p_fault = pick({ 0, 0.15, 0.35, 0.6 });
        if (k.p_fault > 0 && r.chance(0.6)) {
            static const PK cl[] = { PK_COPY, PK_MOVE, PK_ASSIGN, PK_ALLOC, PK_CB, PK_CB };
            for (PK c : cl)
                if (r.chance(0.4)) k.fault_classes |= 1u << c;
        }
        k.est_small = true;
        int ww[O_COUNT] = { 12, 60, 9, 5, 4, 1, 3, 0 };
        maxobjs = 12;
        if (r.chance(0.02)) { // a crowd of objects, used by many threads
            maxobjs = r.range(20, 60);
            k.p_cascade = pick({ 0, 0.1, 0.3 });
            k.ops = maxobjs + r.range(40, 120);
            ww[O_NEW] = 60;
            ww[O_COPY] = 20;
            k.tasks = r.chance(0.5) ? r.range(4, 9) : 1;
        } else if (r.chance(0.01)) // few objects, used for long
            k.ops = 500, ww[O_NEW] = ww[O_COPY] = ww[O_MOVE] = ww[O_DROP] = 1;
        if (r.chance(0.006)) ww[O_SOAK] = 5;
        for (int i = 0; i < O_COUNT; i++) w[i] = ww[i];
        if (r.chance(0.3)) w[O_COPY] = 0;
        if (r.chance(0.3)) w[O_NEW] = 40;
        pool.clear();
        int np = r.range(1, 3);
        for (int i = 0; i < np && !cases.empty(); i++) pool.push_back((int)r.below((u32)cases.size()));
    }
    void begin() override {
        objs.clear();
        active = 0;
    }
    UObj *pick_obj(Rng &r) {
        UObj *c[64];
        int n = 0;
        for (UObj *o : objs)
            if (!o->busy && n < 64) c[n++] = o;
        if (!n) return nullptr;
        if (r.chance(0.3)) return c[n - 1];
        return c[r.below((u32)n)];
    }
    bool gen_op(Rng &r, Task &, Op &op) override {
        if (pool.empty()) return false;
        if ((int)objs.size() >= maxobjs)
            op.kind = O_DROP;
        else if (objs.empty())
            op.kind = O_NEW;
        else {
            int tot = 0;
            for (int x : w) tot += x;
            int v = (int)r.below((u32)tot), i = 0;
            while (v >= w[i]) v -= w[i++];
            op.kind = (u8)i;
        }
        if (op.kind == O_CLOCK) {
            op.a = r.range(-2000, 100000);
            return true;
        }
        if (op.kind != O_NEW) {
            UObj *o = pick_obj(r);
            if (!o)
                op.kind = O_NEW;
            else {
                op.a = (i32)o->id;
                op.b = (i32)r.below((u32)cases[(size_t)o->kase]->verbs);
                op.bits = r.next() >> 16;
                if (op.kind == O_SOAK) op.c = r.chance(0.5) ? r.range(300, 600) : r.chance(0.8) ? r.range(1030, 5000) : 66000;
                return true;
            }
        }
        op.a = pool[r.below((u32)pool.size())];
        op.bits = r.next() >> 16;
        return true;
    }
    bool gen_nested(Rng &r, i32 &a, i32 &) override {
        UObj *o = pick_obj(r);
        if (!o) return false;
        a = (i32)o->id;
        return true;
    }
    void on_fault(Task &t, PK k, int) override {
        Frame *f = (Frame *)t.frame;
        if (!f) return;
        f->fault = true;
        f->fpk = k;
        f->ex = t.run.ex;
        if (k != PK_CB) probe(PR_VALFAIL);
    }
    std::exception_ptr *catcher = nullptr;
    void nested(Task &t, i32 id, i32, PK k, int) override {
        UObj *o = find((u32)id);
        if (!o || o->busy) return;
        probe(PR_NESTED);
        Frame *outer = (Frame *)t.frame;
        bool before = t.run.fault_fired;
        use(t, *o, (int)(mix((u64)id, t.run.cb) % (u64)cases[(size_t)o->kase]->verbs), mix(W.knob, (u64)id, t.run.cb) >> 16);
        if (!before && t.run.fault_fired && outer && (t.run.ex.id & 1)) { // the nested failure goes on through the outer call
            probe(PR_NESTFAIL);
            outer->fault = true;
            outer->fpk = k;
            outer->ex = t.run.ex;
            throw_kind(t.run.ex.kind, t.run.ex.id);
        }
    }
    void use(Task &t, UObj &o, int verb, u64 bits) {
        if (active) probe(PR_INTERLEAVED);
        if (o.last_task >= 0 && o.last_task != t.id) probe(PR_HANDOVER);
        if (o.failed) probe(PR_RECOVER);
        o.last_task = t.id;
        o.busy = true;
        active++;
        W.steps = 0;
        SH->st.calls++;
        o.step(verb, bits);
        active--;
        o.busy = false;
        o.used = true;
    }
    void add(UObj *o, u32 id, int kase) {
        o->id = id;
        o->kase = kase;
        objs.push_back(o);
    }
    void drop(UObj *o) {
        o->busy = true;
        for (size_t i = 0; i < objs.size(); i++)
            if (objs[i] == o) {
                objs.erase(objs.begin() + (long)i);
                break;
            }
        Frame *f = push(nullptr);
        {
            Lib lib;
            delete o;
        }
        pop(f);
    }
    struct InUnwind {
        U &u;
        Task &t;
        UObj &o;
        Op &op;
        ~InUnwind() { u.use(t, o, op.b, op.bits); }
    };
    void exec(Task &t, Op &op) override {
        if (op.kind == O_CLOCK) {
            W.clock_ns += (i64)op.a * 1000000000ll;
            SH->st.simtime_us += (u64)(op.a < 0 ? -op.a : op.a) * 1000000ull;
            return;
        }
        if (op.kind == O_NEW) {
            if (op.a < 0 || op.a >= (i32)cases.size()) return;
            UObj *o = cases[(size_t)op.a]->make(op.bits);
            if (o)
                add(o, op.id, op.a);
            else
                probe(PR_COPYFAIL);
            return;
        }
        UObj *o = find((u32)op.a);
        if (!o || o->busy) return;
        int verb = op.b % cases[(size_t)o->kase]->verbs;
        switch (op.kind) {
        case O_USE: use(t, *o, verb, op.bits); break;
        case O_USEUNW:
            probe(PR_UNWIND);
            if (mix(op.bits, 99) & 1) { // from a handler
                try {
                    throw 0;
                } catch (int) {
                    use(t, *o, verb, op.bits);
                }
                break;
            }
            try {
                InUnwind u{ *this, t, *o, op };
                throw 0;
            } catch (int) {
            }
            break;
        case O_SOAK: {
            probe(PR_SOAK);
            if (op.c >= 65536) probe(PR_SOAK64K);
            const bool mixed = mix(op.bits, 1) & 1;
            const u32 every = mix(op.bits, 2) % 3 ? 0 : 2 + (u32)(mix(op.bits, 3) % 6); // recurring failures
            if (every) probe(PR_SOAKFAIL);
            const u32 verbs = (u32)cases[(size_t)o->kase]->verbs, cb0 = t.run.cb;
            for (int i = 0; i < op.c && !W.stop && t.run.cb - cb0 < 1000000; i++) {
                o = find((u32)op.a);
                if (!o || o->busy) break;
                if (every) {
                    OpRun &r = t.run;
                    r.acts.clear();
                    r.next = 0;
                    r.armed = r.fault_fired = false;
                    if ((u32)i % every == every - 1) r.acts.push_back({ op.id, r.cb + 1 + (u32)(mix(op.bits, i) % 12), AK_FAULT, (i32)(mix(op.bits, i, 7) % EX_N), 0 });
                }
                use(t, *o, mixed ? (int)(mix(op.bits, i, 5) % verbs) : verb, mix(op.bits, i, 11) >> 16);
            }
            break;
        }
        case O_COPY:
        case O_MOVE: {
            o->busy = true;
            int kase = o->kase;
            bool mv = op.kind == O_MOVE;
            UObj *c = mv ? o->move_out() : o->clone();
            o->busy = false;
            if (c) {
                add(c, op.id, kase);
                if (o->used) probe(mv ? PR_MOVED : PR_COPYUSED);
            } else if (t.run.fault_fired)
                probe(PR_COPYFAIL);
            if (mv && (c || t.run.fault_fired)) drop(o);
            break;
        }
        case O_DROP: drop(o); break;
        }
    }
    void finish() override {
        // faults have stopped: every object still works
        for (size_t i = 0; i < objs.size() && !W.stop; i++) use(*tl_task, *objs[i], 0, mix(W.knob, i) >> 16);
        while (!objs.empty()) {
            UObj *o = objs.back();
            if (W.stop)
                objs.pop_back(); // state is suspect: let it go
            else
                drop(o);
        }
        if (W.stop) return;
        if (W.live_vals != 0)
            violate(PROP, "leak", "%d values %s after every object was destroyed", W.live_vals, W.live_vals > 0 ? "still alive" : "destroyed too often");
        if (W.live_ex != 0)
            violate(PROP, "leak", "%d exceptions that reached the caller long ago still alive after every object was destroyed", W.live_ex);
        if (W.lib_allocs != 0)
            violate(PROP, "memory-leak", "%ld memory blocks not released after every object was destroyed", W.lib_allocs);
    }
};

Frame *cur() { return tl_task ? (Frame *)tl_task->frame : nullptr; }
Frame *push(UObj *o) {
    Harness h;
    Frame *f = new Frame;
    f->o = o;
    f->prev = (Frame *)tl_task->frame;
    f->depth = f->prev ? f->prev->depth + 1 : 0;
    tl_task->frame = f;
    return f;
}
void pop(Frame *f) {
    Harness h;
    tl_task->frame = f->prev;
    delete f;
}
void settle(Frame &f, bool ok, const ExId &got, const char *what) {
    Harness h;
    fold(mix(ok, (u64)got.kind, got.id));
    if (!ok) {
        SH->st.failed_calls++;
        if (f.o) f.o->failed = true;
    } else if (f.o && f.o->failed) {
        SH->st.recoveries++;
        f.o->failed = false;
    }
    if (W.stop) return;
    if (ok && f.fault) violate(PROP, "swallowed", "a failure (%s) did not reach the caller of %s", pk_name[f.fpk], what);
    if (!ok && !f.fault) violate(PROP, "spurious-exception", "%s ended with an exception although nothing failed", what);
    if (!ok && f.fault && !(got == f.ex)) violate(PROP, "other-exception", "the caller of %s received another exception than the one thrown (%s)", what, pk_name[f.fpk]);
}
void before_cb() {
    Harness h;
    Frame *f = cur();
    if (f && f->fault) violate(PROP, "ran-after-failure", "a callable ran after the operation had failed");
}
void on_call(long st, int cap, const int *keys, const void *const *ads, int n) {
    before_cb();
    Harness h;
    Frame *f = cur();
    if (!f || !f->expecting) {
        violate(PROP, "unexpected-call", "the callable ran although nothing called it");
        return;
    }
    f->entered++;
    if (f->entered > 1) violate(PROP, "called-twice", "the callable ran %d times in one call", f->entered);
    if (n != f->n) {
        violate(PROP, "argument-count", "the callable received %d arguments instead of %d", n, f->n);
        return;
    }
    for (int i = 0; i < n; i++) {
        fold(mix((u64)keys[i], i));
        if (keys[i] != f->exp[i]->key) violate(PROP, "argument", "argument %d of the callable was value %d instead of %d", i, keys[i], f->exp[i]->key);
        if (f->exp[i]->addr) {
            probe(PR_ALIAS);
            if (f->exp[i]->addr != ads[i]) violate(PROP, "alias", "argument %d of the callable, bound by reference, is not the original object", i);
        }
    }
    if (f->fm) {
        if (st != f->fm->st) violate(PROP, "callable-state", "the state inside the callable was %ld instead of %ld", st, f->fm->st);
        if (cap != f->fm->cap) violate(PROP, "callable-capture", "the value inside the callable was %d instead of %d", cap, f->fm->cap);
    }
}
} // namespace sim::ut

namespace sim {
Scenario *make_scenario(int p) {
    ut::PROP = P(p);
    return ut::S = new ut::U;
}
bool acceptable(int, const Shared &, std::string &) { return true; }
} // namespace sim
