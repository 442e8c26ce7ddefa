// C24: functions with void turned into a value and back.
#include "util.h"

#include <functional>
#include <memory>

#include "pigro/regular_void.h"

namespace sim::ut {

template<class R>
struct Work {
    long st = 0;
    HVal cap;
    explicit Work(int c) : cap{ make_key<HVal>(c) } {}
    template<class... A>
    R operator()(A &&...a) {
        Frame *f = cur();
        int keys[] = { key_of(a)..., 0 };
        const void *ads[] = { (const void *)std::addressof(a)..., nullptr };
        on_call(st, key_of(cap), keys, ads, (int)sizeof...(A));
        cb(0);
        st++;
        if (f && f->fm) f->fm->st++;
        cb(1);
        if (f && f->fm && (f->mut >> 16 & 1)) {
            f->fm->cap = (f->fm->cap + 1) % 5;
            put_key(cap, f->fm->cap);
            cb(2);
        }
        if (f && f->mut & 1) (change(a), ...); // parameters are the function's own
        if (f) f->completed++;
        if constexpr (!std::is_void_v<R>) return make_key<R>(f ? f->reskey : 0);
    }
    template<class A>
    static void change(A &a) {
        if constexpr (!std::is_const_v<A>) put_key(a, key_of(a) + 1);
    }
};
enum { F_REG, F_BACK, F_BOTH }; // void to value, value to void, there and back
template<int Form, class R, bool ByRef = false>
struct GObj final : UObj {
    struct Owner { // of a function given by reference
        Work<std::conditional_t<Form == F_BACK && std::is_void_v<R>, pigro::regular_void, R>> w;
        FnModel fm;
        explicit Owner(int c) : w{ c } { fm.cap = c; }
    };
    std::shared_ptr<Owner> owner;
    FnModel &model() { return ByRef ? owner->fm : fm; }
    static auto wrap(int c, [[maybe_unused]] Owner *o) {
        if constexpr (ByRef) {
            if constexpr (Form == F_REG) return pigro::regularized_void(std::ref(o->w));
            else if constexpr (Form == F_BACK) return pigro::unregularized_void(std::ref(o->w));
            else return pigro::unregularized_void(pigro::regularized_void(std::ref(o->w)));
        } else if constexpr (Form == F_REG) return pigro::regularized_void(Work<R>{ c });
        else if constexpr (Form == F_BACK) return pigro::unregularized_void(Work<std::conditional_t<std::is_void_v<R>, pigro::regular_void, R>>{ c });
        else return pigro::unregularized_void(pigro::regularized_void(Work<R>{ c }));
    }
    using B = decltype(wrap(0, nullptr));
    alignas(B) char buf[sizeof(B)];
    bool alive = false;
    FnModel fm;
    B &b() { return *std::launder((B *)buf); }
    static UObj *make(u64 bits) {
        auto *o = new GObj;
        o->fm.cap = (int)(bits % 5);
        if (ByRef) {
            Harness h;
            o->owner = std::make_shared<Owner>(o->fm.cap);
        }
        if (attempt(nullptr, "wrapping a function", [&] { ::new ((void *)o->buf) B(wrap(o->fm.cap, o->owner.get())); o->alive = true; })) return o;
        delete o;
        return nullptr;
    }
    ~GObj() override {
        if (alive) b().~B();
        Harness h;
        owner.reset();
    }
    UObj *dup(bool mv) {
        auto *o = new GObj;
        o->owner = owner;
        o->fm = fm;
        if (attempt(nullptr, mv ? "moving a wrapped function" : "copying a wrapped function", [&] {
                if (mv)
                    ::new ((void *)o->buf) B(std::move(b()));
                else
                    ::new ((void *)o->buf) B(std::as_const(b()));
                o->alive = true;
            }))
            return o;
        delete o;
        return nullptr;
    }
    UObj *clone() override { return dup(false); }
    UObj *move_out() override { return dup(true); }
    template<class F>
    void go(u64 bits, Slot *args, int n, F &&call) {
        Frame *f = push(this);
        for (int i = 0; i < n; i++) f->exp[i] = &args[i];
        f->n = n;
        f->fm = &model();
        f->mut = bits;
        f->expecting = true;
        f->reskey = (int)(bits >> 24 & 3);
        int rk = f->reskey, got = rk, completed = 0;
        bool typed = true;
        struct Keep {
            Frame *f;
            int &c;
            ~Keep() { c = f->completed; }
        };
        const int live0 = W.live_vals;
        bool ok = attempt(
          this, "a wrapped function", [&] {
              Keep k{ f, completed };
              using Got = decltype(call());
              using Want = std::conditional_t<std::is_void_v<R>, std::conditional_t<Form == F_REG, pigro::regular_void, void>, R>;
              typed = std::is_same_v<Got, Want>;
              if constexpr (std::is_void_v<Got>)
                  call();
              else if constexpr (std::is_same_v<Got, pigro::regular_void>) {
                  auto r = call();
                  if (!(r == pigro::regular_void{}) || r != pigro::regular_void{} || r < pigro::regular_void{}) violate(PROP, "void-value", "two void values are unequal");
              } else if constexpr (std::is_same_v<Got, R>) {
                  auto r = call();
                  got = key_of(r);
              } else
                  call();
          },
          f);
        if (W.stop) return;
        if (ByRef && (owner->w.st != owner->fm.st || key_of(owner->w.cap) != owner->fm.cap)) violate(PROP, "state", "a function given by reference is not in the state its owner sees");
        if (!typed) violate(PROP, "result-type", "the result has another type than it should");
        if (ok && completed != 1) violate(PROP, "not-called", "the wrapped function did not run exactly once");
        if (ok && got != rk) violate(PROP, "result", "the caller received %d instead of %d", got, rk);
        if (!ok && !completed) probe(PR_MIDFAIL);
        if (W.tasks.size() == 1 && !W.nest && W.live_vals != live0) violate(PROP, "leak", "%d values were left behind by one call", W.live_vals - live0);
    }
    void step(int verb, u64 bits) override {
        Slot a[3];
        int k0 = (int)(bits >> 32 & 3), k1 = (int)(bits >> 34 & 3), k2 = (int)(bits >> 36 & 3) % 3;
        a[0].key = k0;
        a[1].key = k1;
        a[2].key = k2;
        switch (verb) {
        case 0: go(bits, a, 0, [&] { return b()(); }); break;
        case 1: {
            HVal v = make_key<HVal>(k0);
            go(bits, a, 1, [&] { return b()(v); });
            if (!W.stop && key_of(v) != k0) violate(PROP, "caller-argument", "the caller's object is %d after the call instead of %d", key_of(v), k0);
            break;
        }
        case 2: go(bits, a, 2, [&] { return b()(make_key<HVal>(k0), make_key<std::string>(k1)); }); break;
        case 3: {
            const HTVal v = make_key<HTVal>(k0);
            Val w = make_key<Val>(k1);
            int i = make_key<int>(k2);
            go(bits, a, 3, [&] { return b()(v, w, i); });
            if (!W.stop && (key_of(w) != k1 || key_of(i) != k2)) violate(PROP, "caller-argument", "the caller's objects changed during the call");
            break;
        }
        }
    }
};
// a remembered void: a flag
struct VObj final : UObj {
    using O = std::optional<pigro::regular_void>;
    O o;
    bool want = false;
    static UObj *make(u64 bits) {
        auto *v = new VObj;
        if (bits & 1) {
            v->o = O{ pigro::regular_void{} };
            v->want = true;
        }
        v->check();
        return v;
    }
    UObj *dup(bool mv) {
        auto *v = new VObj;
        if (mv)
            v->o = std::move(o);
        else {
            const O c(o);
            v->o = c;
        }
        v->want = want;
        v->check();
        return v;
    }
    UObj *clone() override { return dup(false); }
    UObj *move_out() override { return dup(true); }
    void check() {
        Harness h;
        const O &c = o;
        if (static_cast<bool>(c) != want) violate(PROP, "flag", "an optional void says %d although it %s", (int)static_cast<bool>(c), want ? "was set" : "was not set");
        const O full{ pigro::regular_void{} }, none{};
        if ((c == full) != want || (c != full) == want || (c == none) == want || (c != none) != want) violate(PROP, "flag", "an optional void compares wrongly");
        if (want && *c != pigro::regular_void{}) violate(PROP, "void-value", "two void values are unequal");
    }
    void step(int verb, u64 bits) override {
        switch (verb) {
        case 0: break;
        case 1:
            o = pigro::regular_void{};
            want = true;
            break;
        case 2:
            o = O{};
            want = false;
            break;
        case 3: {
            O other{ pigro::regular_void{} };
            if (bits & 1) {
                other = o;
                o = other;
            } else {
                o = other;
                want = true;
            }
            break;
        }
        }
        check();
    }
};
#define GCASE(name, ...) static RegIf<wanted(#name), GObj<__VA_ARGS__>> reg_##name{ 24, #name, 4 };
#define VCASE(name, ...) static RegIf<wanted(#name), __VA_ARGS__> reg_##name{ 24, #name, 4 };
GCASE(reg_void, F_REG, void)
GCASE(reg_int, F_REG, int)
GCASE(reg_val, F_REG, HVal)
GCASE(reg_mo, F_REG, MoveOnly)
GCASE(back_void, F_BACK, void)
GCASE(back_val, F_BACK, HVal)
GCASE(back_int, F_BACK, int)
GCASE(both_void, F_BOTH, void)
GCASE(both_val, F_BOTH, HTVal)
GCASE(both_mo, F_BOTH, MoveOnly)
GCASE(both_str, F_BOTH, std::string)
GCASE(reg_ref_void, F_REG, void, true)
GCASE(reg_ref_val, F_REG, HVal, true)
GCASE(back_ref_void, F_BACK, void, true)
GCASE(back_ref_int, F_BACK, int, true)
GCASE(both_ref_void, F_BOTH, void, true)
VCASE(flag, VObj)
} // namespace sim::ut
