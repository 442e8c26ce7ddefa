// C17: recursive callables.
#include "util.h"

#include "pigro/overload.h"
#include "pigro/recursive.h"

namespace sim::ut {

struct Rec { // one running call
    const void *self = nullptr;
    const void *arg = nullptr;
    int depth = 0, max = 0;
    FnModel *m = nullptr;
    bool konst = false, check_self = true;
    int entered = 0;
    int reskey = 0;
    const void *resaddr = nullptr;
    u64 bits = 0;
    int argkey = 2;
    bool arg_lv = true;
};
inline Rec *cur_rec() {
    Frame *f = cur();
    return f ? (Rec *)f->user : nullptr;
}
struct Level { // keeps the depth right when a level fails
    Rec *r;
    explicit Level(Rec *x) : r{ x } { r->depth++; }
    ~Level() { r->depth--; }
};
template<class Self>
void see(Self &self, long st, int cap, const void *arg) {
    before_cb();
    Harness h;
    Rec *r = cur_rec();
    if (!r) {
        violate(PROP, "unexpected-call", "the callable ran although nothing called it");
        return;
    }
    r->entered++;
    if (r->depth >= 8) probe(PR_DEEP);
    fold(mix((u64)r->depth, st, 0x17));
    if (r->check_self && (const void *)std::addressof(self) != r->self) violate(PROP, "self", "at depth %d the callable was handed another object than the one that was called", r->depth);
    if (st != r->m->st) violate(PROP, "state", "at depth %d the callable's state was %ld instead of %ld", r->depth, st, r->m->st);
    if (cap != r->m->cap) violate(PROP, "state", "at depth %d the callable's value was %d instead of %d", r->depth, cap, r->m->cap);
    if (r->arg && arg && arg != r->arg) violate(PROP, "argument", "at depth %d the argument was another object than the caller's", r->depth);
}
// the recursion: how often and how deep is decided by the seed
template<class R, class Self, class A>
R descend(Self &self, long *st, HVal *cap, int n, A &arg) {
    Rec *r = cur_rec();
    Level l{ r };
    cb(r->depth);
    if (st) {
        ++*st;
        r->m->st++;
        cb(100 + r->depth);
        if (r->bits >> (r->depth & 15) & 1) {
            r->m->cap = (r->m->cap + 1) % 5;
            put_key(*cap, r->m->cap);
            cb(200 + r->depth);
        }
    }
    if (n > 0) {
        if (r->bits >> (16 + (n & 7)) & 1 && n < 6) { // twice
            if constexpr (std::is_void_v<R>)
                self(n - 2, arg);
            else
                (void)self(n - 2, arg);
        }
        if constexpr (std::is_void_v<R>) {
            self(n - 1, arg);
            cb(300 + r->depth);
            return;
        } else if constexpr (std::is_reference_v<R>) {
            R x = self(n - 1, arg);
            cb(300 + r->depth);
            return x;
        } else {
            return self(n - 1, arg);
        }
    }
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_reference_v<R>) return *(std::remove_reference_t<R> *)r->resaddr;
    else return make_key<R>(r->reskey);
}
template<class R>
struct Plain {
    long st = 0;
    HVal cap;
    explicit Plain(int c) : cap{ make_key<HVal>(c) } {}
    template<class Self, class A>
    R operator()(Self &&self, int n, A &arg) {
        see(self, st, key_of(cap), &arg);
        return descend<R>(self, &st, &cap, n, arg);
    }
    template<class Self, class A>
    R operator()(Self &&self, int n, A &arg) const {
        see(self, st, key_of(cap), &arg);
        return descend<R>(self, nullptr, nullptr, n, arg);
    }
};
// only callable with an lvalue self
template<class R>
struct LvSelf {
    long st = 0;
    HVal cap;
    explicit LvSelf(int c) : cap{ make_key<HVal>(c) } {}
    template<class Self, class A>
    R operator()(Self &self, int n, A &arg) {
        see(self, st, key_of(cap), &arg);
        return descend<R>(self, &st, &cap, n, arg);
    }
};
// hands its argument on as it received it; the innermost call uses it up
template<class R>
struct Fwd {
    long st = 0;
    HVal cap;
    explicit Fwd(int c) : cap{ make_key<HVal>(c) } {}
    template<class A>
    static R innermost(A &&arg) {
        Rec *r = cur_rec();
        if constexpr (std::is_void_v<R>) return;
        else if constexpr (std::is_same_v<R, std::remove_cvref_t<A>> && !std::is_lvalue_reference_v<A>) {
            Harness h;
            return R(std::move(arg));
        } else return make_key<R>(r->reskey);
    }
    template<class Self, class A>
    static R go(Self &self, int n, A &&arg) {
        Rec *r = cur_rec();
        {
            Harness h;
            int k = key_of(arg);
            if (k != r->argkey) violate(PROP, "argument", "at depth %d the argument was value %d instead of %d", r->depth, k, r->argkey);
            if (std::is_lvalue_reference_v<A> != r->arg_lv) violate(PROP, "argument", "at depth %d the argument arrived as %s", r->depth, r->arg_lv ? "a temporary although it is a named object" : "a named object although it is a temporary");
        }
        Level l{ r };
        cb(r->depth);
        if constexpr (!std::is_const_v<Self>) {
            ++self.st;
            r->m->st++;
            cb(100 + r->depth);
        }
        if (n > 0) {
            if (n > 1 && (r->bits >> (n & 15) & 1)) {
                (void)self(n & 1, short(n)); // another use of itself, with an argument of its own
            }
            return self(n - 1, std::forward<A>(arg));
        }
        return innermost<A>(std::forward<A>(arg));
    }
    template<class Self>
    static R side(Self &, int, short) {
        Rec *r = cur_rec();
        cb(300 + r->depth);
        if constexpr (!std::is_void_v<R>) return make_key<R>(0);
    }
    template<class Self, class A>
    R operator()(Self &&self, int n, A &&arg) {
        if constexpr (std::is_same_v<std::remove_cvref_t<A>, short>)
            return side(self, n, arg);
        else {
            see(self, st, key_of(cap), &arg);
            return go(self, n, std::forward<A>(arg));
        }
    }
    template<class Self, class A>
    R operator()(Self &&self, int n, A &&arg) const {
        if constexpr (std::is_same_v<std::remove_cvref_t<A>, short>)
            return side(self, n, arg);
        else {
            see(self, st, key_of(cap), &arg);
            return go(self, n, std::forward<A>(arg));
        }
    }
};
template<class R>
auto make_overload(int c) { // even and odd depths handled by different members of one overload set
    return pigro::overload{
        LvSelf<R>{ c },
        [](auto &self, const char *, auto &arg) -> R { return self(1, arg); },
    };
}
template<class F>
struct Of {
    using type = F;
};
template<class K, class R>
struct RObj final : UObj {
    using F = typename K::template fn<R>;
    using B = pigro::recursive<F>;
    static constexpr bool konst_ok = K::konst;
    alignas(B) char buf[sizeof(B)];
    bool alive = false, spent = false;
    FnModel m;
    B &b() { return *std::launder((B *)buf); }
    static UObj *make(u64 bits) {
        auto *o = new RObj;
        int c = (int)(bits % 5);
        o->m.cap = c;
        if (attempt(nullptr, "building a recursive callable", [&] { ::new ((void *)o->buf) B{ K::template mk<R>(c) }; o->alive = true; })) return o;
        delete o;
        return nullptr;
    }
    ~RObj() override {
        if (alive) b().~B();
    }
    UObj *dup(bool move) {
        auto *o = new RObj;
        o->m = m;
        if (attempt(nullptr, move ? "moving a recursive callable" : "copying a recursive callable", [&] {
                if (move)
                    ::new ((void *)o->buf) B(std::move(b()));
                else
                    ::new ((void *)o->buf) B(std::as_const(b()));
                o->alive = true;
            }))
            return o;
        delete o;
        return nullptr;
    }
    UObj *clone() override { return spent ? nullptr : dup(false); }
    UObj *move_out() override { return spent ? nullptr : dup(true); }
    template<class Arg = HVal, class Call>
    void go(u64 bits, bool konst, Call &&call, bool arg_lv = true) {
        HVal res(1, 1);
        Rec r;
        Arg arg(2, 1);
        r.arg_lv = arg_lv;
        r.self = &b();
        r.arg = &arg;
        r.m = &m;
        r.konst = konst;
        r.reskey = (int)(bits >> 24 & 3);
        r.resaddr = &res;
        r.bits = bits;
        Frame *f = push(this);
        f->user = &r;
        int n = (int)(bits >> 28 & 3) ? (int)(bits >> 32) % 7 : (int)(bits >> 32) % 24;
        if (mix(bits, 77) % 1024 == 0) n = 200 + (int)(mix(bits, 78) % 3800);
        const u64 copies0 = SH->st.pk[PK_COPY];
        if (!arg_lv && std::is_same_v<R, Arg>) r.reskey = 2;
        int got = r.reskey;
        const void *ga = nullptr;
        bool typed = true;
        FnModel before = m;
        bool ok = attempt(
          this, "a recursive callable", [&] {
              using Got = decltype(call(n, arg));
              if constexpr (std::is_void_v<R> || std::is_void_v<Got>) {
                  call(n, arg);
                  typed = std::is_void_v<R> == std::is_void_v<Got>;
              } else if constexpr (std::is_reference_v<R>) {
                  auto &&x = call(n, arg);
                  ga = std::addressof(x);
              } else {
                  auto x = call(n, arg);
                  got = key_of(x);
              }
          },
          f);
        if (W.stop) return;
        if (ok) {
            if (!typed || got != r.reskey) violate(PROP, "result", "the caller received %d instead of %d from the innermost call", got, r.reskey);
            if (std::is_reference_v<R> && ga != &res) violate(PROP, "result", "the reference from the innermost call did not reach the caller");
            if (r.entered < n + 1) violate(PROP, "depth", "a recursion %d deep ran only %d levels", n + 1, r.entered);
        } else if (r.entered)
            probe(m.st != before.st ? PR_MIDFAIL : PR_CBFAIL);
        if (W.tasks.size() == 1 && !W.nest && SH->st.pk[PK_COPY] != copies0) violate(PROP, "copied", "%d values were copied during a recursion", (int)(SH->st.pk[PK_COPY] - copies0));
        int after = key_of(arg);
        if (after != 2 && (arg_lv || after != -2)) violate(PROP, "argument", "the caller's argument is %d after the call instead of 2", after);
        if (konst) probe(PR_CONSTCALL);
    }
    void step(int verb, u64 bits) override {
        if (spent) return;
        switch (verb) {
        case 0:
        case 1:
        case 2: go(bits, false, [&](int n, HVal &a) -> decltype(auto) { return b()(n, a); }); break;
        case 3:
            if constexpr (konst_ok && !basic) go(bits, true, [&](int n, HVal &a) -> decltype(auto) { return std::as_const(b())(n, a); });
            break;
        case 4: // called as a temporary: it still reaches itself
            if constexpr (konst_ok && !basic) {
                if (bits >> 45 & 1) break;
                probe(PR_RVALUE);
                go(bits, false, [&](int n, HVal &a) -> decltype(auto) { return std::move(b())(n, a); });
                spent = true;
            }
            break;
        case 5: // const argument
            go(bits, false, [&](int n, const HVal &a) -> decltype(auto) { return b()(n, a); });
            break;
        case 6: // a temporary as argument
            if constexpr (K::fwd) go(bits, false, [&](int n, HVal &a) -> decltype(auto) { return b()(n, std::move(a)); }, false);
            break;
        case 7:
            if constexpr (K::fwd) go<HTVal>(bits, false, [&](int n, HTVal &a) -> decltype(auto) { return b()(n, std::move(a)); }, false);
            break;
        case 8:
            if constexpr (K::fwd && !basic) go(bits, true, [&](int n, HVal &a) -> decltype(auto) { return std::as_const(b())(n, std::move(a)); }, false);
            break;
        case 9:
            if constexpr (K::fwd && !basic) {
                if (bits >> 45 & 1) break;
                go<HTVal>(bits, false, [&](int n, HTVal &a) -> decltype(auto) { return std::move(b())(n, std::move(a)); }, false);
                spent = true;
            }
            break;
        }
    }
};
struct KPlain {
    template<class R>
    using fn = Plain<R>;
    template<class R>
    static Plain<R> mk(int c) { return Plain<R>{ c }; }
    static constexpr bool fwd = false;
    static constexpr bool konst = true;
};
struct KLv {
    template<class R>
    using fn = LvSelf<R>;
    template<class R>
    static LvSelf<R> mk(int c) { return LvSelf<R>{ c }; }
    static constexpr bool fwd = false;
    static constexpr bool konst = false;
};
struct KFwd {
    template<class R>
    using fn = Fwd<R>;
    template<class R>
    static Fwd<R> mk(int c) { return Fwd<R>{ c }; }
    static constexpr bool fwd = true;
    static constexpr bool konst = true;
};
struct KOver {
    template<class R>
    using fn = decltype(make_overload<R>(0));
    template<class R>
    static auto mk(int c) { return make_overload<R>(c); }
    static constexpr bool fwd = false;
    static constexpr bool konst = false;
};
#define RCASE(name, ...) static RegIf<wanted(#name), RObj<__VA_ARGS__>> reg_##name{ 17, #name, 10 };
RCASE(plain_val, KPlain, HVal)
RCASE(plain_ref, KPlain, HVal &)
RCASE(plain_void, KPlain, void)
RCASE(plain_int, KPlain, int)
RCASE(plain_mo, KPlain, MoveOnly)
RCASE(plain_cref, KPlain, const HVal &)
RCASE(lv_val, KLv, HVal)
RCASE(lv_ref, KLv, HVal &)
RCASE(lv_void, KLv, void)
RCASE(fwd_val, KFwd, HVal)
RCASE(fwd_tval, KFwd, HTVal)
RCASE(fwd_int, KFwd, int)
RCASE(fwd_void, KFwd, void)
RCASE(over_val, KOver, HVal)
RCASE(over_ref, KOver, HVal &)
} // namespace sim::ut
