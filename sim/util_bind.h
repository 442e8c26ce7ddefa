// C13: callables with bound values.
#pragma once
#include "util.h"

#include <functional>

namespace sim::ut {

template<class R>
R make_result(Frame *f) {
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_reference_v<R>) return *(std::remove_reference_t<R> *)f->resaddr;
    else return make_key<R>(f->reskey);
}

template<class T>
void mutate_arg(T &a, int i, Frame *f) {
    if constexpr (!std::is_const_v<T>) {
        if (!f || i >= f->n || !(f->mut >> i & 1)) return;
        using V = std::remove_cv_t<T>;
        if constexpr (Tr<V>::D > 1) {
            int k = (f->exp[i]->key + 1 + (int)(f->mut >> 20 & 3)) % Tr<V>::D;
            put_key(a, k);
            f->exp[i]->key = k;
            cb(3 + i);
        }
    }
}

template<class R>
struct Fn {
    long st = 0;
    HVal cap;
    explicit Fn(int c) : cap{ make_key<HVal>(c) } {}
    template<class Self, class... A>
    static R body(Self &self, A &...a) {
        Frame *f = cur();
        int keys[] = { key_of(a)..., 0 };
        const void *ads[] = { (const void *)std::addressof(a)..., nullptr };
        on_call(self.st, key_of(self.cap), keys, ads, (int)sizeof...(A));
        cb(0);
        if constexpr (!std::is_const_v<Self>) {
            self.st++;
            if (f && f->fm) f->fm->st++;
            cb(1);
            if (f && f->fm && (f->mut >> 16 & 1)) {
                f->fm->cap = (f->fm->cap + 1) % 5;
                put_key(self.cap, f->fm->cap);
                cb(2);
            }
            int i = 0;
            (mutate_arg(a, i++, f), ...);
        }
        if (f) f->completed++;
        return make_result<R>(f);
    }
    // a callable that takes its parameters by value: what it receives as a temporary is used up
    template<class... A>
    struct Uses {
        std::tuple<A &&...> a;
        ~Uses() { // also when the callable fails
            Harness h;
            [&]<size_t... I>(std::index_sequence<I...>) { (use<A>(std::get<I>(a)), ...); }(std::index_sequence_for<A...>{});
        }
        template<class T>
        static void use(std::remove_reference_t<T> &x) {
            if constexpr (!std::is_lvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>>) {
                [[maybe_unused]] std::remove_cvref_t<T> v(std::move(x));
                probe(PR_USEDUP);
            }
        }
    };
    template<class A>
    static void category(int i) {
        Frame *f = cur();
        if (!f || !f->expecting || i >= f->n) return;
        if ((f->nonconst >> i & 1) && std::is_const_v<std::remove_reference_t<A>>) violate(PROP, "argument-const", "argument %d of the callable can no longer be changed", i);
        if ((f->rvalue >> i & 1) && std::is_lvalue_reference_v<A>) violate(PROP, "argument-category", "argument %d of the callable, a temporary, cannot be moved from any more", i);
    }
    template<class... A>
    R operator()(A &&...a) {
        Uses<A...> u{ std::tuple<A &&...>(std::forward<A>(a)...) };
        int i = 0;
        (category<A>(i++), ...);
        return body<Fn, std::remove_reference_t<A>...>(*this, a...);
    }
    template<class... A>
    R operator()(A &&...a) const {
        Uses<A...> u{ std::tuple<A &&...>(std::forward<A>(a)...) };
        return body<const Fn, std::remove_reference_t<A>...>(*this, a...);
    }
};

// a callable that is handed references to its values
template<class R>
struct FnU {
    Fn<R> f;
    explicit FnU(int c) : f{ c } {}
    template<class A>
    static decltype(auto) open(A &&a) {
        if constexpr (requires { typename std::remove_cvref_t<A>::type; a.get(); }) {
            if constexpr (std::is_same_v<std::remove_cvref_t<A>, std::reference_wrapper<typename std::remove_cvref_t<A>::type>>) return a.get();
            else return std::forward<A>(a);
        } else
            return std::forward<A>(a);
    }
    template<class... A>
    R operator()(A &&...a) { return f(open(std::forward<A>(a))...); }
    template<class... A>
    R operator()(A &&...a) const { return f(open(std::forward<A>(a))...); }
};

template<class R, class... Ts>
struct Home { // where values bound by reference live
    std::tuple<Ts...> t;
    Fn<R> f;
    HVal res;
    Slot slots[sizeof...(Ts) + 1];
    FnModel fm;
    template<size_t... I>
    Home(const int *k, int cap, std::index_sequence<I...>) : t{ Tr<Ts>::make(k[I] % Tr<Ts>::D, 1, 0)... }, f{ cap }, res{ 2, 1 } {
        ((slots[I].key = k[I] % Tr<Ts>::D, slots[I].addr = &std::get<I>(t)), ...);
        fm.cap = cap;
    }
};

// Style: static bool owns_values, owns_fn; static int front(n); bind(home, keys, cap)
template<class Style, class R, class... Ts>
struct BObj final : UObj {
    static constexpr int N = sizeof...(Ts);
    using H = Home<R, Ts...>;
    using B = decltype(Style::template bind<R, Ts...>(std::declval<H &>(), (const int *)nullptr, 0, std::index_sequence_for<Ts...>{}));
    static constexpr bool const_callable = requires(const B &b, HVal &v) { b(v); };
    alignas(B) char buf[sizeof(B)];
    bool alive = false, spent = false;
    std::shared_ptr<H> home;
    Slot own[N + 1];
    FnModel fm;
    B &b() { return *std::launder((B *)buf); }
    Slot *slots() { return Style::owns_values ? own : home->slots; }

    static UObj *make(u64 bits) {
        auto *o = new BObj;
        int k[N + 1], cap = (int)(bits % 5);
        for (int i = 0; i < N; i++) k[i] = (int)(bits >> (4 + 3 * i) & 7);
        o->home = std::make_shared<H>(k, cap, std::index_sequence_for<Ts...>{});
        o->fm.cap = cap;
        for (int i = 0; i < N; i++) o->own[i].key = o->home->slots[i].key;
        if (!attempt(nullptr, "binding", [&] {
                ::new ((void *)o->buf) B(Style::template bind<R, Ts...>(*o->home, k, cap, std::index_sequence_for<Ts...>{}));
                o->alive = true;
            })) {
            delete o;
            return nullptr;
        }
        return o;
    }
    ~BObj() override {
        if (alive) b().~B();
        Harness h;
        home.reset();
    }
    void like(BObj &o) {
        home = o.home;
        for (int i = 0; i < N; i++) own[i] = o.own[i];
        fm = o.fm;
    }
    UObj *clone() override {
        if constexpr (std::is_copy_constructible_v<B>) {
            if (spent) return nullptr;
            auto *o = new BObj;
            o->like(*this);
            if (attempt(nullptr, "copying a bound callable", [&] { ::new ((void *)o->buf) B(std::as_const(b())); o->alive = true; })) return o;
            delete o;
        }
        return nullptr;
    }
    UObj *move_out() override {
        if (spent) return nullptr;
        auto *o = new BObj;
        o->like(*this);
        if (attempt(nullptr, "moving a bound callable", [&] { ::new ((void *)o->buf) B(std::move(b())); o->alive = true; })) return o;
        delete o;
        return nullptr;
    }
    template<class F>
    void go(u64 bits, Slot *args, int nargs, bool konst, F &&call, u32 nonconst = 0, u32 rvalue = 0) { // masks: call arguments
        Frame *f = push(this);
        int nf = Style::front(N), i = 0;
        Slot *s = slots();
        for (int j = 0; j < nf; j++) f->exp[i++] = &s[j];
        for (int j = 0; j < nargs; j++) f->exp[i++] = &args[j];
        for (int j = nf; j < N; j++) f->exp[i++] = &s[j];
        f->n = i;
        if (!konst && !requires { Style::constant; }) // bound values can be changed
            for (int j = 0; j < N; j++) f->nonconst |= 1u << (j < nf ? j : nargs + j);
        if constexpr (requires { Style::lends; }) f->nonconst |= nonconst << nf;
        if constexpr (requires { Style::forwards; }) f->rvalue |= rvalue << nf;
        f->fm = Style::owns_fn ? &fm : &home->fm;
        f->mut = requires { Style::copies_args; } ? bits & ~0xffffull : bits; // what reaches the inner callable may be a copy
        f->expecting = true;
        f->reskey = (int)(bits >> 24 & 3);
        f->resaddr = &home->res;
        int entered = 0, completed = 0, rk = f->reskey;
        int got = rk;
        const void *ga = nullptr;
        struct Keep {
            Frame *f;
            int &e, &c;
            ~Keep() { e = f->entered, c = f->completed; }
        };
        bool ok = attempt(
          this, "a bound callable", [&] {
              Keep k{ f, entered, completed };
              if constexpr (std::is_void_v<decltype(call())>)
                  call();
              else if constexpr (std::is_reference_v<decltype(call())>) {
                  auto &r = call();
                  ga = (const void *)&r;
              } else {
                  auto r = call();
                  got = key_of(r);
              }
          },
          f);
        if (W.stop) return;
        if (ok && completed != 1) violate(PROP, "not-called", "a bound callable returned without having run to completion");
        if (ok && got != rk) violate(PROP, "result", "the caller received result %d instead of %d", got, rk);
        if (ok && std::is_reference_v<R> && ga != &home->res) violate(PROP, "result", "the reference returned to the caller is not the one the callable returned");
        if (!ok && completed == 0) probe(entered ? PR_MIDFAIL : PR_CBFAIL);
        if (konst) probe(PR_CONSTCALL);
        check_home();
    }
    template<size_t I>
    void check_one() {
        int k = key_of(std::get<I>(home->t));
        if (k != home->slots[I].key) violate(PROP, "original", "the object a value was bound from is %d instead of %d", k, home->slots[I].key);
    }
    void check_home() {
        [&]<size_t... I>(std::index_sequence<I...>) { (check_one<I>(), ...); }(std::index_sequence_for<Ts...>{});
        if (home->f.st != home->fm.st || key_of(home->f.cap) != home->fm.cap) violate(PROP, "original", "the state of the original callable is %ld instead of %ld", home->f.st, home->fm.st);
    }
    // what the caller passed as a named object is at most changed by the callable, never used up
    template<class T>
    void lent(T &v, int k, Slot &now) {
        if (W.stop) return;
        int got = key_of(v);
        if (got != k % Tr<T>::D && got != now.key) violate(PROP, "caller-argument", "an object the caller passed by name is %d after the call instead of %d", got, now.key);
    }
    void step(int verb, u64 bits) override {
        if (spent) return;
        Slot a[3];
        int k0 = (int)(bits >> 32 & 3), k1 = (int)(bits >> 34 & 3), k2 = (int)(bits >> 36 & 3) % 3;
        switch (verb) {
        case 0: go(bits, a, 0, false, [&]() -> decltype(auto) { return b()(); }); break;
        case 1: {
            HVal v = make_key<HVal>(k0);
            a[0].key = k0;
            if constexpr (requires { Style::lends; }) a[0].addr = &v;
            go(bits, a, 1, false, [&]() -> decltype(auto) { return b()(v); }, 1);
            lent(v, k0, a[0]);
            break;
        }
        case 2:
            a[0].key = k0;
            a[1].key = k1;
            go(bits, a, 2, false, [&]() -> decltype(auto) { return b()(make_key<int>(k0), make_key<HVal>(k1)); }, 0, 3);
            break;
        case 3: {
            const std::string s = make_key<std::string>(k0);
            Val v = make_key<Val>(k1);
            int i = make_key<int>(k2);
            a[0].key = k0;
            a[1].key = k1;
            a[2].key = k2;
            if constexpr (requires { Style::lends; }) a[0].addr = &s, a[1].addr = &v, a[2].addr = &i;
            go(bits, a, 3, false, [&]() -> decltype(auto) { return b()(s, v, i); }, 6);
            lent(v, k1, a[1]);
            lent(i, k2, a[2]);
            break;
        }
        case 4:
            if constexpr (const_callable && !basic) {
                HVal v = make_key<HVal>(k0);
                a[0].key = k0;
                u64 nomut = bits & ~0xffffffull;
                go(nomut, a, 1, true, [&]() -> decltype(auto) { return std::as_const(b())(v); });
            }
            break;
        case 5:
            if constexpr (basic || requires { Style::copies_args; }) break;
            else {
            a[0].key = k0;
            go(bits, a, 1, false, [&]() -> decltype(auto) { return b()(make_key<MoveOnly>(k0)); }, 0, 1);
            break;
            }
        case 6:
            if ((bits >> 40 & 7) == 0) {
                if constexpr (basic) break;
                a[0].key = k0;
                probe(PR_RVALUE);
                go(bits, a, 1, false, [&]() -> decltype(auto) { return std::move(b())(make_key<int>(k0)); });
                spent = true;
            } else {
                const HTVal v = make_key<HTVal>(k1);
                a[0].key = k1;
                go(bits, a, 1, false, [&]() -> decltype(auto) { return b()(v); });
            }
            break;
        }
    }
};
#define BCASE(name, ...) static RegIf<wanted(#name), BObj<__VA_ARGS__>> reg_##name{ 13, #name, 7 };

} // namespace sim::ut
