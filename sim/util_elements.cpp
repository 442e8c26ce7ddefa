// C23: applying a function to a tuple-like object, and tuples of references to its elements.
#include "util.h"

#include "pigro/apply.h"
#include "pigro/compressed_tuple.h"
#include "pigro/to_tuple.h"

namespace sim::ut {

enum { AS_LV, AS_CONST, AS_RV }; // how the tuple is passed

struct Saw { // what the function was shown
    int n = 0;
    const void *addr[MAXA]{};
    int key[MAXA]{};
    int cat[MAXA]{}; // 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue
    int times = 0, done = 0;
};
template<class A>
constexpr int cat_of() {
    return (std::is_const_v<std::remove_reference_t<A>> ? 1 : 0) + (std::is_lvalue_reference_v<A> ? 0 : 2);
}
struct EWant {
    int n = 0;
    const void *addr[MAXA]{};
    int *model[MAXA]{};
    int cat[MAXA]{};
    bool check[MAXA]{};
    int st = 0, cap = 3;
    u64 bits = 0;
    int reskey = 0;
    const void *resaddr = nullptr;
    int entered = 0, done = 0;
};
inline EWant *cur_want() {
    Frame *f = cur();
    return f ? (EWant *)f->user : nullptr;
}
template<class R>
struct Applied {
    HVal cap{ make_key<HVal>(3) };
    long st = 0;
    template<class... A>
    static R go(int capkey, long *st, A &&...a) {
        before_cb();
        EWant *w = cur_want();
        {
            Harness h;
            if (!w) {
                violate(PROP, "unexpected-call", "the function ran although nothing called it");
                if constexpr (!std::is_void_v<R> && !std::is_reference_v<R>) return make_key<R>(0);
            }
            if (++w->entered > 1) violate(PROP, "called-twice", "the function was called %d times for one tuple", w->entered);
            if (capkey != w->cap) violate(PROP, "callable-state", "the value inside the function was %d instead of %d", capkey, w->cap);
            if ((int)sizeof...(A) != w->n) violate(PROP, "element-count", "the function received %d elements instead of %d", (int)sizeof...(A), w->n);
            else {
                int i = 0;
                (see<A>(a, i++, w), ...);
            }
        }
        cb(0);
        if (st) {
            if (*st != w->st) violate(PROP, "callable-state", "the state of the function was %ld instead of %d", *st, w->st);
            ++*st;
            w->st++;
            cb(1);
        }
        if ((int)sizeof...(A) == w->n) {
            int i = 0;
            (touch<A>(a, i++, w), ...);
        }
        cb(2);
        w->done++;
        if constexpr (std::is_void_v<R>) return;
        else if constexpr (std::is_reference_v<R>) return *(std::remove_reference_t<R> *)w->resaddr;
        else return make_key<R>(w->reskey);
    }
    template<class A>
    static void see(std::remove_reference_t<A> &a, int i, EWant *w) {
        if (!w->check[i]) return;
        int k = key_of(a);
        fold(mix((u64)k, i, 0x23));
        if (k != *w->model[i]) violate(PROP, "element-value", "element %d reached the function as value %d instead of %d", i, k, *w->model[i]);
        if ((const void *)std::addressof(a) != w->addr[i]) violate(PROP, "element-identity", "element %d reached the function as another object than the element", i);
        if (w->cat[i] >= 0 && cat_of<A>() != w->cat[i]) {
            static const char *const nm[] = { "a named object", "a constant object", "a temporary", "a constant temporary" };
            violate(PROP, "element-category", "element %d reached the function as %s instead of %s", i, nm[cat_of<A>()], nm[w->cat[i]]);
        }
    }
    template<class A>
    static void touch(std::remove_reference_t<A> &a, int i, EWant *w) {
        using V = std::remove_reference_t<A>;
        if constexpr (!std::is_const_v<V> && !std::is_empty_v<V>) {
            if (!w->check[i] || !(w->bits >> i & 1)) return;
            if constexpr (!std::is_lvalue_reference_v<A> && is_val<V>) { // used up
                Harness h;
                V used(std::move(a));
                *w->model[i] = key_of(a);
                probe(PR_USEDUP);
            } else if constexpr (Tr<V>::D > 1) {
                int k = (*w->model[i] < 0 ? 0 : *w->model[i] + 1) % Tr<V>::D;
                put_key(a, k);
                *w->model[i] = k;
                probe(PR_WRITE);
            }
            cb(3 + i);
        }
    }
    template<class... A>
    R operator()(A &&...a) {
        return go(key_of(cap), &st, std::forward<A>(a)...);
    }
    template<class... A>
    R operator()(A &&...a) const {
        return go(key_of(cap), nullptr, std::forward<A>(a)...);
    }
};
template<class R>
struct Once : Applied<R> { // only callable as a temporary
    template<class... A>
    R operator()(A &&...a) && {
        return Applied<R>::go(key_of(this->cap), nullptr, std::forward<A>(a)...);
    }
};

template<class T>
struct NotEmpty : std::bool_constant<!std::is_empty_v<std::remove_cvref_t<T>>> {};

template<class D, class... Ts> // D: the tuple-like; Ts its element types, references included
struct EObj final : UObj {
    static constexpr int N = sizeof...(Ts);
    using Seq = std::index_sequence_for<Ts...>;
    template<size_t I>
    using El = std::tuple_element_t<I, std::tuple<Ts...>>;
    template<size_t I>
    using V = std::remove_cvref_t<El<I>>;
    using Out = std::tuple<std::remove_cvref_t<Ts>...>;
    static constexpr bool packed = pigro::concepts::compressed_tuple<D>;
    std::unique_ptr<Out> out; // what reference elements refer to
    std::unique_ptr<D> d;
    int key[N + 1]{};
    const void *addr[N + 1]{};
    Applied<HVal> kept;
    int kept_st = 0;

    template<size_t I>
    decltype(auto) arg() {
        if constexpr (std::is_reference_v<El<I>>)
            return (std::get<I>(*out));
        else
            return make_key<V<I>>(key[I]);
    }
    static UObj *make(u64 bits) {
        auto *o = new EObj;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((o->key[I] = (int)((mix(bits, I) >> 8) % (u64)Tr<V<I>>::D)), ...);
            o->out.reset(new Out{ Tr<V<I>>::make(o->key[I], 1, 0)... });
            o->d.reset(new D{ o->template arg<I>()... });
            ((o->addr[I] = o->template where<I>()), ...);
        }(Seq{});
        return o;
    }
    template<size_t I>
    const void *where() {
        Harness h;
        if constexpr (std::is_empty_v<V<I>>)
            return nullptr;
        else if constexpr (std::is_reference_v<El<I>>)
            return std::addressof(std::get<I>(*out));
        else if constexpr (packed) {
            auto &x = pigro::get<I>(*d);
            return std::addressof(x);
        } else
            return std::addressof(std::get<I>(*d));
    }
    ~EObj() override {
        Harness h;
        d.reset();
        out.reset();
    }
    template<int As>
    static decltype(auto) as(D &d) {
        if constexpr (As == AS_LV) return (d);
        else if constexpr (As == AS_CONST) return (std::as_const(d));
        else return std::move(d);
    }
    template<size_t I, int As>
    static constexpr int want_cat() {
        using E = El<I>;
        constexpr int c = std::is_const_v<std::remove_reference_t<E>>;
        if constexpr (std::is_lvalue_reference_v<E> && packed && As != AS_LV) return -1; // not determined
        else if constexpr (std::is_lvalue_reference_v<E>) return c;
        else if constexpr (As == AS_RV) return 2 + c;
        else return c || As == AS_CONST;
    }
    template<int As>
    void prepare(EWant &w, u64 bits) {
        w.n = N;
        w.bits = bits;
        w.reskey = (int)(bits >> 24 & 3);
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((w.addr[I] = addr[I], w.model[I] = &key[I], w.cat[I] = want_cat<I, As>(), w.check[I] = !std::is_empty_v<V<I>>), ...);
        }(Seq{});
    }
    template<class R, int As, int How> // How: 0 temporary function, 1 named, 2 kept from call to call, 3 only callable as a temporary, 4 const
    void apply(u64 bits) {
        EWant w;
        prepare<As>(w, bits);
        HVal res(2, 1);
        w.resaddr = &res;
        if constexpr (How == 2) w.st = kept_st;
        Frame *f = push(this);
        f->user = &w;
        int got = w.reskey;
        const void *ga = &res;
        bool typed = true;
        const int live0 = W.live_vals;
        const u64 copies0 = SH->st.pk[PK_COPY], moves0 = SH->st.pk[PK_MOVE];
        auto run = [&](auto &&fn) {
            using Got = decltype(pigro::apply(std::forward<decltype(fn)>(fn), as<As>(*d)));
            if constexpr (!std::is_same_v<Got, R>)
                typed = false;
            else if constexpr (std::is_void_v<R>)
                pigro::apply(std::forward<decltype(fn)>(fn), as<As>(*d));
            else if constexpr (std::is_reference_v<R>) {
                auto &&r = pigro::apply(std::forward<decltype(fn)>(fn), as<As>(*d));
                ga = std::addressof(r);
            } else {
                auto r = pigro::apply(std::forward<decltype(fn)>(fn), as<As>(*d));
                got = key_of(r);
            }
        };
        bool ok = attempt(
          this, "applying to a tuple", [&] {
              if constexpr (How == 0) run(Applied<R>{});
              else if constexpr (How == 1) {
                  Applied<R> fn;
                  run(fn);
                  if (fn.st != w.st) violate(PROP, "callable-state", "the function a tuple was applied to is not the caller's");
              } else if constexpr (How == 2) run(kept);
              else if constexpr (How == 3) run(Once<R>{});
              else {
                  const Applied<R> fn;
                  run(fn);
              }
          },
          f);
        if constexpr (How == 2) kept_st = w.st;
        if (W.stop) return;
        if (!typed) violate(PROP, "result-type", "the result reached the caller as another type than the function returns");
        if (ok && w.done != 1) violate(PROP, "not-called", "the function did not run to completion");
        if (ok && got != w.reskey) violate(PROP, "result", "the caller received %d instead of %d", got, w.reskey);
        if (ok && ga != &res) violate(PROP, "result", "the reference returned by the function did not reach the caller");
        if (!ok && !w.done && w.entered) probe(PR_MIDFAIL);
        if (As == AS_CONST) probe(PR_CONSTCALL);
        if (As == AS_RV) probe(PR_RVALUE);
        quiet(live0, copies0, moves0);
    }
    void quiet(int live0, u64 copies0, u64) {
        if (W.stop) return;
        if (W.tasks.size() == 1 && !W.nest) {
            if (W.live_vals != live0) violate(PROP, "leak", "%d values were left behind", W.live_vals - live0);
            if (SH->st.pk[PK_COPY] != copies0) violate(PROP, "copied", "%d values were copied", (int)(SH->st.pk[PK_COPY] - copies0));
        }
        check();
    }
    void check() {
        [&]<size_t... I>(std::index_sequence<I...>) { (check1<I>(), ...); }(Seq{});
    }
    template<size_t I>
    void check1() {
        if constexpr (!std::is_empty_v<V<I>>) {
            int k = key_of(*(const V<I> *)addr[I]);
            if (k != key[I]) violate(PROP, "element-changed", "element %d is %d afterwards instead of %d", (int)I, k, key[I]);
            if (where<I>() != addr[I]) violate(PROP, "element-identity", "element %d is another object afterwards", (int)I);
        }
    }
    template<int As>
    void refs(u64 bits) {
        if constexpr ((NotEmpty<Ts>::value && ...) || !packed) {
            Frame *f = push(this);
            const int live0 = W.live_vals;
            const u64 copies0 = SH->st.pk[PK_COPY], moves0 = SH->st.pk[PK_MOVE];
            attempt(
              this, "making a tuple of references", [&] {
                  auto r = pigro::to_tuple(as<As>(*d));
                  Harness h;
                  if constexpr (std::tuple_size_v<decltype(r)> != N)
                      violate(PROP, "element-count", "the tuple of references has %d elements instead of %d", (int)std::tuple_size_v<decltype(r)>, N);
                  else
                      [&]<size_t... I>(std::index_sequence<I...>) { (ref1<I, As>(r, bits), ...); }(Seq{});
              },
              f);
            quiet(live0, copies0, moves0);
        }
    }
    template<size_t I, int As, class T>
    void ref1(T &r, u64 bits) {
        using X = std::tuple_element_t<I, T>;
        if constexpr (!std::is_reference_v<X>)
            violate(PROP, "element-identity", "position %d of the tuple of references holds an object of its own", (int)I);
        else if constexpr (!std::is_empty_v<V<I>>) {
            if constexpr (want_cat<I, As>() >= 0 && cat_of<X>() != want_cat<I, As>())
                violate(PROP, "element-category", "the reference at position %d has another constness or category than the element", (int)I);
            auto &x = std::get<I>(r);
            if ((const void *)std::addressof(x) != addr[I]) violate(PROP, "element-identity", "the reference at position %d refers to another object", (int)I);
            if (key_of(x) != key[I]) violate(PROP, "element-value", "the reference at position %d shows %d instead of %d", (int)I, key_of(x), key[I]);
            if constexpr (!std::is_const_v<std::remove_reference_t<X>>)
                if (bits >> I & 1) {
                    int k = (key[I] < 0 ? 0 : key[I] + 1) % Tr<V<I>>::D;
                    put_key(x, k);
                    key[I] = k;
                    probe(PR_ALIAS);
                }
        }
    }
    void step(int verb, u64 bits) override {
        switch (verb) {
        case 0: apply<HVal, AS_LV, 0>(bits); break;
        case 1: apply<HVal &, AS_LV, 1>(bits); break;
        case 2: apply<HVal, AS_LV, 2>(bits); break;
        case 3: apply<void, AS_CONST, 1>(bits); break;
        case 4: apply<int, AS_CONST, 0>(bits); break;
        case 5:
            if constexpr (!basic) apply<MoveOnly, AS_LV, 3>(bits);
            break;
        case 6:
            if constexpr (!basic) apply<const HVal &, AS_CONST, 4>(bits);
            break;
        case 7:
            if constexpr (!basic) apply<void, AS_RV, 0>(bits);
            break;
        case 8:
            if constexpr (!basic) apply<HVal, AS_RV, 2>(bits);
            break;
        case 9: refs<AS_LV>(bits); break;
        case 10: refs<AS_CONST>(bits); break;
        case 11:
            if constexpr (!basic) refs<AS_RV>(bits);
            break;
        }
        if ((bits >> 50 & 3) == 0) renew(bits >> 40);
    }
    void renew(u64 bits) { // what was used up gets a value again
        [&]<size_t... I>(std::index_sequence<I...>) { (renew1<I>(bits), ...); }(Seq{});
    }
    template<size_t I>
    void renew1(u64 bits) {
        if constexpr (!std::is_empty_v<V<I>>)
            if (key[I] < 0) {
                key[I] = (int)((bits >> I & 7) % (u64)Tr<V<I>>::D);
                put_key(*(V<I> *)addr[I], key[I]);
            }
    }
};
#define ECASE(name, ...) static RegIf<wanted(#name), EObj<__VA_ARGS__>> reg_##name{ 23, #name, 12 };
using Str = std::string;
using std::tuple;
template<class... Ts>
using T_ = EObj<tuple<Ts...>, Ts...>;
ECASE(e0, tuple<>)
ECASE(e1, tuple<HVal>, HVal)
ECASE(e2_same, tuple<HVal, HVal>, HVal, HVal)
ECASE(e3, tuple<HVal, int, Str>, HVal, int, Str)
ECASE(e3_ref, tuple<HVal &, int, const HVal &>, HVal &, int, const HVal &)
ECASE(e2_const, tuple<const HVal, int>, const HVal, int)
ECASE(e3_mo, tuple<MoveOnly, HTVal, MoveOnly>, MoveOnly, HTVal, MoveOnly)
ECASE(e4_empty, tuple<E1, HVal, E2, TVal>, E1, HVal, E2, TVal)
ECASE(e2_nested, tuple<Tup2, PairVal>, Tup2, PairVal)
ECASE(e6, tuple<HVal, int, TVal, Str, HTVal, Val>, HVal, int, TVal, Str, HTVal, Val)
ECASE(e11, tuple<int, int, int, int, int, int, int, int, int, HVal, int>, int, int, int, int, int, int, int, int, int, HVal, int)
ECASE(pair, std::pair<HVal, int>, HVal, int)
ECASE(pair_ref, std::pair<int, HVal &>, int, HVal &)
ECASE(arr3, std::array<HVal, 3>, HVal, HVal, HVal)
ECASE(arr10, std::array<int, 10>, int, int, int, int, int, int, int, int, int, int)
ECASE(ct2, pigro::compressed_tuple<HVal, int>, HVal, int)
ECASE(ct3, pigro::compressed_tuple<HVal, E1, Str>, HVal, E1, Str)
ECASE(ct2_ref, pigro::compressed_tuple<HVal &, HTVal>, HVal &, HTVal)
ECASE(ct4, pigro::compressed_tuple<int, HVal, HVal, TVal>, int, HVal, HVal, TVal)
} // namespace sim::ut
