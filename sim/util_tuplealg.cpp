// C15: transform() and any() over tuples.
#include "util.h"

#include <functional>

#include "pigro/tuple_algorithms.h"

namespace sim::ut {

struct Log { // one running transform() or any()
    int n = 0, next = 0;
    int key[16]{};
    const void *addr[16]{};
    const char *lo = nullptr, *hi = nullptr;
    int res[16]{};
    u64 truth = 0;
    bool stopped = false;
};
inline Log *cur_log() {
    Frame *f = cur();
    return f ? (Log *)f->user : nullptr;
}
// the callable is shown one element; gives the index it stands for
template<class T>
int shown(const T &v, int capkey) {
    before_cb();
    Harness h;
    Log *l = cur_log();
    if (!l) {
        violate(PROP, "unexpected-call", "the callable ran although nothing called it");
        return 0;
    }
    int i = l->next++;
    int k = key_of(v);
    fold(mix((u64)k, i, 0x15));
    if (i >= l->n) {
        violate(PROP, "called-too-often", "the callable was called %d times for %d elements", l->next, l->n);
        return l->n ? l->n - 1 : 0;
    }
    if (l->stopped) violate(PROP, "no-short-circuit", "the predicate was called again after it had held");
    if (k != l->key[i]) violate(PROP, "element", "call %d was given value %d instead of element %d, value %d", i, k, i, l->key[i]);
    const char *p = (const char *)std::addressof(v);
    if (p >= l->lo && p < l->hi && !std::is_empty_v<T> && p != l->addr[i]) violate(PROP, "order", "call %d was given another element than the one at position %d", i, i);
    if (capkey != 3) violate(PROP, "callable-capture", "the value inside the callable was %d instead of 3", capkey);
    return i;
}

// ---- projections: what they yield for an element
struct Same {
    template<class T>
    static T make(const T &, int k) { return make_key<T>(k); }
    template<class T>
    static int D() { return Tr<T>::D; }
};
struct Ref { // a reference into the tuple: the outcome is a copy of it
    template<class T>
    static const T &make(const T &v, int) { return v; }
};
struct Tup {
    template<class T>
    static std::tuple<HVal, int> make(const T &, int k) { return { make_key<HVal>(k), k }; }
};
struct Tup1v {
    template<class T>
    static std::tuple<HVal> make(const T &, int k) { return std::tuple<HVal>{ make_key<HVal>(k) }; }
};
struct Pr {
    template<class T>
    static std::pair<HVal, HVal> make(const T &, int k) { return { make_key<HVal>(k), make_key<HVal>(k) }; }
};
struct Mo {
    template<class T>
    static MoveOnly make(const T &, int k) { return make_key<MoveOnly>(k); }
};
struct Op {
    template<class T>
    static OptVal make(const T &, int k) { return make_key<OptVal>(k); }
};
struct Mixed {
    template<class T>
    static auto make(const T &, int k) {
        if constexpr (std::is_same_v<T, int>) return make_key<std::string>(k);
        else if constexpr (std::is_empty_v<T>) return make_key<TVal>(k);
        else if constexpr (std::is_same_v<T, HVal>) return E2{};
        else return make_key<bool>(k & 1);
    }
};
template<class T>
int rkey(const T &v) {
    Harness h;
    if constexpr (requires { v.first; v.second; } && !std::is_same_v<T, PairVal>) return key_of(v.first) == key_of(v.second) ? key_of(v.first) : -5;
    else if constexpr (std::is_same_v<T, std::tuple<HVal, int>>) return key_of(std::get<0>(v)) == std::get<1>(v) ? std::get<1>(v) : -5;
    else if constexpr (std::is_same_v<T, std::tuple<HVal>>) return key_of(std::get<0>(v));
    else return key_of(v);
}
template<class P>
struct Proj {
    HVal cap{ make_key<HVal>(3) };
    template<class T>
    decltype(auto) operator()(const T &v) const {
        int i = shown(v, key_of(cap));
        cb(i);
        Log *l = cur_log();
        int k = l ? l->res[i] : 0;
        if constexpr (std::is_reference_v<decltype(P::make(v, k))>)
            return P::make(v, k);
        else {
            auto r = P::make(v, k);
            {
                Harness h;
                if (l) l->res[i] = rkey(r);
            }
            return r;
        }
    }
};
template<class C>
struct Counted : C { // stays its owner's: given by std::ref
    int calls = 0;
    template<class T>
    decltype(auto) operator()(const T &v) {
        calls++;
        return C::operator()(v);
    }
};
struct BoolLike {
    bool b;
    explicit operator bool() const { return b; }
};
template<int Kind>
struct Pred {
    HVal cap{ make_key<HVal>(3) };
    template<class T>
    auto operator()(const T &v) const {
        int i = shown(v, key_of(cap));
        cb(i);
        Log *l = cur_log();
        bool r = l && (l->truth >> i & 1);
        if (r) l->stopped = true;
        if constexpr (Kind == 0) return r;
        else if constexpr (Kind == 1) return r ? 256 : 0;
        else return BoolLike{ r };
    }
};

template<class D> // the tuple-like
struct TObj final : UObj {
    static constexpr int N = std::tuple_size_v<D>;
    using Seq = std::make_index_sequence<N>;
    template<size_t I>
    using E = std::tuple_element_t<I, D>;
    std::unique_ptr<D> d;
    int key[N + 1];
    static UObj *make(u64 bits) {
        auto *o = new TObj;
        for (int i = 0; i < N; i++) o->key[i] = (int)(mix(bits, i) >> 8 & 7);
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((o->key[I] %= Tr<E<I>>::D), ...);
            o->d.reset(new D{ Tr<E<I>>::make(o->key[I], 1, 0)... });
        }(Seq{});
        return o;
    }
    ~TObj() override {
        Harness h;
        d.reset();
    }
    void prepare(Log &l, u64 bits) {
        l.n = N;
        l.lo = (const char *)d.get();
        l.hi = l.lo + sizeof(D);
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((l.key[I] = key[I], l.addr[I] = std::addressof(std::get<I>(*d)), l.res[I] = (int)(mix(bits, I) >> 8 & 3)), ...);
        }(Seq{});
    }
    static bool by_ref(u64 bits) { return (bits >> 41 & 3) == 3; }
    struct Keep { // also when the call fails
        int &calls;
        Log &l;
        ~Keep() {
            if (!W.stop && calls != l.next) violate(PROP, "callable-copied", "a callable given by reference was called %d times instead of %d", calls, l.next);
        }
    };
    template<class P>
    void transform(u64 bits, bool as_lvalue) {
        Log l;
        prepare(l, bits);
        Frame *f = push(this);
        f->user = &l;
        using T = decltype(pigro::transform(std::as_const(*d), std::declval<Proj<P>>()));
        const int live0 = W.live_vals;
        bool ok = attempt(
          this, "transform()", [&] {
              if (by_ref(bits)) {
                  Counted<Proj<P>> p;
                  Keep k{ p.calls, l };
                  auto r = pigro::transform(*d, std::ref(p));
                  check<P>(r, l);
              } else if (as_lvalue) {
                  Proj<P> p;
                  auto r = pigro::transform(*d, p);
                  check<P>(r, l);
              } else {
                  auto r = pigro::transform(std::as_const(*d), Proj<P>{});
                  check<P>(r, l);
              }
          },
          f);
        finish(l, ok, live0);
    }
    template<class P, class T>
    void check(const T &r, Log &l) {
        Harness h;
        if constexpr (!requires { std::tuple_size<T>::value; }) {
            violate(PROP, "shape", "transform() did not yield a tuple");
        } else if constexpr (std::tuple_size_v<T> != N) {
            violate(PROP, "shape", "transform() of %d elements yielded %d", N, (int)std::tuple_size_v<T>);
        } else {
            [&]<size_t... I>(std::index_sequence<I...>) {
                (check1<P, I>(r, l), ...);
            }(Seq{});
        }
        if (l.next != N) violate(PROP, "calls", "the projection was called %d times for %d elements", l.next, N);
    }
    template<class P, size_t I, class T>
    void check1(const T &r, Log &l) {
        using Want = std::decay_t<decltype(P::make(std::get<I>(std::as_const(*d)), 0))>;
        using Got = std::tuple_element_t<I, T>;
        if constexpr (requires { std::tuple_size<Want>::value; }) probe(PR_TUPRESULT);
        if constexpr (!std::is_same_v<Want, std::remove_cvref_t<Got>>)
            violate(PROP, "shape", "the outcome at position %d has another type than the projection yielded", (int)I);
        else {
            int want = std::is_same_v<P, Ref> ? key[I] : l.res[I];
            int k = rkey(std::get<I>(r));
            if (k != want) violate(PROP, "outcome", "the outcome at position %d is %d instead of %d", (int)I, k, want);
        }
    }
    void finish(Log &l, bool ok, int live0) {
        if (W.stop) return;
        if (!ok && l.next < N) probe(PR_MIDFAIL);
        if (W.tasks.size() == 1 && !W.nest && W.live_vals != live0)
            violate(PROP, "leak", "%d values were left behind by one operation", W.live_vals - live0);
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((key_of(std::get<I>(*d)) == key[I] ? (void)0 : violate(PROP, "data-changed", "element %d was changed", (int)I)), ...);
        }(Seq{});
    }
    template<class P>
    void any(u64 bits, bool as_lvalue) {
        Log l;
        prepare(l, bits);
        l.truth = (bits & 3) == 0 ? 0 : (bits & 3) == 1 ? 1ull << (bits >> 4 & 15) : bits >> 4 & mix(bits, 5); // sparse
        Frame *f = push(this);
        f->user = &l;
        const int live0 = W.live_vals;
        bool got = false;
        bool ok = attempt(
          this, "any()", [&] {
              if (by_ref(bits)) {
                  Counted<P> p;
                  Keep k{ p.calls, l };
                  got = static_cast<bool>(pigro::any(*d, std::ref(p)));
              } else if (as_lvalue) {
                  P p;
                  got = static_cast<bool>(pigro::any(*d, p));
              } else
                  got = static_cast<bool>(pigro::any(std::as_const(*d), P{}));
          },
          f);
        bool want = (l.truth & ((1u << N) - 1)) != 0;
        if (ok && !W.stop) {
            if (got != want) violate(PROP, "any", "any() said %d although the predicate %s", got, want ? "holds for an element" : "holds for none");
            if (!want && l.next != N) violate(PROP, "calls", "any() asked about %d of %d elements although none held", l.next, N);
            if (want && l.next < N) probe(PR_EARLYSTOP);
        }
        finish(l, ok, live0);
    }
    void step(int verb, u64 bits) override {
        bool lv = bits >> 40 & 1;
        switch (verb) {
        case 0: any<Pred<0>>(bits, lv); break;
        case 1: transform<Same>(bits, lv); break;
        case 2: transform<Ref>(bits, lv); break;
        case 3: transform<Tup>(bits, lv); break;
        case 4: transform<Tup1v>(bits, lv); break;
        case 5: transform<Pr>(bits, lv); break;
        case 6:
            if constexpr (!basic) transform<Mo>(bits, lv);
            break;
        case 7: transform<Op>(bits, lv); break;
        case 8: transform<Mixed>(bits, lv); break;
        case 9:
            if constexpr (N > 0 && !basic) any<Pred<1>>(bits, lv);
            break;
        case 10:
            if constexpr (N > 0 && !basic) any<Pred<2>>(bits, lv);
            break;
        case 11: // without a predicate: the elements themselves decide
            if constexpr ([]<size_t... I>(std::index_sequence<I...>) { return (std::is_same_v<E<I>, bool> && ...); }(Seq{})) {
                bool want = false, got = false;
                for (int i = 0; i < N; i++) want |= key[i] == 1;
                if (attempt(this, "any()", [&] { got = pigro::any(*d); }) && got != want) violate(PROP, "any", "any() said %d instead of %d", got, want);
            }
            break;
        }
    }
};
#define TCASE(name, ...) static RegIf<wanted(#name), TObj<__VA_ARGS__>> reg_##name{ 15, #name, 12 };
using Str = std::string;
using std::tuple;
TCASE(t0, tuple<>)
TCASE(t1, tuple<HVal>)
TCASE(t1_tuple, tuple<Tup2>)
TCASE(t1_pair, tuple<PairVal>)
TCASE(t2_same, tuple<HVal, HVal>)
TCASE(t2_bool, tuple<bool, bool>)
TCASE(t3, tuple<HVal, int, E1>)
TCASE(t3_bool, tuple<bool, bool, bool>)
TCASE(t4_same, tuple<int, int, int, int>)
TCASE(t4, tuple<Str, HTVal, OptVal, bool>)
TCASE(t6, tuple<HVal, HVal, HVal, HVal, HVal, HVal>)
TCASE(t8, tuple<bool, HVal, E1, int, TVal, Str, E2, HTVal>)
TCASE(t9_same, tuple<HVal, HVal, HVal, HVal, HVal, HVal, HVal, HVal, HVal>)
TCASE(t10_bool, tuple<bool, bool, bool, bool, bool, bool, bool, bool, bool, bool>)
TCASE(t12, tuple<int, HVal, int, TVal, int, Val, int, CVal, bool, AVal, E1, int>)
TCASE(t2_empty, tuple<E1, E2>)
TCASE(arr9, std::array<int, 9>)
TCASE(pair, std::pair<HVal, int>)
TCASE(arr, std::array<HVal, 3>)
TCASE(arr1, std::array<TVal, 1>)
} // namespace sim::ut
