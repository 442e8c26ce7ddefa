// C14: compressed tuples.
#pragma once
#include "util.h"

#include "pigro/apply.h"
#include "pigro/compressed_tuple.h"
#include "pigro/to_tuple.h"

namespace sim::ut {

template<class T>
inline constexpr bool hollow = std::is_empty_v<std::remove_cvref_t<T>>;

struct Visit { // checks the elements it is shown
    const int *const *keys; // the model, as it is when an element is shown
    const void *const *addrs; // null entries: not checked
    int n;
    int seen = 0;
    template<class... A>
    int operator()(A &&...a) {
        before_cb();
        int i = 0;
        {
            Harness h;
            if ((int)sizeof...(A) != n) violate(PROP, "element-count", "%d elements were visited instead of %d", (int)sizeof...(A), n);
        }
        (one(a, i++), ...);
        seen++;
        return 4711;
    }
    template<class A>
    void one(A &a, int i) {
        {
            Harness h;
            int k = key_of(a);
            if (i < n && k != *keys[i]) violate(PROP, "element-value", "element %d was value %d instead of %d when visited", i, k, *keys[i]);
            if (i < n && addrs && addrs[i] && addrs[i] != (const void *)std::addressof(a)) violate(PROP, "element-identity", "visiting element %d showed another object than its accessor", i);
        }
        cb(i);
    }
};

template<class... Ts> // element types; a reference type refers to an outside object
struct CObj final : UObj {
    static constexpr int N = sizeof...(Ts);
    using T = pigro::compressed_tuple<Ts...>;
    template<size_t I>
    using El = std::tuple_element_t<I, std::tuple<Ts...>>;
    template<size_t I>
    using V = std::remove_cvref_t<El<I>>;
    using Out = std::tuple<std::remove_cvref_t<Ts>...>;
    using Seq = std::index_sequence_for<Ts...>;
    alignas(T) char buf[sizeof(T)];
    bool alive = false;
    std::shared_ptr<Out> out; // targets of reference elements
    struct Keys {
        int k[N + 1];
    };
    std::shared_ptr<Keys> outkeys;
    int key[N + 1];
    T &t() { return *std::launder((T *)buf); }
    template<size_t I>
    static constexpr bool is_ref = std::is_reference_v<El<I>>;
    template<size_t I>
    int &model() {
        return is_ref<I> ? outkeys->k[I] : key[I];
    }
    template<class F>
    static void each(F &&f) {
        [&]<size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<size_t, I>{}), ...); }(Seq{});
    }
    template<size_t I>
    static decltype(auto) arg(Out &o, int k) {
        if constexpr (is_ref<I>)
            return (std::get<I>(o));
        else
            return make_key<V<I>>(k);
    }
    static UObj *make(u64 bits) {
        auto *o = new CObj;
        int k[N + 1];
        for (int i = 0; i < N; i++) k[i] = (int)(bits >> (3 * i) & 7);
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((k[I] %= Tr<V<I>>::D), ...);
            o->out = std::make_shared<Out>(Tr<V<I>>::make(k[I], 1, 0)...);
            o->outkeys = std::make_shared<Keys>();
            ((o->outkeys->k[I] = o->key[I] = k[I]), ...);
            constexpr bool def = N > 0 && (std::is_same_v<std::remove_cvref_t<El<I>>, El<I>> && ...) && (std::is_default_constructible_v<El<I>> && ...);
            const bool use_default = def && (bits >> 40 & 3) == 0;
            attempt(nullptr, "building a compressed tuple", [&] {
                if constexpr (def) {
                    if (use_default) {
                        ::new ((void *)o->buf) T();
                        o->alive = true;
                        return;
                    }
                }
                ::new ((void *)o->buf) T(arg<I>(*o->out, k[I])...);
                o->alive = true;
            });
            if constexpr (def)
                if (use_default) ((o->key[I] = key_of(El<I>{})), ...);
        }(Seq{});
        if (!o->alive) {
            delete o;
            return nullptr;
        }
        o->check();
        return o;
    }
    ~CObj() override {
        if (alive) t().~T();
        Harness h;
        out.reset();
        outkeys.reset();
    }
    UObj *dup(bool move) {
        auto *o = new CObj;
        o->out = out;
        o->outkeys = outkeys;
        for (int i = 0; i < N; i++) o->key[i] = key[i];
        attempt(nullptr, move ? "moving a compressed tuple" : "copying a compressed tuple", [&] {
            if (move)
                ::new ((void *)o->buf) T(std::move(t()));
            else if constexpr (std::is_copy_constructible_v<T>) {
                if (!basic && (id & 1)) ::new ((void *)o->buf) T(t());
                else ::new ((void *)o->buf) T(std::as_const(t()));
            }
            o->alive = true;
        });
        if (!o->alive) {
            delete o;
            o = nullptr;
        } else
            o->check();
        if (!move) check(); // the source of a copy is what it was
        return o;
    }
    UObj *clone() override {
        if constexpr (std::is_copy_constructible_v<T>) return dup(false);
        else return nullptr;
    }
    UObj *move_out() override { return dup(true); }

    template<size_t I>
    std::remove_reference_t<El<I>> *ptr() {
        using X = std::remove_reference_t<El<I>>;
        if constexpr (std::is_convertible_v<decltype(pigro::get<I>(t())), X &>) {
            X &x = pigro::get<I>(t());
            return std::addressof(x);
        } else {
            violate(PROP, "element-identity", "the accessor of element %d does not give access to the element", (int)I);
            return nullptr;
        }
    }
    // reading never fails: done without simulation points
    void check() {
        if (W.stop) return;
        Harness h;
        const void *a[N + 1] = {};
        each([&](auto i) {
            constexpr size_t I = i;
            if constexpr (!hollow<V<I>>) {
                auto *v = ptr<I>();
                if (!v) return;
                a[I] = v;
                const int k = key_of(*v);
                if (k != model<I>()) violate(PROP, "element-value", "element %d reads %d instead of %d", (int)I, k, model<I>());
                const auto &c = pigro::get<I>(std::as_const(t()));
                if ((const void *)std::addressof(c) != a[I]) violate(PROP, "element-identity", "element %d is another object when read through const", (int)I);
                const auto &w = t()(pigro::idx<I>);
                if ((const void *)std::addressof(w) != a[I]) violate(PROP, "element-identity", "element %d is another object when read twice", (int)I);
                if constexpr (is_ref<I>) {
                    probe(PR_ALIAS);
                    if (a[I] != (const void *)&std::get<I>(*out)) violate(PROP, "element-identity", "reference element %d does not refer to its object", (int)I);
                } else {
                    auto *p = (const char *)a[I], *b = (const char *)buf;
                    if (p < b || p + sizeof(V<I>) > b + sizeof(T)) violate(PROP, "element-storage", "element %d does not lie inside its tuple", (int)I);
                }
            }
        });
        each([&](auto i) {
            each([&](auto j) {
                if constexpr (i < j && !is_ref<i> && !is_ref<j>) {
                    if (!a[i] || !a[j]) return;
                    auto *p = (const char *)a[i], *q = (const char *)a[j];
                    if (p < q + sizeof(V<j>) && q < p + sizeof(V<i>)) violate(PROP, "element-overlap", "elements %d and %d share storage", (int)i, (int)j);
                }
            });
        });
    }
    void addrs(const void **a) {
        Harness h;
        each([&](auto i) {
            constexpr size_t I = i;
            a[I] = nullptr;
            if constexpr (!hollow<V<I>>)
                a[I] = ptr<I>();
            else
                probe(PR_EMPTYELEM);
        });
    }
    void models(const int **k) {
        each([&](auto i) { k[i] = &model<i>(); });
    }
    template<size_t I>
    void write(u64 bits) {
        if constexpr (!hollow<V<I>> && !std::is_const_v<std::remove_reference_t<El<I>>>) {
            int k = (int)(bits >> 8 & 7) % Tr<V<I>>::D;
            auto v = make_key<V<I>>(k);
            probe(PR_WRITE);
            int how = (int)(bits >> 12 & 3);
            auto *dst = ptr<I>();
            if (!dst) return;
            // the assignment of the values here either fails before it changes anything or completes
            if (attempt(this, "writing an element", [&] {
                    if constexpr (std::is_copy_assignable_v<V<I>>) {
                        if (how < 2) *dst = v;
                    }
                    if (how >= 2 || !std::is_copy_assignable_v<V<I>>) *dst = std::move(v);
                }))
                model<I>() = k;
            else if constexpr (!is_val<V<I>> && !std::is_same_v<V<I>, MoveOnly>) { // containers may be left half assigned
                put_key(*dst, k);
                model<I>() = k;
            }
        }
    }
    template<size_t I>
    void take(u64) { // moves one element out
        if constexpr (is_val<V<I>> && !is_ref<I> && !basic) {
            int k = -1;
            probe(PR_RVALUE);
            if (attempt(this, "moving an element out", [&] {
                    V<I> v = pigro::get<I>(std::move(t()));
                    k = key_of(v);
                })) {
                if (k != model<I>()) violate(PROP, "element-value", "element %d moved out as %d instead of %d", (int)I, k, model<I>());
                int now = key_of(*ptr<I>());
                if (now != -2 && now != model<I>()) violate(PROP, "element-value", "element %d is %d after it was moved from", (int)I, now);
                model<I>() = now;
            }
        }
    }
    void step(int verb, u64 bits) override {
        int idx = N ? (int)(bits % (u64)N) : 0;
        const int *k[N + 1];
        const void *a[N + 1];
        switch (verb) {
        case 0: break;
        case 1:
        case 2:
            each([&](auto i) {
                if ((int)i == idx) write<i>(bits);
            });
            break;
        case 3: {
            models(k);
            addrs(a);
            Visit v{ k, a, N };
            int r = 0;
            if (attempt(this, "applying to a compressed tuple", [&] { r = pigro::apply(v, t()); })) {
                if (v.seen != 1) violate(PROP, "visited", "a visit called its function %d times", v.seen);
                if (r != 4711) violate(PROP, "result", "the result of a visit did not reach the caller");
            }
            break;
        }
        case 4: {
            models(k);
            addrs(a);
            Visit v{ k, a, N };
            probe(PR_CONSTCALL);
            attempt(this, "applying to a const compressed tuple", [&] { (void)pigro::apply(v, std::as_const(t())); });
            break;
        }
        case 5:
            if constexpr ((!hollow<Ts> && ...) && !basic) { // a tuple of references to the elements
                models(k);
                addrs(a);
                attempt(this, "converting to a tuple", [&] {
                    auto r = pigro::to_tuple(t());
                    Harness h;
                    if constexpr (std::tuple_size_v<decltype(r)> != N) {
                        violate(PROP, "element-count", "the tuple made from it has %d elements instead of %d", (int)std::tuple_size_v<decltype(r)>, N);
                        return;
                    } else {
                    each([&](auto i) {
                        if ((const void *)std::addressof(std::get<i>(r)) != a[i]) violate(PROP, "element-identity", "the tuple made from it refers to another object at position %d", (int)i);
                        if (key_of(std::get<i>(r)) != *k[i]) violate(PROP, "element-value", "the tuple made from it holds another value at position %d", (int)i);
                    });
                    each([&](auto i) {
                        constexpr size_t I = i;
                        if constexpr (!std::is_const_v<std::remove_reference_t<El<I>>> && std::is_lvalue_reference_v<decltype(std::get<I>(r))> && !std::is_const_v<std::remove_reference_t<decltype(std::get<I>(r))>>)
                            if ((int)I == idx) {
                                int nk = (int)(bits >> 8 & 7) % Tr<V<I>>::D;
                                put_key(std::get<I>(r), nk);
                                model<I>() = nk;
                            }
                    });
                    }
                });
            }
            break;
        case 6:
            each([&](auto i) {
                if ((int)i == idx) take<i>(bits);
            });
            break;
        case 7: // swap two elements of one type through their accessors
            if constexpr (N >= 2)
                if constexpr (std::is_same_v<El<0>, El<1>> && !hollow<El<0>> && !std::is_reference_v<El<0>>) {
                    Harness h;
                    auto *x = ptr<0>(), *y = ptr<1>();
                    if (!x || !y) return;
                    std::swap(*x, *y);
                    std::swap(key[0], key[1]);
                }
            break;
        }
        check();
    }
};
#define CCASE(name, ...) static RegIf<wanted(#name), CObj<__VA_ARGS__>> reg_##name{ 14, #name, 8 };

} // namespace sim::ut
