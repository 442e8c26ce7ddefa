// C16: enumerating packs.
#include "util.h"

#include "pigro/pack_algorithms.h"

namespace sim::ut {
struct Located { // knows where the program put it
    HVal v;
    static Slot *pending;
    explicit Located(int k) : v{ k, 1 } {
        if (pending) pending->addr = this;
        pending = nullptr;
    }
};
inline Slot *Located::pending = nullptr;
} // namespace sim::ut
namespace sim {
template<>
struct Tr<ut::Located> {
    static constexpr int D = 5;
    static ut::Located make(int k, int, u32) {
        Harness h;
        return ut::Located{ k };
    }
    static int key(const ut::Located &v) {
        Harness h;
        return v.v.read();
    }
};
} // namespace sim

namespace sim::ut {
template<class T>
T temporary(Slot &s) {
    if constexpr (std::is_same_v<T, Located>) Located::pending = &s;
    return make_key<T>(s.key);
}

template<class R>
R pack_result(int k) {
    if constexpr (!std::is_void_v<R>) return make_key<R>(k);
}
// The enumerating function. Takes its items by forwarding reference, const reference or value.
template<class R, int Take>
struct En {
    HVal cap{ make_key<HVal>(3) };
    long st = 0;
    template<class... It>
    R body(It &...it) {
        Frame *f = cur();
        {
            before_cb();
            Harness h;
            if (!f || !f->expecting) violate(PROP, "unexpected-call", "the function ran although nothing called it");
            else {
                if (++f->entered > 1) violate(PROP, "called-twice", "the function was called %d times", f->entered);
                if (key_of(cap) != 3) violate(PROP, "callable-capture", "the function's own value changed");
                if ((int)sizeof...(It) != f->n) violate(PROP, "item-count", "the function was given %d items instead of %d", (int)sizeof...(It), f->n);
                int i = 0;
                (look(it, i++, f), ...);
            }
        }
        cb(0);
        st++;
        int i = 0;
        (touch(it, i++, f), ...);
        cb(1);
        if (f) f->completed++;
        return pack_result<R>(f ? f->reskey : 0);
    }
    template<class It>
    static void look(It &it, int i, Frame *f) {
        if (i >= f->n) return;
        if ((int)it.index != i) violate(PROP, "index", "the item at position %d carries index %d", i, (int)it.index);
        int k = key_of(it.value);
        fold(mix((u64)k, i, 0x16));
        if (k != f->exp[i]->key) violate(PROP, "item-value", "item %d is value %d instead of %d", i, k, f->exp[i]->key);
        if (f->exp[i]->addr) {
            probe(PR_ALIAS);
            if (f->exp[i]->addr != (const void *)std::addressof(it.value)) violate(PROP, "item-identity", "item %d is not the caller's own object", i);
        }
    }
    template<class It>
    static void touch(It &it, int i, Frame *f) {
        using V = std::remove_reference_t<decltype(it.value)>;
        if constexpr (!std::is_const_v<V> && std::is_lvalue_reference_v<decltype(it.value)>) { // the caller's object, changed through the item
            if (!f || i >= f->n || !(f->mut >> i & 1) || !f->exp[i]->addr) return;
            if constexpr (Tr<V>::D > 1) {
                int k = (f->exp[i]->key + 1) % Tr<V>::D;
                put_key(it.value, k);
                f->exp[i]->key = k;
                cb(2 + i);
            }
        }
    }
    template<class... It>
    R operator()(It &&...it) requires(Take == 0) { return body<std::remove_reference_t<It>...>(it...); }
    template<class... It>
    R operator()(const It &...it) requires(Take == 1) { return body<const It...>(it...); }
};

template<class... Ts>
struct PObj final : UObj { // the caller's objects
    static constexpr int N = sizeof...(Ts);
    using Seq = std::index_sequence_for<Ts...>;
    template<size_t I>
    using E = std::tuple_element_t<I, std::tuple<Ts...>>;
    std::unique_ptr<std::tuple<Ts...>> d;
    Slot s[N + 1];
    static UObj *make(u64 bits) {
        auto *o = new PObj;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((o->s[I].key = (int)(bits >> (3 * I) & 7) % Tr<E<I>>::D), ...);
            o->d.reset(new std::tuple<Ts...>{ Tr<E<I>>::make(o->s[I].key, 1, 0)... });
            ((o->s[I].addr = std::is_empty_v<E<I>> ? nullptr : (const void *)std::addressof(std::get<I>(*o->d))), ...);
        }(Seq{});
        return o;
    }
    ~PObj() override {
        Harness h;
        d.reset();
    }
    template<class R, class F>
    void go(u64 bits, Slot *slots, int n, F &&call) {
        Frame *f = push(this);
        for (int i = 0; i < n; i++) f->exp[i] = &slots[i];
        f->n = n;
        f->mut = bits;
        f->expecting = true;
        f->reskey = (int)(bits >> 24 & 3);
        int rk = f->reskey, got = rk, completed = 0;
        const int live0 = W.live_vals;
        const u64 copies0 = SH->st.pk[PK_COPY];
        bool alone = W.tasks.size() == 1;
        bool typed = true;
        struct Keep {
            Frame *f;
            int &c;
            ~Keep() { c = f->completed; }
        };
        bool ok = attempt(
          this, "enumerating", [&] {
              Keep k{ f, completed };
              if constexpr (std::is_void_v<R>) {
                  call();
              } else if constexpr (std::is_void_v<decltype(call())>) {
                  call();
                  typed = false;
              } else {
                  auto r = call();
                  if constexpr (std::is_same_v<decltype(r), R>)
                      got = key_of(r);
                  else
                      typed = false;
              }
          },
          f);
        if (W.stop) return;
        if (ok && completed != 1) violate(PROP, "not-called", "enumerating returned without having called its function");
        if (!typed || got != rk) violate(PROP, "result", "the caller received result %d instead of %d", got, rk);
        if (alone && !W.nest && !(bits & 0xffff) && W.live_vals != live0) violate(PROP, "leak", "%d values were left behind by one enumeration", W.live_vals - live0);
        if (alone && !W.nest && SH->st.pk[PK_COPY] != copies0) violate(PROP, "copied", "%d values were copied by an enumeration", (int)(SH->st.pk[PK_COPY] - copies0));
        check();
    }
    void check() {
        Harness h;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((key_of(std::get<I>(*d)) == s[I].key ? (void)0 : violate(PROP, "original", "the caller's object %d is %d instead of %d", (int)I, key_of(std::get<I>(*d)), s[I].key)), ...);
        }(Seq{});
    }
    template<class R, int Take>
    void lvalues(u64 bits) {
        [&]<size_t... I>(std::index_sequence<I...>) {
            if (bits >> 40 & 1) {
                En<R, Take> e;
                go<R>(bits, s, N, [&] { return pigro::enumerate_pack(e, std::get<I>(*d)...); });
            } else
                go<R>(bits, s, N, [&] { return pigro::enumerate_pack(En<R, Take>{}, std::get<I>(*d)...); });
        }(Seq{});
    }
    template<class R, int Take>
    void consts(u64 bits) {
        probe(PR_CONSTCALL);
        [&]<size_t... I>(std::index_sequence<I...>) {
            go<R>(bits, s, N, [&] { return pigro::enumerate_pack(En<R, Take>{}, std::as_const(std::get<I>(*d))...); });
        }(Seq{});
    }
    template<class R, int Take>
    void moved(u64 bits) { // named objects offered as rvalues: still the same objects
        probe(PR_RVALUE);
        [&]<size_t... I>(std::index_sequence<I...>) {
            go<R>(bits, s, N, [&] { return pigro::enumerate_pack(En<R, Take>{}, std::move(std::get<I>(*d))...); });
        }(Seq{});
    }
    template<class R, int Take>
    void temporaries(u64 bits) {
        Slot t[N + 1];
        for (int i = 0; i < N; i++) t[i].key = s[i].key;
        probe(PR_RVALUE);
        [&]<size_t... I>(std::index_sequence<I...>) {
            go<R>(bits & ~0xffffull, t, N, [&] { return pigro::enumerate_pack(En<R, Take>{}, temporary<Ts>(t[I])...); });
        }(Seq{});
    }
    template<class R, int Take>
    void mixed(u64 bits) { // every other argument a temporary
        Slot t[N + 1];
        for (int i = 0; i < N; i++) {
            t[i] = s[i];
            if (i & 1) t[i].addr = nullptr;
        }
        [&]<size_t... I>(std::index_sequence<I...>) {
            auto pass = [&]<size_t J>(std::integral_constant<size_t, J>) -> decltype(auto) {
                if constexpr (J & 1)
                    return temporary<E<J>>(t[J]);
                else
                    return std::as_const(std::get<J>(*d));
            };
            go<R>(bits & ~0xffffull, t, N, [&] { return pigro::enumerate_pack(En<R, Take>{}, pass(std::integral_constant<size_t, I>{})...); });
        }(Seq{});
    }
    template<int M>
    void count(u64 bits) {
        Frame *f = push(this);
        int completed = 0;
        bool result = true;
        bool ok = attempt(
          this, "enumerating a count", [&] {
              auto fn = [&](auto &&...it) {
                  before_cb();
                  {
                      Harness h;
                      if (sizeof...(it) != M) violate(PROP, "item-count", "%d items instead of %d", (int)sizeof...(it), M);
                      size_t i = 0;
                      ((it.value == i && it.index == i ? (void)i++ : (void)violate(PROP, "index", "item %d of an enumerated count is %d with index %d", (int)i++, (int)it.value, (int)it.index)), ...);
                  }
                  cb(0);
                  completed++;
                  return make_key<HVal>((int)(bits & 3));
              };
              auto r = pigro::enumerate_n<M>(fn);
              if constexpr (std::is_same_v<decltype(r), HVal>)
                  result = key_of(r) == (int)(bits & 3);
              else
                  result = false;
          },
          f);
        if (ok && completed != 1) violate(PROP, "not-called", "enumerating a count called its function %d times", completed);
        if (!result) violate(PROP, "result", "the result of an enumerated count did not reach the caller");
    }
    template<size_t... I>
    void crowd(u64 bits, std::index_sequence<I...>) { // a great many of the caller's objects
        static constexpr int M = sizeof...(I);
        Frame *f = push(this);
        int v[M];
        for (int i = 0; i < M; i++) v[i] = 3 * i;
        int completed = 0;
        const int mut = (int)(bits >> 20 & 0xff);
        bool ok = attempt(
          this, "enumerating many objects", [&] {
              auto fn = [&](auto &&...it) {
                  before_cb();
                  {
                      Harness h;
                      int i = 0;
                      auto look = [&](auto &item) {
                          if ((int)item.index != i || item.value != 3 * i || (const void *)&item.value != &v[i])
                              violate(PROP, "index", "item %d of many carries index %d and value %d", i, (int)item.index, (int)item.value);
                          if (i % 256 == mut) item.value = -i - 1;
                          i++;
                      };
                      (look(it), ...);
                      if (i != M) violate(PROP, "item-count", "%d items instead of %d", i, M);
                  }
                  cb(0);
                  completed++;
              };
              pigro::enumerate_pack(fn, v[I]...);
          },
          f);
        if (ok && completed != 1) violate(PROP, "not-called", "enumerating many objects called its function %d times", completed);
        for (int i = 0; i < M && !W.stop && ok; i++)
            if (v[i] != (i % 256 == mut ? -i - 1 : 3 * i)) violate(PROP, "write-lost", "object %d is %d afterwards", i, v[i]);
    }
    void step(int verb, u64 bits) override {
        switch (verb) {
        case 0:
            if constexpr (N == 0 && !basic) {
                if ((bits >> 40 & 7) == 1) {
                    count<41>(bits);
                    break;
                }
                if (bits >> 40 & 1) {
                    count<300>(bits);
                    break;
                }
                if (bits >> 41 & 1) {
                    crowd(bits, std::make_index_sequence<270>{});
                    break;
                }
            }
            count<N>(bits);
            break;
        case 1: lvalues<HVal, 0>(bits); break;
        case 2: lvalues<void, 1>(bits); break;
        case 3: consts<int, 0>(bits); break;
        case 4: moved<HVal, 0>(bits); break;
        case 5: temporaries<HVal, 0>(bits); break;
        case 6:
            if constexpr (!basic) temporaries<MoveOnly, 1>(bits);
            break;
        case 7:
            if constexpr (!basic) mixed<HVal, 0>(bits);
            break;
        case 8:
            if constexpr (!basic) mixed<void, 1>(bits);
            break;
        case 9:
            if constexpr (!basic) lvalues<MoveOnly, 0>(bits);
            break;
        case 10: moved<int, 1>(bits); break;
        }
    }
};
#define PCASE(name, ...) static RegIf<wanted(#name), PObj<__VA_ARGS__>> reg_##name{ 16, #name, 11 };
using Str = std::string;
PCASE(p0)
PCASE(p1, HVal)
PCASE(p1_e, E1)
PCASE(p2, HVal, HVal)
PCASE(p3_loc, Located, Located, HVal)
PCASE(p2_loc, HVal, Located)
PCASE(p2_mo, MoveOnly, int)
PCASE(p3, HVal, E1, int)
PCASE(p3_same, HTVal, HTVal, HTVal)
PCASE(p4, Str, TVal, Tup2, OptVal)
PCASE(p5, int, int, int, int, int)
PCASE(p6, HVal, Val, TVal, HTVal, AVal, CVal)
PCASE(p8, HVal, HVal, HVal, HVal, HVal, HVal, HVal, HVal)
} // namespace sim::ut
