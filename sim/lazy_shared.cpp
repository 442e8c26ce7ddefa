#include "lazy_shared.h"
#include "lazy_rt.h"

#include <functional>
#include <optional>
#include <pigro/lazy.h>

namespace sim::lz {
template<int N, class R>
struct GF {
    GraphLog *g;
    auto operator()(const auto &...a) const -> R {
        Harness h;
        const int keys[] = { Tr<std::remove_cvref_t<decltype(a)>>::key(a)... };
        constexpr int n = (int)sizeof...(a);
        auto &f = g->fn[N];
        if (!g->calling) violate(P(11), "ran-outside-call", "a wrapped function ran although no lazy function was being called");
        f.runs++;
        bool same = f.n == n;
        for (int i = 0; i < n; i++) {
            fold(mix((u64)N, (u64)(u32)keys[i], i));
            if (keys[i] < 0) f.altered = true;
            if (same && keys[i] != f.last[i]) same = false;
        }
        if (same) f.needless = true;
        point_forced(PK_FN_IN, -1);
        if constexpr (std::is_void_v<R>) {
            point_forced(PK_FN_OUT, -1);
            f.n = n;
            for (int i = 0; i < n; i++) f.last[i] = keys[i];
        } else {
            R r = Tr<R>::make(graph_key(N, f.D, keys, n), -1, 0);
            point_forced(PK_FN_OUT, -1);
            f.n = n;
            for (int i = 0; i < n; i++) f.last[i] = keys[i];
            return r;
        }
    }
};
template<int N, class R>
struct GS {
    GraphLog *g;
    R operator()() const {
        Harness h;
        if (!g->calling) violate(P(11), "ran-outside-call", "a dependency ran although no lazy function was being called");
        g->src[N]++;
        point_forced(PK_SRC_IN, -1);
        R r = Tr<R>::make(g->cells[N] % g->sd[N], -1, 0);
        point_forced(PK_SRC_OUT, -1);
        return r;
    }
};
// given by std::ref: its owner changes it between calls
struct OwnSrc {
    GraphLog *g;
    int cell = 0;
    long asked = 0;
    int operator()() {
        Harness h;
        if (!g->calling) violate(P(11), "ran-outside-call", "a dependency ran although no lazy function was being called");
        g->src[2]++;
        g->asked++;
        asked++;
        point_forced(PK_SRC_IN, -1);
        const int k = cell;
        point_forced(PK_SRC_OUT, -1);
        return Tr<int>::make(k, -1, 0);
    }
};
template<class R>
struct OwnFn {
    GF<2, R> f;
    long runs = 0;
    auto operator()(const auto &...a) -> R {
        runs++;
        f.g->own_runs++;
        return f(a...);
    }
};
template<class S, class T>
auto mk_s(GraphLog *g) { return pigro::lazy(GF<0, S>{ g }, GS<0, int>{ g }, GS<1, T>{ g }); }
inline auto mk_v(GraphLog *g) { return pigro::lazy(GF<5, void>{ g }, GS<0, int>{ g }); }
template<class T>
auto mk_a(GraphLog *g, auto &s, OwnSrc &o) { return pigro::lazy(GF<1, T>{ g }, std::ref(s), std::ref(o)); }
template<class S>
auto mk_b(OwnFn<S> &f, auto &s) { return pigro::lazy(std::ref(f), Tr<int>::make(1, -1, 0), std::ref(s)); }
template<class T>
auto mk_c(GraphLog *g, auto &a, auto &s, auto &b) { return pigro::lazy(GF<3, T>{ g }, std::ref(a), std::ref(s), std::ref(b)); }
inline auto mk_d(GraphLog *g, auto &s, auto &v) {
    return pigro::lazy(GF<4, int>{ g }, [&s] { return s(); }, std::ref(v));
}

template<class S, class T>
struct Graph final : AnyGraph {
    decltype(mk_s<S, T>(nullptr)) s;
    decltype(mk_v(nullptr)) v;
    OwnSrc osrc{ &log };
    OwnFn<S> ofn{ { &log } };
    decltype(mk_a<T>(nullptr, s, osrc)) a;
    decltype(mk_b<S>(ofn, s)) b;
    decltype(mk_c<T>(nullptr, a, s, b)) c;
    decltype(mk_d(nullptr, s, v)) d;
    std::optional<decltype(a)> a2;
    Graph() : s{ mk_s<S, T>(&log) }, v{ mk_v(&log) }, a{ mk_a<T>(&log, s, osrc) }, b{ mk_b<S>(ofn, s) }, c{ mk_c<T>(&log, a, s, b) }, d{ mk_d(&log, s, v) } {
        auto few = [](int D) { return D < 3 ? D : 3; };
        log.sd[0] = log.sd[2] = 3;
        log.sd[1] = few(Tr<T>::D);
        log.fn[0].D = log.fn[2].D = few(Tr<S>::D);
        log.fn[1].D = log.fn[3].D = few(Tr<T>::D);
        log.fn[4].D = 3;
    }
    template<class L>
    static int get(L &l) {
        Lib lib;
        if constexpr (std::is_void_v<decltype(l())>) {
            l();
            return 0;
        } else {
            decltype(auto) r = l();
            Harness h;
            return Tr<std::remove_cvref_t<decltype(r)>>::key(r);
        }
    }
    int call(int which) override {
        osrc.cell = log.cells[2] % log.sd[2];
        switch (which) {
        case 0: return get(s);
        case 1: return get(a);
        case 2: return get(b);
        case 3: return get(c);
        case 4: return get(d);
        case 5: return get(v);
        }
        return a2 ? get(*a2) : get(a);
    }
    bool own() const override { return osrc.asked == log.asked && ofn.runs == log.own_runs; }
    bool two = false;
    void copy() override {
        two = true;
        Lib lib;
        a2.reset();
        a2.emplace(a);
    }
    bool copied() const override { return two; }
};
template<class S, class T>
static AnyGraph *make() {
    Lib lib;
    return new Graph<S, T>;
}
static const int registered = [] {
    for (MakeGraph m : { make<int, int>, make<HVal, std::string>, make<std::string, TVal>, make<OptVal, HVal>, make<CVal, VecVal> }) graphs().push_back(m);
    return 0;
}();
} // namespace sim::lz
