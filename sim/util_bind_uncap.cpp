#include "util_bind.h"

#include "pigro/bind_tuple.h"
#include "pigro/uncapture.h"

namespace sim::ut {
struct Unc {
    static constexpr bool owns_values = true, owns_fn = true;
    static constexpr int front(int) { return 0; }
    static constexpr bool lends = true, forwards = true;
    template<class R, class... Ts, size_t... I>
    static auto bind(Home<R, Ts...> &, const int *k, int cap, std::index_sequence<I...>) {
        return pigro::uncaptured(make_key<Ts>(k[I])...) >> Fn<R>{ cap };
    }
};
struct UncUsing { // next to everything else the library offers
    static constexpr bool owns_values = true, owns_fn = true;
    static constexpr int front(int) { return 0; }
    static constexpr bool lends = true, forwards = true;
    template<class R, class... Ts, size_t... I>
    static auto bind(Home<R, Ts...> &, const int *k, int cap, std::index_sequence<I...>) {
        using namespace pigro;
        return uncaptured(make_key<Ts>(k[I])...) >> Fn<R>{ cap };
    }
};
struct UncChain {
    static constexpr bool owns_values = true, owns_fn = true;
    static constexpr int front(int) { return 0; }
    static constexpr bool lends = true, forwards = true;
    template<class R, class A, class... Ts, size_t I, size_t... J>
    static auto bind(Home<R, A, Ts...> &, const int *k, int cap, std::index_sequence<I, J...>) {
        return pigro::uncaptured(make_key<A>(k[0])) >> (pigro::uncaptured(make_key<Ts>(k[J])...) >> Fn<R>{ cap });
    }
};
struct UncLv { // the originals stay what they are
    static constexpr bool owns_values = true, owns_fn = true;
    static constexpr int front(int) { return 0; }
    static constexpr bool lends = true, forwards = true;
    template<class R, class... Ts, size_t... I>
    static auto bind(Home<R, Ts...> &h, const int *k, int cap, std::index_sequence<I...>) {
        return pigro::uncaptured(std::get<I>(h.t)...) >> h.f;
    }
};
struct UncRefFn { // the callable stays its owner's
    static constexpr bool owns_values = true, owns_fn = false;
    static constexpr int front(int) { return 0; }
    static constexpr bool lends = true, forwards = true;
    template<class R, class... Ts, size_t... I>
    static auto bind(Home<R, Ts...> &h, const int *k, int, std::index_sequence<I...>) {
        return pigro::uncaptured(make_key<Ts>(k[I])...) >> std::ref(h.f);
    }
};
struct UncRefVals { // the values stay their owner's
    static constexpr bool owns_values = false, owns_fn = true;
    static constexpr int front(int) { return 0; }
    static constexpr bool lends = true, forwards = true;
    template<class R, class... Ts, size_t... I>
    static auto bind(Home<R, Ts...> &h, const int *, int cap, std::index_sequence<I...>) {
        return pigro::uncaptured(std::ref(std::get<I>(h.t))...) >> FnU<R>{ cap };
    }
};
using Str = std::string;
BCASE(unc_1, Unc, HVal, HVal)
BCASE(unc_2, Unc, HVal &, HVal, int)
BCASE(unc_3, Unc, int, TVal, E1, Str)
BCASE(unc_3_same, Unc, MoveOnly, HVal, HVal, HVal)
BCASE(unc_4, Unc, void, int, HTVal, E2, Val)
BCASE(unc_empty, Unc, HVal, E1)
BCASE(unc_nested, Unc, HVal, Tup2, OptVal)
BCASE(unc_chain_2, UncChain, HVal, HVal, int)
BCASE(unc_chain_3, UncChain, HVal, HVal, HVal, TVal)
BCASE(unc_using, UncUsing, HVal, HVal, int)
BCASE(unc_using_1, UncUsing, int, HVal)
BCASE(unc_lv_1, UncLv, HVal, HVal)
BCASE(unc_lv_2, UncLv, int, HVal, Str)
BCASE(unc_reffn, UncRefFn, HVal, HVal, int)
BCASE(unc_refvals, UncRefVals, HVal, HVal, int)
} // namespace sim::ut
