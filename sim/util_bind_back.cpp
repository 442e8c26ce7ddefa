#include "util_bind.h"

#include "pigro/overload.h"
#include "pigro/recursive.h"
#include "pigro/bind_tuple.h"
#include "pigro/compressed_tuple.h"

namespace sim::ut {

struct BB {
    static constexpr int front(int) { return 0; }
    static constexpr bool lends = true, forwards = true;
};
#define BSTYLE(name, vals, fn, ...) \
    struct name : BB { \
        static constexpr bool owns_values = vals, owns_fn = fn; \
        template<class R, class... Ts, size_t... I> \
        static auto bind(Home<R, Ts...> &h, const int *k, int cap, std::index_sequence<I...>) { __VA_ARGS__ } \
    };
BSTYLE(Back, true, true, return pigro::bind_back(Fn<R>{ cap }, make_key<Ts>(k[I])...);)
BSTYLE(BackLv, false, false, return pigro::bind_back(h.f, std::get<I>(h.t)...);)
BSTYLE(BackLvVals, false, true, return pigro::bind_back(Fn<R>{ cap }, std::get<I>(h.t)...);)
struct BBConst : BB {
    static constexpr bool constant = true;
};
#define BB BBConst
BSTYLE(BackConst, false, true, return pigro::bind_back(Fn<R>{ cap }, std::as_const(std::get<I>(h.t))...);)
#undef BB
BSTYLE(BackLvFn, true, false, return pigro::bind_back(h.f, make_key<Ts>(k[I])...);)

BSTYLE(BackRefFn, true, false, return pigro::bind_back(std::ref(h.f), make_key<Ts>(k[I])...);)
BSTYLE(BackRefVals, false, true, return pigro::bind_back(FnU<R>{ cap }, std::ref(std::get<I>(h.t))...);)

// bound in front and at the back, one inside the other
template<bool FrontOuter>
struct Nest {
    static constexpr bool copies_args = true;
    static constexpr bool owns_values = true, owns_fn = true;
    static constexpr int front(int) { return 1; }
    template<class R, class A, class C, size_t... I>
    static auto bind(Home<R, A, C> &, const int *k, int cap, std::index_sequence<I...>) {
        if constexpr (FrontOuter)
            return pigro::operator>>(std::tuple<A>{ make_key<A>(k[0]) }, pigro::operator<<(std::tuple<C>{ make_key<C>(k[1]) }, Fn<R>{ cap }));
        else
            return pigro::operator<<(std::tuple<C>{ make_key<C>(k[1]) }, pigro::operator>>(std::tuple<A>{ make_key<A>(k[0]) }, Fn<R>{ cap }));
    }
};
// bound at the back twice: the inner values come last
struct NestBack {
    static constexpr bool copies_args = true;
    static constexpr bool owns_values = true, owns_fn = true;
    static constexpr int front(int) { return 0; }
    template<class R, class A, class C, size_t... I>
    static auto bind(Home<R, A, C> &, const int *k, int cap, std::index_sequence<I...>) {
        return pigro::bind_back(pigro::bind_back(Fn<R>{ cap }, make_key<C>(k[1])), make_key<A>(k[0]));
    }
};

using Str = std::string;
BCASE(back_0, Back, HVal)
BCASE(back_1, Back, int, HVal)
BCASE(back_2, Back, HVal &, HVal, int)
BCASE(back_4, Back, HVal, E1, TVal, Str, HTVal)
BCASE(back_mo, Back, MoveOnly, MoveOnly)
BCASE(back_nested, Back, void, Tup2, OptVal)
BCASE(backlv_2, BackLv, HVal, HVal, int)
BCASE(backlv_ref, BackLv, HVal &, TVal)
BCASE(backlvvals, BackLvVals, int, HVal, Str)
BCASE(backconst, BackConst, HVal, HVal, int)
BCASE(backlvfn, BackLvFn, HVal, HVal, int)
BCASE(nest_front_outer, Nest<true>, HVal, HVal, int)
BCASE(nest_back_outer, Nest<false>, HVal, int, HVal)
BCASE(nest_back_back, NestBack, HVal, HVal, HVal)
BCASE(backreffn, BackRefFn, HVal, HVal, int)
BCASE(backrefvals, BackRefVals, HVal, HVal, Str)
} // namespace sim::ut
