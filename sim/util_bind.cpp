#include "util_bind.h"

#include "pigro/overload.h"
#include "pigro/recursive.h"
#include "pigro/bind_tuple.h"
#include "pigro/compressed_tuple.h"

namespace sim::ut {

struct Lends {
    static constexpr bool lends = true;
};
struct Copies {};
struct NotKonst {};
struct Konst {
    static constexpr bool constant = true;
};
template<bool Front>
struct Dir : std::conditional_t<Front, Lends, Copies> {
    static constexpr int front(int n) { return Front ? n : 0; }
    template<class T, class F>
    static auto tie(T &&t, F &&f) {
        if constexpr (Front)
            return pigro::operator>>(std::forward<T>(t), std::forward<F>(f));
        else
            return pigro::operator<<(std::forward<T>(t), std::forward<F>(f));
    }
};
#define STYLE(name, vals, fn, ...) \
    template<bool Front> \
    struct name : Dir<Front>, std::conditional_t<std::string_view(#name).starts_with('C') && std::string_view(#name) != "CTup", Konst, NotKonst> { \
        static constexpr bool owns_values = vals, owns_fn = fn; \
        template<class R, class... Ts, size_t... I> \
        static auto bind(Home<R, Ts...> &h, const int *k, int cap, std::index_sequence<I...>) { __VA_ARGS__ } \
    };
STYLE(Tup, true, true, return Dir<Front>::tie(std::tuple<Ts...>{ make_key<Ts>(k[I])... }, Fn<R>{ cap });)
STYLE(CTup, true, true, return Dir<Front>::tie(pigro::compressed_tuple<Ts...>{ make_key<Ts>(k[I])... }, Fn<R>{ cap });)
STYLE(Pair, true, true, return Dir<Front>::tie(std::pair<Ts...>{ make_key<Ts>(k[I])... }, Fn<R>{ cap });)
STYLE(Arr, true, true, return Dir<Front>::tie(std::array<std::tuple_element_t<0, std::tuple<Ts...>>, sizeof...(Ts)>{ make_key<Ts>(k[I])... }, Fn<R>{ cap });)
STYLE(LvTupFn, false, false, return Dir<Front>::tie(h.t, h.f);)
STYLE(LvTup, false, true, return Dir<Front>::tie(h.t, Fn<R>{ cap });)
STYLE(ConstTup, false, true, return Dir<Front>::tie(std::as_const(h.t), Fn<R>{ cap });)
STYLE(LvFn, true, false, return Dir<Front>::tie(std::tuple<Ts...>{ make_key<Ts>(k[I])... }, h.f);)
STYLE(RefTup, false, true, return Dir<Front>::tie(std::tuple<Ts &...>{ std::get<I>(h.t)... }, Fn<R>{ cap });)
STYLE(TieTup, false, false, return Dir<Front>::tie(std::tie(std::get<I>(h.t)...), h.f);)
STYLE(CRefTup, false, true, return Dir<Front>::tie(std::tuple<const Ts &...>{ std::get<I>(h.t)... }, Fn<R>{ cap });)
STYLE(LvCopyFn, true, true, { auto t = std::tuple<Ts...>{ make_key<Ts>(k[I])... }; Fn<R> f{ cap }; return Dir<Front>::tie(std::move(t), std::move(f)); })
STYLE(RefFn, true, false, return Dir<Front>::tie(std::tuple<Ts...>{ make_key<Ts>(k[I])... }, std::ref(h.f));)
STYLE(RefVals, false, true, return Dir<Front>::tie(std::tuple{ std::ref(std::get<I>(h.t))... }, FnU<R>{ cap });)

using Str = std::string;
BCASE(tup_front_0, Tup<true>, int)
BCASE(tup_front_1, Tup<true>, HVal, HVal)
BCASE(tup_front_3, Tup<true>, HVal, Val, int, HVal)
BCASE(tup_front_5, Tup<true>, HVal &, HVal, E1, TVal, Str, HTVal)
BCASE(tup_front_mo, Tup<true>, MoveOnly, MoveOnly, int)
BCASE(tup_front_nested, Tup<true>, void, Tup2, PairVal, OptVal)
BCASE(tup_back_0, Tup<false>, int)
BCASE(tup_back_1, Tup<false>, HVal &, HVal)
BCASE(tup_back_3, Tup<false>, HVal, Val, int, HVal)
BCASE(tup_back_5, Tup<false>, int, HVal, E1, TVal, Str, HTVal)
BCASE(tup_back_mo, Tup<false>, MoveOnly, MoveOnly, int)
BCASE(tup_back_same, Tup<false>, void, HVal, HVal, HVal)
BCASE(ct_front, CTup<true>, HVal, HVal, E1, int)
BCASE(ct_front_same, CTup<true>, HVal &, HVal, HVal)
BCASE(ct_back, CTup<false>, HVal, TVal, Str)
BCASE(ct_back_3, CTup<false>, int, E1, HTVal, E2)
BCASE(pair_front, Pair<true>, int, HVal, Str)
BCASE(pair_back, Pair<false>, HVal, TVal, int)
BCASE(arr_front, Arr<true>, int, HVal, HVal, HVal)
BCASE(arr_back, Arr<false>, void, int, int)
BCASE(lvtupfn_front, LvTupFn<true>, HVal, HVal, int)
BCASE(lvtupfn_back, LvTupFn<false>, HVal &, HVal, int)
BCASE(lvtup_front, LvTup<true>, int, TVal, Str)
BCASE(lvtup_back, LvTup<false>, HVal, TVal, Str)
BCASE(consttup_front, ConstTup<true>, HVal, HVal, int)
BCASE(consttup_back, ConstTup<false>, int, HVal, int)
BCASE(lvfn_front, LvFn<true>, HVal, HVal, int)
BCASE(lvfn_back, LvFn<false>, HVal, HVal, int)
BCASE(reftup_front, RefTup<true>, HVal, HVal, int)
BCASE(reftup_back, RefTup<false>, int, HVal, Str)
BCASE(tietup_front, TieTup<true>, void, HVal, HVal)
BCASE(tietup_back, TieTup<false>, HVal, HVal, HVal)
BCASE(creftup_front, CRefTup<true>, HVal, HVal, int)
BCASE(moved_front, LvCopyFn<true>, HVal, HVal, HTVal)
BCASE(moved_back, LvCopyFn<false>, HVal, HTVal, HVal)
BCASE(reffn_front, RefFn<true>, HVal, HVal, int)
BCASE(reffn_back, RefFn<false>, HVal &, HVal, Str)
BCASE(refvals_front, RefVals<true>, HVal, HVal, int)
BCASE(refvals_back, RefVals<false>, int, HVal, Str)
} // namespace sim::ut
