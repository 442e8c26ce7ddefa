#include "util_ctuple.h"

namespace sim::ut {
using Str = std::string;
CCASE(c4_throwing, HTVal, TVal, HTVal, TVal)
CCASE(c4_eve, E1, HVal, E2, Str)
CCASE(c5_eee, E1, E1, E2, HVal, E2)
CCASE(c5_align, char, AVal, char, double, bool)
CCASE(c6_mix, HVal, HVal, E3, int, HVal &, HVal)
CCASE(c8_many, Val, HVal, TVal, HTVal, int, Str, E1, Val)
CCASE(c10_many, int, HVal, E1, HVal, TVal, int, HVal &, E2, HVal, HTVal)
CCASE(c12_same, int, int, int, int, int, int, int, int, int, int, int, int)
CCASE(c3_tup, Tup2, PairVal, OptVal)
CCASE(c3_fn, VecVal, Big, bool)
CCASE(c2_cref, const HVal &, int)
} // namespace sim::ut
