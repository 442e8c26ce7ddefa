#include "util_ctuple.h"

namespace sim::ut {
using Str = std::string;
CCASE(c0, int)
CCASE(c1_val, HVal)
CCASE(c1_empty, E1)
CCASE(c1_ref, HVal &)
CCASE(c2_same, HVal, HVal)
CCASE(c2_int, int, int)
CCASE(c2_ev, E1, HVal)
CCASE(c2_ve, TVal, E1)
CCASE(c2_ee, E1, E1)
CCASE(c3_mix, HVal, E1, HTVal)
CCASE(c3_sames, int, int, int)
CCASE(c3_refs, HVal &, int, Str &)
CCASE(c3_mo, MoveOnly, int, E2)
} // namespace sim::ut
