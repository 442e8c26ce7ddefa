// Instrumented and adversarial value types that travel through the library.
#pragma once
#include "core.h"

#include <array>
#include <climits>
#include <cmath>
#include <complex>
#include <map>
#include <optional>
#include <string_view>
#include <tuple>
#include <variant>

namespace sim {

inline constexpr u32 VLIVE = 0x11fe11fe, VDEAD = 0xdeaddead;
inline constexpr u32 MEMPROPS = P(10) | P(13) | P(14) | P(15) | P(16) | P(17) | P(19) | P(21) | P(23) | P(24);

// flavours
enum { VF_HEAP = 1, VF_TMOVE = 2, VF_COARSE = 4, VF_ALIGN = 8, VF_ASSIGNTHROW = 16 };

template<int Fl>
struct alignas((Fl & VF_ALIGN) ? 64 : 8) BVal {
    u32 magic;
    i16 node; // provenance
    i16 k;    // value; -2 moved from
    u32 rep;  // representation, ignored by == when coarse
    const BVal *self;
    int *heap = nullptr;

    BVal(int k_, int node_, u32 rep_ = 0) : magic{ VLIVE }, node{ (i16)node_ }, k{ (i16)k_ }, rep{ rep_ }, self{ this } {
        if constexpr (Fl & VF_HEAP) heap = new int(k_);
        live_add(1);
    }
    bool alive(const char *what) const {
        const volatile u32 *m = &magic;
        if (*m == VLIVE && self == this) return true;
        violate(MEMPROPS, "dead-value", "a value that is %s was %s", *m == VDEAD ? "already destroyed" : "not alive at this address", what);
        return false;
    }
    void take(const BVal &o) {
        magic = VLIVE;
        node = o.node;
        k = o.k;
        rep = o.rep;
        self = this;
    }
    BVal(const BVal &o) {
        o.alive("copied");
        point(PK_COPY, o.node);
        if constexpr (Fl & VF_HEAP) heap = o.heap ? new int(*o.heap) : nullptr;
        take(o);
        live_add(1);
    }
    BVal(BVal &&o) noexcept(!(Fl & VF_TMOVE)) {
        o.alive("moved");
        point(PK_MOVE, o.node, (Fl & VF_TMOVE) != 0);
        take(o);
        heap = o.heap;
        o.heap = nullptr;
        o.k = -2;
        live_add(1);
    }
    BVal &operator=(const BVal &o) {
        o.alive("copy-assigned from");
        alive("assigned to");
        point(PK_ASSIGN, o.node);
        if constexpr (Fl & VF_HEAP) {
            int *n = o.heap ? new int(*o.heap) : nullptr;
            delete heap;
            heap = n;
        }
        take(o);
        return *this;
    }
    BVal &operator=(BVal &&o) noexcept(!(Fl & VF_TMOVE)) {
        o.alive("move-assigned from");
        alive("assigned to");
        point(PK_ASSIGN, o.node, (Fl & VF_TMOVE) != 0);
        if (this == &o) return *this;
        take(o);
        if constexpr (Fl & VF_HEAP) {
            delete heap;
            heap = o.heap;
            o.heap = nullptr;
        }
        o.k = -2;
        return *this;
    }
    ~BVal() {
        if (!alive("destroyed")) return;
        live_add(-1);
        if constexpr (Fl & VF_HEAP) delete heap;
        volatile u32 *m = &magic;
        *m = VDEAD;
        heap = (int *)0x10;
    }
    friend bool operator==(const BVal &a, const BVal &b) {
        a.alive("compared");
        b.alive("compared");
        point(PK_EQ, a.node);
        if (on_eq && tl_harness == 0) on_eq(a.node, b.node);
        if constexpr (Fl & VF_COARSE)
            return a.k == b.k;
        else
            return a.k == b.k && a.rep == b.rep;
    }
    int read() const {
        if (!alive("read")) return -9;
        if constexpr (Fl & VF_HEAP)
            if (k != -2 && (!heap || *heap != k)) return -8;
        return k;
    }
};

using Val = BVal<0>;
using HVal = BVal<VF_HEAP>;
using TVal = BVal<VF_TMOVE>;
using HTVal = BVal<VF_HEAP | VF_TMOVE>;
using CVal = BVal<VF_COARSE>;
using AVal = BVal<VF_ALIGN>;

enum class Color : u8 { red, green, blue, c4 = 200 };
struct Unit {
    bool operator==(const Unit &) const = default;
};
struct Unit2 {
    friend bool operator==(Unit2, Unit2) { return true; }
};
struct Padded { // bytes of padding differ between equal values
    char c;
    int i;
    bool b;
    bool operator==(const Padded &o) const { return c == o.c && i == o.i && b == o.b; }
};
struct Big {
    std::array<int, 64> v{};
    bool operator==(const Big &) const = default;
};
struct CIString { // equality ignores case
    std::string s;
    static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
    friend bool operator==(const CIString &a, const CIString &b) {
        if (a.s.size() != b.s.size()) return false;
        for (size_t i = 0; i < a.s.size(); i++)
            if (low(a.s[i]) != low(b.s[i])) return false;
        return true;
    }
};
struct NoDefault {
    int x;
    explicit NoDefault(int v) : x{ v } {}
    bool operator==(const NoDefault &) const = default;
};
struct Wide { // implicitly convertible to bool and int
    int x;
    operator bool() const { return false; }
    bool operator==(const Wide &o) const { return x == o.x; }
};

struct Json { // in braces, a list of one: Json{ x } is not x
    int v = 0, depth = 0;
    Json() = default;
    explicit Json(int v_, int d) : v{ v_ }, depth{ d } {}
    Json(std::initializer_list<Json> l) : v{ l.size() ? l.begin()->v : 0 }, depth{ l.size() ? l.begin()->depth + 1 : 0 } {}
    Json(const Json &) = default;
    Json &operator=(const Json &) = default;
    friend bool operator==(const Json &a, const Json &b) { return a.v == b.v && a.depth == b.depth; }
};
struct BoolLike { // what some comparisons return
    bool b;
    operator bool() const { return b; }
    BoolLike operator!() const { return { !b }; }
};
struct Hostile { // operators that mean something else
    int v;
    Hostile *operator&() const = delete;
    template<class T>
    void operator,(T &&) const = delete;
    friend BoolLike operator==(const Hostile &a, const Hostile &b) { return { a.v == b.v }; }
    friend BoolLike operator!=(const Hostile &a, const Hostile &b) { return { a.v != b.v }; }
};
struct Greedy { // converts from anything
    int v = 0;
    Greedy() = default;
    template<class T>
        requires(!std::same_as<std::remove_cvref_t<T>, Greedy> && std::copy_constructible<std::remove_cvref_t<T>>)
    Greedy(T &&x) : v{ -100 } {
        if constexpr (std::same_as<std::remove_cvref_t<T>, int>) v = x;
    }
    friend bool operator==(const Greedy &a, const Greedy &b) { return a.v == b.v; }
};
struct Meas { // looks like the library's own record
    int value;
    bool is_changed;
    bool operator==(const Meas &) const = default;
};
struct NoMove { // a move leaves the source as it was and takes nothing along but a copy; not noexcept
    std::string s;
    NoMove() = default;
    explicit NoMove(std::string t) : s{ std::move(t) } {}
    NoMove(const NoMove &) = default;
    NoMove &operator=(const NoMove &) = default;
    friend bool operator==(const NoMove &a, const NoMove &b) { return a.s == b.s; }
};

// ---- traits: k in [0,D) <-> value; key() is the equality class, -1 = not one of ours ----
template<class T>
struct Tr {
    static constexpr int D = 1;
    static T make(int, int, u32) { return T{}; }
    static int key(const T &) { return std::is_empty_v<T> ? 0 : -3; }
};
template<class T, class Tab>
struct TabTr {
    static constexpr int D = Tab::D;
    static T make(int k, int, u32) {
        Harness h;
        auto &t = Tab::get();
        Counted c;
        return t[(size_t)k];
    }
    static int key(const T &v) {
        Harness h;
        auto &t = Tab::get();
        for (int i = 0; i < D; i++)
            if (t[(size_t)i] == v) return i;
        return -1;
    }
};
#define SIM_TR(N, CNT, T, ...) \
    struct Tab_##N { \
        using V = T; \
        static const std::vector<V> &get() { \
            static const std::vector<V> *t = [] { Harness h; return new std::vector<V> __VA_ARGS__; }(); \
            return *t; \
        } \
        static constexpr int D = CNT; \
    }; \
    template<> \
    struct Tr<T> : TabTr<T, Tab_##N> {};

using PairII = std::pair<int, int>;
using PairSI = std::pair<std::string, int>;
using Tup1 = std::tuple<int>;
using Tup2 = std::tuple<int, int>;
using TupN = std::tuple<std::tuple<int>, std::string>;
using VecI = std::vector<int>;
using VecS = std::vector<std::string>;
using Arr3 = std::array<int, 3>;
using OptI = std::optional<int>;
using OptOpt = std::optional<std::optional<int>>;
using VarIS = std::variant<int, std::string>;
using MapII = std::map<int, int>;
using Cplx = std::complex<double>;
using SPtr = std::shared_ptr<int>;
using IPtr = const int *;
using CPtr = const char *;
using SView = std::string_view;
using ULong = unsigned long;
using LLong = long long;
using LDbl = long double;
inline const int ptr_targets[4] = { 7, 7, 7, 8 };
inline char cbuf_a[] = "same", cbuf_b[] = "same", cbuf_c[] = "sane";

SIM_TR(int, 7, int, { 0, 1, -1, INT_MAX, INT_MIN, 256, 65536 })
SIM_TR(llong, 5, LLong, { 1ll, 1ll + (1ll << 32), 1ll + (1ll << 40), -1ll, LLONG_MIN })
SIM_TR(ulong, 4, ULong, { 0ul, ~0ul, 1ul << 63, 1ul << 31 })
SIM_TR(short, 3, short, { (short)0, (short)256, (short)-1 })
SIM_TR(char, 4, char, { '\0', 'a', '\xff', 'A' })
SIM_TR(color, 4, Color, { Color::red, Color::green, Color::blue, Color::c4 })
SIM_TR(float, 4, float, { 1.0f, 1.0000001f, 1.4e-45f, 3.4e38f })
SIM_TR(ldbl, 3, LDbl, { 1.0L, 1.0L + 1e-18L, -2.5L })
SIM_TR(string, 7, std::string, { "", "a", "b", std::string("a\0b", 3), std::string("a\0c", 3), "a long string well beyond any small buffer: 1", "a long string well beyond any small buffer: 2" })
SIM_TR(sview, 3, SView, { SView("one"), SView("one", 2), SView("two") })
SIM_TR(opti, 4, OptI, { OptI{}, OptI{ 0 }, OptI{ 1 }, OptI{ -1 } })
SIM_TR(optopt, 3, OptOpt, { OptOpt{}, OptOpt{ OptI{} }, OptOpt{ OptI{ 5 } } })
SIM_TR(pairii, 4, PairII, { { 0, 0 }, { 0, 1 }, { 1, 0 }, { 1, 1 } })
SIM_TR(pairsi, 3, PairSI, { { "k", 0 }, { "k", 1 }, { "a longer key than fits in place", 0 } })
SIM_TR(tup1, 3, Tup1, { Tup1{ 0 }, Tup1{ 1 }, Tup1{ -1 } })
SIM_TR(tup2, 4, Tup2, { Tup2{ 0, 0 }, Tup2{ 0, 1 }, Tup2{ 1, 0 }, Tup2{ 2, 2 } })
SIM_TR(tupn, 3, TupN, { TupN{ Tup1{ 0 }, "x" }, TupN{ Tup1{ 0 }, "y" }, TupN{ Tup1{ 1 }, "x" } })
SIM_TR(veci, 6, VecI, { VecI{}, VecI{ 0 }, VecI{ 1, 2 }, VecI{ 2, 1 }, VecI(40, 1), VecI{ 1 } })
SIM_TR(vecs, 3, VecS, { VecS{}, VecS{ "p", "q" }, VecS{ "p", "a string that does not fit in place" } })
SIM_TR(arr3, 4, Arr3, { Arr3{ 0, 0, 0 }, Arr3{ 0, 0, 1 }, Arr3{ 0, 1, 0 }, Arr3{ 1, 0, 0 } })
SIM_TR(varis, 4, VarIS, { VarIS{ 0 }, VarIS{ 1 }, VarIS{ std::string{} }, VarIS{ std::string{ "v" } } })
SIM_TR(mapii, 3, MapII, { MapII{}, MapII{ { 1, 2 } }, MapII{ { 1, 3 } } })
SIM_TR(iptr, 4, IPtr, { nullptr, &ptr_targets[0], &ptr_targets[1], &ptr_targets[3] })
SIM_TR(cptr, 3, CPtr, { cbuf_a, cbuf_b, cbuf_c })
SIM_TR(nodef, 3, NoDefault, { NoDefault{ 0 }, NoDefault{ 1 }, NoDefault{ 2 } })
SIM_TR(wide, 3, Wide, { Wide{ 0 }, Wide{ 1 }, Wide{ 2 } })
SIM_TR(cplx, 3, Cplx, { Cplx{ 0, 0 }, Cplx{ 0, 1 }, Cplx{ 1, 0 } })
using VecB = std::vector<bool>;
using Tup0 = std::tuple<>;
using RefI = std::reference_wrapper<const int>;
SIM_TR(json, 4, Json, { Json(0, 0), Json(1, 0), Json(0, 1), Json(1, 2) })
SIM_TR(vecb, 4, VecB, { VecB{}, VecB(1, false), VecB(1, true), VecB(70, true) })
SIM_TR(meas, 4, Meas, { Meas{ 0, false }, Meas{ 0, true }, Meas{ 1, false }, Meas{ 1, true } })
SIM_TR(nomove, 4, NoMove, { NoMove{ "" }, NoMove{ "m" }, NoMove{ "a string that does not fit in place: 1" }, NoMove{ "a string that does not fit in place: 2" } })
template<>
struct Tr<Hostile> {
    static constexpr int D = 4;
    static Hostile make(int k, int, u32) { return Hostile{ k + 3 }; }
    static int key(const Hostile &h) { return h.v - 3; }
};
template<>
struct Tr<Greedy> {
    static constexpr int D = 4;
    static Greedy make(int k, int, u32) { return Greedy(k); }
    static int key(const Greedy &g) { return g.v; }
};
template<>
struct Tr<Tup0> {
    static constexpr int D = 1;
    static Tup0 make(int, int, u32) { return {}; }
    static int key(const Tup0 &) { return 0; }
};
template<>
struct Tr<RefI> { // equal when what they refer to is
    static constexpr int D = 2;
    static RefI make(int k, int, u32 rep) { return ptr_targets[k ? 3 : rep & 1]; }
    static int key(const RefI &r) { return r.get() == 7 ? 0 : r.get() == 8 ? 1 : -1; }
};
template<>
struct Tr<std::nullptr_t> {
    static constexpr int D = 1;
    static std::nullptr_t make(int, int, u32) { return nullptr; }
    static int key(std::nullptr_t) { return 0; }
};
template<>
struct Tr<bool> {
    static constexpr int D = 2;
    static bool make(int k, int, u32) { return k == 1; }
    static int key(bool v) { return v ? 1 : 0; }
};
template<>
struct Tr<double> {
    static constexpr int D = 6;
    static double tab(int k) {
        static const double t[] = { 0.0, 0.25, 0.75, 1.0, 1.0000000000000002, 1e-300 };
        return t[k];
    }
    static double make(int k, int, u32 rep) { return k == 0 && (rep & 1) ? -0.0 : tab(k); } // -0.0 == 0.0
    static int key(double v) {
        for (int i = 0; i < D; i++)
            if (tab(i) == v) return i;
        return -1;
    }
};
template<>
struct Tr<Padded> {
    static constexpr int D = 4;
    static Padded make(int k, int, u32 rep) {
        Padded p;
        memset((void *)&p, (int)(rep & 0xff), sizeof p);
        p.c = (char)(k & 1);
        p.i = k == 3 ? 1 << 20 : 0;
        p.b = k >= 2;
        return p;
    }
    static int key(const Padded &p) {
        for (int k = 0; k < D; k++)
            if (make(k, 0, 0) == p) return k;
        return -1;
    }
};
template<>
struct Tr<Big> {
    static constexpr int D = 4;
    static Big make(int k, int, u32) {
        Big b;
        for (auto &x : b.v) x = 17;
        if (k == 1) b.v[63] = 18;
        if (k == 2) b.v[0] = 18;
        if (k == 3) b.v[31] = 16;
        return b;
    }
    static int key(const Big &v) {
        for (int k = 0; k < D; k++)
            if (make(k, 0, 0) == v) return k;
        return -1;
    }
};
template<>
struct Tr<CIString> {
    static constexpr int D = 4;
    static CIString make(int k, int, u32 rep) {
        Harness h;
        static const char *const t[] = { "abc", "abd", "an identifier long enough to need the heap x", "an identifier long enough to need the heap y" };
        Counted cn;
        CIString c{ t[k] };
        if (rep & 1)
            for (auto &ch : c.s)
                if (ch >= 'a' && ch <= 'z') ch = (char)(ch - 32);
        return c;
    }
    static int key(const CIString &v) {
        Harness h;
        for (int k = 0; k < D; k++)
            if (make(k, 0, 0) == v) return k;
        return -1;
    }
};
template<int Fl>
struct Tr<BVal<Fl>> {
    static constexpr int D = 5;
    static BVal<Fl> make(int k, int node, u32 rep) {
        Harness h;
        return BVal<Fl>(k, node, (Fl & VF_COARSE) ? rep : 0);
    }
    static int key(const BVal<Fl> &v) {
        Harness h;
        return v.read();
    }
};
template<class T>
    requires requires { T{}.has_value(); typename T::value_type; } && (!std::same_as<T, OptI> && !std::same_as<T, OptOpt>)
struct Tr<T> {
    using V = typename T::value_type;
    static constexpr int D = Tr<V>::D + 1;
    static T make(int k, int node, u32 rep) {
        Harness h;
        if (k == 0) return T{};
        return T{ Tr<V>::make(k - 1, node, rep) };
    }
    static int key(const T &v) {
        Harness h;
        if (!v) return 0;
        int i = Tr<V>::key(*v);
        return i < 0 ? i : i + 1;
    }
};
using OptVal = std::optional<HVal>;
using VecVal = std::vector<Val>;
using PairVal = std::pair<HVal, int>;
template<>
struct Tr<VecVal> {
    static constexpr int D = 4;
    static VecVal make(int k, int node, u32 rep) {
        Harness h;
        VecVal v;
        for (int i = 0; i < k; i++) v.push_back(Tr<Val>::make(k, -1, rep)); // element comparisons are the vector's business
        return v;
    }
    static int key(const VecVal &v) {
        Harness h;
        for (auto &x : v)
            if (Tr<Val>::key(x) != (int)v.size()) return -1;
        return (int)v.size() < D ? (int)v.size() : -1;
    }
};
template<>
struct Tr<PairVal> {
    static constexpr int D = 5;
    static PairVal make(int k, int node, u32 rep) {
        Harness h;
        return PairVal{ Tr<HVal>::make(k, node, rep), k * 3 };
    }
    static int key(const PairVal &v) {
        Harness h;
        int k = Tr<HVal>::key(v.first);
        return v.second == k * 3 ? k : -1;
    }
};
template<>
struct Tr<SPtr> {
    static constexpr int D = 4;
    static const SPtr *tab() {
        static const SPtr *t = [] {
            Harness h;
            auto *a = new SPtr[4];
            for (int i = 1; i < 4; i++) a[i] = std::shared_ptr<int>(new int(9));
            return a;
        }();
        return t;
    }
    static SPtr make(int k, int, u32) {
        Harness h;
        return tab()[k];
    }
    static int key(const SPtr &v) {
        for (int i = 0; i < D; i++)
            if (tab()[i] == v) return i;
        return -1;
    }
    static long extra_owners() {
        long n = 0;
        for (int i = 1; i < 4; i++) n += tab()[i].use_count() - 1;
        return n;
    }
};

} // namespace sim
