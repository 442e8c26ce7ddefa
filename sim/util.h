// Simulation of the utility layers (binding, compressed tuples, tuple and pack
// algorithms, recursion): objects under test live in slots, every object carries
// the model it is compared with.
#pragma once
#include "core.h"
#include "values.h"

namespace sim::ut {

enum { PR_COPYFAIL, PR_RECOVER, PR_CBFAIL, PR_MIDFAIL, PR_NESTED, PR_NESTFAIL, PR_HANDOVER, PR_INTERLEAVED, PR_COPYUSED, PR_UNWIND, PR_VALFAIL, PR_MOVED, PR_ALIAS, PR_DEEP, PR_EMPTYELEM, PR_EARLYSTOP, PR_CONSTCALL, PR_WRITE, PR_RVALUE, PR_TUPRESULT, PR_USEDUP, PR_SOAK, PR_SOAK64K, PR_SOAKFAIL };

inline constexpr int MAXA = 12;
struct Slot {
    int key = 0;
    const void *addr = nullptr; // non-null: must be this very object
};
struct FnModel { // what the callable under test holds
    long st = 0;
    int cap = 0;
};
struct UObj;
struct Frame {
    Frame *prev = nullptr;
    UObj *o = nullptr;
    bool fault = false;
    u8 fpk = 0;
    ExId ex;
    int depth = 0;
    // what the callable is expected to see in this call
    bool expecting = false;
    int n = 0;
    Slot *exp[MAXA]{};
    FnModel *fm = nullptr;
    u64 mut = 0;
    int entered = 0, completed = 0;
    int reskey = 0;
    const void *resaddr = nullptr;
    u32 nonconst = 0, rvalue = 0; // arguments that must arrive so
    void *user = nullptr;
};
Frame *cur();
Frame *push(UObj *o);
void pop(Frame *);

struct UObj {
    u32 id = 0;
    bool busy = false, failed = false, used = false;
    int last_task = -1;
    int kase = 0;
    virtual ~UObj() = default;                   // runs inside Lib
    virtual UObj *clone() { return nullptr; }    // may fail
    virtual UObj *move_out() { return nullptr; } // may fail
    virtual void step(int verb, u64 bits) = 0;
};
using Make = UObj *(*)(u64 bits);
struct Case {
    const char *name;
    Make make;
    int verbs;
};
struct Reg {
    Reg(int prop, const char *name, Make m, int verbs);
};
// -DSIM_ONLY="name" compiles a single case of a file (check.py does so when the file as a whole does not compile)
#ifndef SIM_ONLY
#define SIM_ONLY ""
#endif
// -DSIM_BASIC leaves out the less usual uses of a case (tried when the case as a whole does not compile)
#ifdef SIM_BASIC
inline constexpr bool basic = true;
#else
inline constexpr bool basic = false;
#endif
constexpr bool wanted(std::string_view name) { return std::string_view(SIM_ONLY).empty() || name == SIM_ONLY; }
template<bool On, class O>
struct RegIf {
    RegIf(int prop, const char *name, int verbs) {
        if constexpr (On) Reg(prop, name, &O::make, verbs);
    }
};

// Runs library code; says whether it completed. Checks that failures and only failures come out.
void settle(Frame &f, bool ok, const ExId &got, const char *what);
template<class F>
bool attempt(UObj *o, const char *what, F &&body, Frame *prepared = nullptr) {
    Frame *f = prepared ? prepared : push(o);
    bool ok = false;
    ExId got;
    int h0 = tl_harness;
    try {
        Lib lib;
        body();
        ok = true;
    } catch (...) {
        got = current_exception_id();
    }
    tl_harness = h0;
    settle(*f, ok, got, what);
    pop(f);
    return ok;
}
extern u32 PROP; // mask of the property under test
// a callable under test was entered; checks what it received
void on_call(long st, int cap, const int *keys, const void *const *ads, int n);
void before_cb(); // a callable starts: nothing may run after a failure
inline void cb(int node) { point_forced(PK_CB, node); }

template<class T>
int key_of(const T &v) {
    Harness h;
    return Tr<std::remove_cvref_t<T>>::key(v);
}
template<class T>
T make_key(int k) {
    Harness h;
    return Tr<T>::make(k % Tr<T>::D, 1, 0);
}
template<class T>
inline constexpr bool is_val = false;
template<int Fl>
inline constexpr bool is_val<BVal<Fl>> = true;
// assigns a new value without simulation points
template<class T>
void put_key(T &dst, int k) {
    Harness h;
    dst = Tr<T>::make(k % Tr<T>::D, 1, 0);
}

struct MoveOnly {
    HTVal v;
    explicit MoveOnly(int k) : v{ k, 1 } {}
    MoveOnly(MoveOnly &&) = default;
    MoveOnly &operator=(MoveOnly &&) = default;
    MoveOnly(const MoveOnly &) = delete;
};
struct E1 {};
struct E2 {};
struct E3 {};

} // namespace sim::ut

namespace sim {
template<>
struct Tr<ut::MoveOnly> {
    static constexpr int D = 5;
    static ut::MoveOnly make(int k, int, u32) {
        Harness h;
        return ut::MoveOnly{ k };
    }
    static int key(const ut::MoveOnly &v) {
        Harness h;
        return v.v.read();
    }
};
} // namespace sim
