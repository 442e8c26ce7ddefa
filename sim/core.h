// Deterministic simulation engine: plan, scheduler, faults, allocator, clock.
#pragma once
#include <concepts>
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <new>
#include <semaphore>
#include <string>
#include <vector>

namespace sim {

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;

inline u64 mix1(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix1(a ^ (mix1(b) + 0x632be59bd9b4e019ull)); }
template<class... Ts>
inline u64 mix(u64 a, u64 b, Ts... r) { return mix(mix(a, b), (u64)r...); }

struct Rng {
    u64 s = 0;
    explicit Rng(u64 seed = 0) : s{ mix1(seed) } {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix1(s); }
    u32 below(u32 n) { return n ? (u32)(((next() >> 32) * (u64)n) >> 32) : 0; }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    int range(int lo, int hi) { return lo + (int)below((u32)(hi - lo + 1)); }
};

// ---- properties -----------------------------------------------------------
inline constexpr int NPROP = 32;
constexpr u32 P(int i) { return 1u << i; }
inline constexpr u32 ALLPROPS = 0xfffffffeu;

// ---- what can happen at a callback ----------------------------------------
enum PK : u8 { PK_FN_IN, PK_FN_OUT, PK_SRC_IN, PK_SRC_OUT, PK_COPY, PK_MOVE, PK_ASSIGN, PK_EQ, PK_ALLOC, PK_CB, PK_N };
inline const char *const pk_name[] = { "fn-enter", "fn-exit", "dep-enter", "dep-exit", "copy", "move", "assign", "compare", "alloc", "callback" };
enum AK : u8 { AK_SWITCH, AK_FAULT, AK_MUTATE, AK_NESTED, AK_MEMSWITCH, AK_N };
inline const char *const ak_name[] = { "switch", "fault", "mutate", "nested", "memswitch" };
enum EX : u8 { EX_STD, EX_STRUCT, EX_INT, EX_BADALLOC, EX_RUNTIME, EX_LOGIC, EX_SYSTEM, EX_BADOPT, EX_BADCALL, EX_BADCAST, EX_NESTED, EX_PTR, EX_N };
inline const char *const ex_name[] = { "std-derived", "plain-struct", "int", "bad_alloc", "runtime_error", "out_of_range", "system_error", "bad_optional_access", "bad_function_call", "bad_cast", "nested", "pointer" };

struct Op {
    u32 id;
    u8 task;
    u8 kind;
    i32 a, b, c;
    u64 bits;
};
struct Act {
    u32 op;
    u32 k;   // fires at the k-th callback of the op (memory access for memswitch)
    u8 kind; // AK
    i32 a;   // switch: task; fault: EX kind; mutate: cell; nested: object op id, b: what to do with it
    i32 b;   // fault: PK class + 1 (0 any); mutate: value
};

[[noreturn]] void throw_kind(int ex, u64 id);
struct ExId {
    int kind = -1; // EX, or -2 foreign
    u64 id = 0;
    bool operator==(const ExId &) const = default;
};
// to be called inside a catch handler
ExId current_exception_id();

// ---- shared with the supervising process ------------------------------------
inline constexpr u32 MAXEP = 64, MAXOPS = 8000, MAXACTS = 30000, NPROBE = 48;
struct EpHdr {
    u64 knob;
    u32 op0, op1, act0, act1;
    u32 ntasks, flags;
};
struct Stats {
    u64 episodes, ops, callbacks, memacc, switches, memswitches, mutations, nested, calls, failed_calls, recoveries, simtime_us, allocs;
    u64 pk[PK_N];
    u64 fault_pk[PK_N];
    u64 fault_ex[EX_N];
    u64 opk[16];
    u64 probe[NPROBE];
    u64 foreign;
};
struct Shared {
    u32 nep, nops, nacts;
    EpHdr ep[MAXEP];
    Op ops[MAXOPS];
    Act acts[MAXACTS];
    u32 status; // 0 running, 1 ok, 2 violation
    u32 vio_ep, vio_mask;
    u32 cur_ep, cur_op;
    char cls[48];
    char msg[600];
    u64 hash;
    u32 nh;
    u64 ep_hash[MAXEP];    // whole history
    u64 sched_hash[MAXEP]; // interleaving + fault placement only
    u8 nontrivial[MAXEP];
    Stats st;
    u32 foreign_mask;
    char foreign_msg[200];
    char sample[1500];
};
extern Shared *SH;

// ---- tasks ------------------------------------------------------------------
struct OpRun {
    Op op{};
    u32 cb = 0, mem = 0, drawn = 0;
    std::vector<Act> acts, macts;
    size_t next = 0, mnext = 0;
    bool armed = false;
    Act armed_act{};
    bool fault_fired = false;
    u8 fault_pk = 0;
    i32 fault_node = 0;
    ExId ex;
};
struct Task {
    int id = 0;
    unsigned long th = 0;
    std::binary_semaphore sem{ 0 };
    bool done = false, blocked = false;
    u32 spin = 0, spin_cb = 0;
    OpRun run;
    void *frame = nullptr;
    int base_unc = 0;
    std::vector<u32> queue; // indices into the explicit plan
    size_t qpos = 0;
    int budget = 0;
    int last_cb = 25;
};
extern thread_local Task *tl_task;
extern thread_local int tl_harness;
extern thread_local int tl_nothrow;

struct Harness {
    Harness() { ++tl_harness; }
    ~Harness() { --tl_harness; }
    Harness(const Harness &) = delete;
};
struct NoThrow { // user code that cannot fail
    NoThrow() { ++tl_nothrow; }
    ~NoThrow() { --tl_nothrow; }
    NoThrow(const NoThrow &) = delete;
};
extern thread_local int tl_counted;
struct Counted { // harness code whose allocations become the library's to release
    Counted() { ++tl_counted; }
    ~Counted() { --tl_counted; }
    Counted(const Counted &) = delete;
};
struct Lib { // library code runs inside this scope: callbacks and allocations are simulation points
    int saved, base;
    Lib();
    ~Lib();
    Lib(const Lib &) = delete;
};

struct Knobs {
    int tasks = 1, ops = 15;
    double p_fault = 0, p_switch = 0, p_mutate = 0, p_nested = 0, p_mem = 0, p_cascade = 0;
    u32 fault_classes = 0; // mask of PK; 0 = any
    bool only_user_faults = false;
    bool quarantine = false;
    bool est_small = false;
};

struct World;
struct Scenario {
    virtual ~Scenario() = default;
    virtual void configure(Rng &, Knobs &) = 0;      // per episode, generate mode and replay mode alike
    virtual void begin() = 0;                        // episode starts
    virtual bool gen_op(Rng &, Task &, Op &) = 0;    // draw the next op
    virtual void exec(Task &, Op &) = 0;
    virtual void finish() = 0;                       // destroy everything, final checks
    virtual void on_fault(Task &, PK, int) {}
    virtual void mutate(i32, i32) {}
    virtual bool gen_mutate(Rng &, i32 &, i32 &) { return false; }
    virtual bool gen_nested(Rng &, i32 &, i32 &) { return false; }
    virtual bool gen_cascade(Rng &r, i32 &a, i32 &b) { return gen_nested(r, a, b); }
    virtual void nested(Task &, i32, i32, PK, int) {}
    virtual void describe(const Op &, char *, size_t) {}
};

struct World {
    Scenario *scn = nullptr;
    int target = 0; // property
    u64 knob = 0;
    Knobs kn;
    Rng rng;
    bool generating = false;
    bool stop = false;
    u32 ep = 0, next_op_id = 1;
    u32 steps = 0;
    u64 hash = 0, shash = 0;
    i64 clock_ns = 0;
    std::vector<Task *> tasks;
    int live_vals = 0, live_ex = 0;
    long lib_allocs = 0, lib_bytes = 0;
    const char *stack_lo = nullptr; // deepest point a wrapped function or dependency was entered at
    u64 exserial = 0;
    bool quarantine = false;
    u32 faults = 0, switches = 0, nest = 0, muts = 0;
};
extern World W;

void live_add(int); // not inline: nothing can be scheduled in between
void violate(u32 mask, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void point_forced(PK, int node, bool can_throw = true);
inline void point(PK k, int node, bool can_throw = true) {
    if (tl_task && tl_harness == 0) point_forced(k, node, can_throw);
}
inline void probe(int i) { SH->st.probe[i]++; }
[[noreturn]] void throw_fault(Task &, PK, int node, int exkind);
void fold(u64 v);
extern const char *probe_names[NPROBE];

// runs the episode described by W / SH->ep[e]; explicit if !generating
void run_episode(u32 e);
Scenario *make_scenario(int prop); // provided by each simulator program
u32 accept_requirements(int prop); // see main.cpp
const char *scenario_name(int prop);
const char *op_name(int kind);

// ---- hooks used by instrumented values ---------------------------------------
extern void (*on_eq)(int a, int b);

} // namespace sim
