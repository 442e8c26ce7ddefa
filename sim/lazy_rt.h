// What the generated dependency trees use: wrapped functions, dependencies, holders.
#pragma once
#include "values.h"


namespace sim::lz {

enum NK : u8 { N_CONST, N_SRC, N_FN };
inline constexpr int MAXN = 63, MAXCH = 25;
struct NodeDesc {
    u8 kind;
    u8 D;
    u8 is_void;
    u8 ctr;  // keeps a call counter in the callable
    i16 def; // canonical node (copies of one lazy used in several places share it)
    i16 cell;
    u8 nch;
    i16 ch[MAXCH];
};
struct AnyLazy {
    virtual ~AnyLazy() = default;
    virtual int call() = 0;
    virtual AnyLazy *clone() const = 0;
    virtual AnyLazy *erase() const = 0; // a copy inside std::function
    virtual AnyLazy *move_out() = 0;
};
struct BuildCtx;
struct Shape {
    int id;
    const char *text;
    int n;
    const NodeDesc *nodes;
    AnyLazy *(*build)(BuildCtx &);
    u32 tags;
};
enum { ST_VOID = 1, ST_DUP = 2, ST_ZERO = 4, ST_WIDE = 8, ST_DEEP = 16, ST_INSTR = 32, ST_CTR = 64 };
struct Reg {
    Reg(const Shape *const *s, int n);
};

// ---- model side (lazy_scn.cpp) ----
int on_fn(int shape, int node, long ctr, const int *keys, int n, u32 &rep);
int on_src(int shape, int node, long ctr, u32 &rep);
void fn_out(int node);
void src_out(int node);
void capture_broken(int node);
int const_key(int shape, int node);
int task_id();

template<class R, class... A>
inline R fn_body(int shape, int node, long ctr, const A &...a) {
    Harness h;
    const int keys[] = { Tr<std::remove_cvref_t<A>>::key(a)..., 0 };
    u32 rep = 0;
    int k = on_fn(shape, node, ctr, keys, (int)sizeof...(A), rep);
    if constexpr (std::is_void_v<R>) {
        fn_out(node);
    } else {
        R r = Tr<R>::make(k, node, rep);
        fn_out(node);
        return r;
    }
}
template<class R>
inline R src_body(int shape, int node, long ctr) {
    Harness h;
    u32 rep = 0;
    int k = on_src(shape, node, ctr, rep);
    R r = Tr<R>::make(k, node, rep);
    src_out(node);
    return r;
}

// -- wrapped functions
template<int S, int N, class R>
struct FnE {
    auto operator()(const auto &...a) const -> R { return fn_body<R>(S, N, -1, a...); }
};
template<class R>
struct FnM {
    i16 s, n;
    long c = 0;
    auto operator()(const auto &...a) -> R { return fn_body<R>(s, n, ++c, a...); }
};
template<class T>
void clobber(T &t) {
    Harness h;
    if constexpr (!std::is_const_v<T> && requires { t = Tr<T>::make(0, 0, 0); Tr<T>::D; })
        if constexpr (Tr<T>::D > 1) t = Tr<T>::make(Tr<T>::key(t) == 1 ? 0 : 1, 0, 3);
}
template<int S, int N, class R>
struct FnV { // by value, spoils its arguments
    auto operator()(auto... a) const -> R {
        if constexpr (std::is_void_v<R>) {
            fn_body<R>(S, N, -1, a...);
            (clobber(a), ...);
        } else {
            auto r = fn_body<R>(S, N, -1, a...);
            (clobber(a), ...);
            return r;
        }
    }
};
template<class T>
void spoil(T &t) { // the caller goes on using what it built a lazy function from
    if constexpr (!std::is_const_v<T> && requires { t.c; t.s; t.n; })
        t.c += 1000;
    else
        clobber(t);
}
struct Cap { // an instrumented capture
    HVal v;
    VecI w;
    static HVal mk(int n) {
        Harness h;
        return HVal(n & 3, n);
    }
    static VecI mw(int n) {
        Harness h;
        Counted c;
        return VecI{ n, n + 1 };
    }
    explicit Cap(int n) : v{ mk(n) }, w{ mw(n) } {}
    void check(int n) const {
        Harness h;
        if (v.read() != (n & 3) || w.size() != 2 || w[0] != n || w[1] != n + 1) capture_broken(n);
    }
};
template<int S, int N, class R>
struct FnN { // cannot fail
    auto operator()(const auto &...a) const noexcept -> R {
        NoThrow g;
        return fn_body<R>(S, N, -1, a...);
    }
};
template<int S, int N, class R>
struct FnR { // hands out a reference to storage that changes later
    auto operator()(const auto &...a) const -> const R & {
        Harness h;
        static R slots[8] = { Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0) };
        R &s = slots[(size_t)task_id() & 7];
        s = fn_body<R>(S, N, -1, a...);
        return s;
    }
};
template<int S, int N, class R>
struct FnB { // expects a bound value behind its arguments
    template<class... A>
    auto operator()(A &&...a) const -> R {
        return go(std::make_index_sequence<sizeof...(A) - 1>{}, std::forward_as_tuple(a...));
    }
    template<size_t... I, class T>
    static R go(std::index_sequence<I...>, const T &t) {
        if (std::get<sizeof...(I)>(t) != 41) capture_broken(N);
        return fn_body<R>(S, N, -1, std::get<I>(t)...);
    }
};
template<int S, int N, class R>
struct FnF { // expects a bound value in front of its arguments
    auto operator()(int b, const auto &...a) const -> R {
        if (b != 41) capture_broken(N);
        return fn_body<R>(S, N, -1, a...);
    }
};
template<class R>
struct FnC {
    i16 s, n;
    long c = 0;
    Cap cap;
    FnC(int s_, int n_) : s{ (i16)s_ }, n{ (i16)n_ }, cap{ n_ } {}
    auto operator()(const auto &...a) -> R {
        cap.check(n);
        return fn_body<R>(s, n, ++c, a...);
    }
};
template<class R>
struct FnQ { // only a call of the object itself counts
    i16 s, n;
    long c = 0;
    auto operator()(const auto &...a) & -> R { return fn_body<R>(s, n, ++c, a...); }
    auto operator()(const auto &...a) const & -> R { return fn_body<R>(s, n, c, a...); }
    auto operator()(const auto &...a) && -> R {
        const long was = ++c;
        c = 0; // used up
        return fn_body<R>(s, n, was, a...);
    }
};
template<int Bytes>
struct Ballast { // makes a callable large
    u8 b[Bytes];
    Ballast() {
        for (int i = 0; i < Bytes; i++) b[i] = (u8)(i * 7 + Bytes);
    }
    void check(int node) const {
        for (int i = 0; i < Bytes; i++)
            if (b[i] != (u8)(i * 7 + Bytes)) return capture_broken(node);
    }
};
template<class R, int Bytes>
struct FnH { // large
    i16 s, n;
    Ballast<Bytes> ballast{};
    long c = 0;
    auto operator()(const auto &...a) -> R {
        ballast.check(n);
        return fn_body<R>(s, n, ++c, a...);
    }
};
// -- dependencies
template<int S, int N, class R>
struct SrcE {
    R operator()() const { return src_body<R>(S, N, -1); }
};
template<class R>
struct SrcM {
    i16 s, n;
    long c = 0;
    R operator()() { return src_body<R>(s, n, ++c); }
};
template<class R>
struct SrcQ { // only a call of the object itself counts
    i16 s, n;
    long c = 0;
    R operator()() & { return src_body<R>(s, n, ++c); }
    R operator()() const & { return src_body<R>(s, n, c); }
    R operator()() && {
        const long was = ++c;
        c = 0; // used up
        return src_body<R>(s, n, was);
    }
};
template<class R, int Bytes>
struct SrcH { // large
    i16 s, n;
    Ballast<Bytes> ballast{};
    long c = 0;
    R operator()() {
        ballast.check(n);
        return src_body<R>(s, n, ++c);
    }
};
template<int S, int N, class R>
struct SrcN { // cannot fail
    R operator()() const noexcept {
        NoThrow g;
        return src_body<R>(S, N, -1);
    }
};
template<int S, int N, class R>
struct SrcB { // expects a bound value
    R operator()(int b) const {
        if (b != 41) capture_broken(N);
        return src_body<R>(S, N, -1);
    }
};
template<class R>
struct SrcC {
    i16 s, n;
    long c = 0;
    Cap cap;
    SrcC(int s_, int n_) : s{ (i16)s_ }, n{ (i16)n_ }, cap{ n_ } {}
    R operator()() {
        cap.check(n);
        return src_body<R>(s, n, ++c);
    }
};
template<int S, int N, class R>
struct SrcR { // hands out a reference to storage that changes later
    const R &operator()() const {
        Harness h;
        static R slots[8] = { Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0), Tr<R>::make(0, N, 0) };
        R &s = slots[(size_t)task_id() & 7];
        s = src_body<R>(S, N, -1);
        return s;
    }
};
template<int S, int N, class R>
R src_fp() { return src_body<R>(S, N, -1); }

template<class F>
inline const F kept{};

template<class T>
inline T cst(int shape, int node) {
    Harness h;
    if constexpr (std::is_same_v<T, std::nullptr_t>)
        return nullptr;
    else
        return Tr<T>::make(const_key(shape, node), node, 0);
}

// -- holders
template<class L>
struct Holder final : AnyLazy {
    L obj;
    explicit Holder(const L &l) : obj(l) {}
    struct mv {};
    Holder(mv, L &l) : obj(std::move(l)) {}
    int call() override {
        if constexpr (std::is_void_v<decltype(obj())>) {
            Lib lib;
            obj();
            return 0;
        } else {
            Lib lib;
            decltype(auto) r = obj();
            Harness h;
            int k = Tr<std::remove_cvref_t<decltype(r)>>::key(r);
            clobber(r);
            return k;
        }
    }
    AnyLazy *clone() const override {
        Lib lib;
        return new Holder(obj);
    }
    AnyLazy *erase() const override {
        if constexpr (requires { typename L::result_type; })
            return clone();
        else {
            using R = std::decay_t<decltype(std::declval<L &>()())>;
            Lib lib;
            return new Holder<std::function<R()>>(std::function<R()>(obj));
        }
    }
    AnyLazy *move_out() override {
        Lib lib;
        return new Holder(mv{}, obj);
    }
};

struct BuildCtx {
    const Shape *shape;
    u64 bits;
    struct Impl;
    Impl *impl;
    // a sub-lazy is ready: maybe call it a few times, maybe keep a copy as an object of its own
    bool wants(int node);
    void sub_begin(int node);
    void sub_call(int node, AnyLazy &);
    void sub_keep(int node, AnyLazy *);
    int calls(int node), keep(int node);
    void dup(int from, int to); // the next place of the same lazy starts from a copy of its state
    template<class L>
    struct Ref final : AnyLazy {
        L &obj;
        explicit Ref(L &l) : obj(l) {}
        int call() override {
            Lib lib;
            if constexpr (std::is_void_v<decltype(obj())>) {
                obj();
                return 0;
            } else {
                decltype(auto) r = obj();
                Harness h;
                int k = Tr<std::remove_cvref_t<decltype(r)>>::key(r);
                clobber(r);
                return k;
            }
        }
        AnyLazy *clone() const override { return nullptr; }
        AnyLazy *erase() const override { return nullptr; }
        AnyLazy *move_out() override { return nullptr; }
    };
    template<class L>
    void sub(int node, L &l) {
        Harness h;
        sub_begin(node);
        if (!wants(node)) return;
        Ref<L> r{ l };
        if (keep(node) == 1) keep_copy(node, l);
        for (int i = calls(node); i > 0; i--) sub_call(node, r);
        if (keep(node) == 2) keep_copy(node, l);
    }
    template<class L>
    void keep_copy(int node, L &l) {
        AnyLazy *a;
        {
            Lib lib;
            a = new Holder<L>(l);
        }
        sub_keep(node, a);
    }
    template<class L>
    AnyLazy *finish(L &l) { // called in library scope
        return new Holder<L>(l);
    }
};

} // namespace sim::lz
