// C21: captured objects, forwarding like another object, const taken away.
#include "util.h"

#include "pigro/forward_like.h"
#include "pigro/fwd_capture.h"
#include "pigro/utils.h"

namespace sim::ut {

enum { C_LV, C_CLV, C_RV, C_CRV }; // captured as lvalue, const lvalue, temporary, const temporary
template<class T>
struct Home { // an object of the program that captures refer to
    T v;
    int key;
    int refs = 1;
    explicit Home(int k) : v{ make_key<T>(k) }, key{ k % Tr<T>::D } {}
};
// the kind of reference one gets for an object T forwarded like Like
template<class Like, class T>
using Kind = std::conditional_t<std::is_const_v<std::remove_reference_t<Like>>, const T, T>;
template<class Like, class T>
using LikeRef = std::conditional_t<std::is_lvalue_reference_v<Like>, Kind<Like, T> &, Kind<Like, T> &&>;

template<class T, int Form>
struct CObj final : UObj {
    static constexpr bool by_ref = Form == C_LV || Form == C_CLV;
    static constexpr bool konst = Form == C_CLV || Form == C_CRV;
    using V = std::conditional_t<konst, const T, T>;
    using In = std::conditional_t<by_ref, V &, V &&>;
    using B = decltype(pigro::fwd_capture(std::declval<In>()));
    static constexpr bool copyable = by_ref || std::is_copy_constructible_v<T>;

    alignas(B) char buf[sizeof(B)];
    bool alive = false;
    Home<T> *home = nullptr;
    int key = 0; // of a captured temporary
    B &b() { return *std::launder((B *)buf); }
    int want() const { return by_ref ? home->key : key; }
    static bool alone() { return W.tasks.size() == 1 && !W.nest; }
    static u64 values() { return SH->st.pk[PK_COPY] + SH->st.pk[PK_MOVE] + SH->st.pk[PK_ASSIGN]; }
    static UObj *make(u64 bits) {
        using namespace pigro;
        auto *o = new CObj;
        const int k = (int)(bits % 5) % Tr<T>::D;
        const u64 v0 = values(), c0 = SH->st.pk[PK_COPY];
        bool ok;
        const void *src;
        if constexpr (by_ref) {
            {
                Harness h;
                o->home = new Home<T>(k);
            }
            V &x = o->home->v;
            src = std::addressof(x);
            ok = attempt(nullptr, "capturing an object", [&] { ::new ((void *)o->buf) B(FWD_CAPTURE(x)); o->alive = true; });
            if (ok && alone() && values() != v0) violate(PROP, "copied", "an object captured by reference was copied or moved");
        } else {
            V x = make_key<T>(k);
            src = std::addressof(x);
            V &&y = static_cast<V &&>(x);
            ok = attempt(nullptr, "capturing a temporary", [&] { ::new ((void *)o->buf) B(FWD_CAPTURE(y)); o->alive = true; });
            if (ok && alone() && !konst && SH->st.pk[PK_COPY] != c0) violate(PROP, "copied", "a captured temporary was copied instead of moved");
            if (ok && alone() && (konst || is_val<T>)) {
                const int left = key_of(x), exp = konst ? k : -2;
                if (left != exp) violate(PROP, "source", "after the capture of a temporary the temporary is %d instead of %d", left, exp);
            }
            o->key = k;
            if (ok && (const void *)std::addressof(pigro::access(o->b())) == src) violate(PROP, "reference", "a captured temporary is kept by reference");
        }
        if (ok) {
            o->see("a fresh capture");
            return o;
        }
        delete o;
        return nullptr;
    }
    ~CObj() override {
        if (alive) b().~B();
        if (home) {
            Harness h;
            if (--home->refs == 0) {
                if (!W.stop && key_of(home->v) != home->key) violate(PROP, "changed", "the captured object is %d at the end instead of %d", key_of(home->v), home->key);
                delete home;
            }
        }
    }
    UObj *dup(bool mv) {
        auto *o = new CObj;
        o->home = home;
        if (home) home->refs++;
        o->key = key;
        const u64 v0 = values();
        if (attempt(nullptr, mv ? "moving a capture" : "copying a capture", [&] {
                if (mv)
                    ::new ((void *)o->buf) B(std::move(b()));
                else if constexpr (copyable)
                    ::new ((void *)o->buf) B(std::as_const(b()));
                o->alive = true;
            })) {
            if (by_ref && alone() && values() != v0) violate(PROP, "copied", "copying a reference copied the object");
            o->see("a copied capture");
            if (!mv) {
                see("a capture that was copied");
                if (!by_ref && where() == o->where()) violate(PROP, "shared", "two copies of a captured temporary share one object");
            }
            return o;
        }
        delete o;
        return nullptr;
    }
    UObj *clone() override { return copyable ? dup(false) : nullptr; }
    UObj *move_out() override { return dup(true); }
    const void *where() {
        Harness h;
        return std::addressof(pigro::access(b()));
    }
    template<class X>
    void look(X &&x, const char *what) {
        if (by_ref && (const void *)std::addressof(x) != (const void *)std::addressof(home->v)) violate(PROP, "identity", "%s shows another object than the captured one", what);
        const int k = key_of(x);
        if (k != want()) violate(PROP, "value", "%s shows %d instead of %d", what, k, want());
        fold((u64)k);
    }
    template<class Want, class Got>
    void typed(const char *what) {
        if (!std::is_same_v<Want, Got>) violate(PROP, "category", "%s gives another kind of reference than it should", what);
    }
    void see(const char *what) {
        Harness h;
        typed<V &, decltype(pigro::access(b()))>(what);
        look(pigro::access(b()), what);
    }
    void set(int k) {
        if (by_ref) home->key = k % Tr<T>::D;
        else key = k % Tr<T>::D;
    }
    template<class F>
    bool run(const char *what, F &&f) {
        return attempt(this, what, [&] {
            before_cb();
            cb(0);
            f();
            cb(1);
            if (!W.stop) look(pigro::access(b()), what);
        });
    }
    void step(int verb, u64 bits) override {
        const int k = (int)(bits % 5);
        const u64 v0 = values();
        bool ok;
        bool reads = true;
        switch (verb) {
        case 0:
            ok = run("access", [&] {
                typed<V &, decltype(pigro::access(b()))>("access");
                auto &&r = pigro::access(b());
                look(r, "access");
                cb(2);
                look(r, "a reference kept");
            });
            break;
        case 1:
            ok = run("access to a const capture", [&] {
                typed<std::conditional_t<by_ref, V &, const T &>, decltype(pigro::access(std::as_const(b())))>("access to a const capture");
                probe(PR_CONSTCALL);
                look(pigro::access(std::as_const(b())), "access to a const capture");
            });
            break;
        case 2: // written through the capture
            ok = run("writing through a capture", [&] {
                if constexpr (!konst) {
                    probe(PR_WRITE);
                    put_key(pigro::access(b()), k);
                    set(k);
                    cb(2);
                }
            });
            break;
        case 3: // the program changes its own object, the capture shows it
            ok = run("a changed object", [&] {
                if constexpr (by_ref) {
                    put_key(home->v, k);
                    set(k);
                    probe(PR_ALIAS);
                    cb(2);
                }
            });
            break;
        case 4: // taken out of a capture that is no longer needed
            reads = false;
            probe(PR_RVALUE);
            ok = attempt(this, "access to a temporary capture", [&] {
                cb(0);
                typed<In, decltype(pigro::access(std::move(b())))>("access to a temporary capture");
                if constexpr (std::is_constructible_v<T, In>) {
                    const int expect = want();
                    T x(pigro::access(std::move(b())));
                    const int got = key_of(x);
                    // meanwhile other tasks may have written to a shared object
                    if ((!by_ref || alone()) && got != expect) violate(PROP, "value", "what was taken out of a capture is %d instead of %d", got, expect);
                    if (is_val<T> && !by_ref && !konst) {
                        if (key_of(pigro::access(b())) != -2) violate(PROP, "not-moved", "taking from a temporary capture copied the object");
                    }
                    if constexpr (!by_ref && !konst) put_key(pigro::access(b()), expect);
                }
                cb(1);
                look(pigro::access(b()), "a capture that was taken from");
            });
            break;
        case 5: likes(bits, ok); break;
        case 6: nonconst(k, ok); break;
        case 7: again(ok); break;
        default: ok = false;
        }
        if (ok && reads && verb != 7 && !W.stop && alone() && values() != v0) violate(PROP, "copied", "a captured object was copied or moved without need");
    }
    // forwards the captured object like others
    template<class Like, class X>
    void like(X &&x) {
        using R = decltype(pigro::forward_like<Like>(static_cast<X &&>(x)));
        typed<LikeRef<Like, T>, R>("forward_like");
        auto &&r = pigro::forward_like<Like>(static_cast<X &&>(x));
        if ((const void *)std::addressof(r) != (const void *)std::addressof(x)) violate(PROP, "identity", "forward_like gives another object");
        look(r, "forward_like");
    }
    void likes(u64 bits, bool &ok) {
        struct Other {};
        ok = run("forward_like", [&] {
            if constexpr (!konst) {
                T &x = pigro::access(b());
                switch (bits >> 8 & 7) {
                case 0: like<Other &>(x); break;
                case 1: like<const Other &>(x); break;
                case 2: like<Other &&>(x); break;
                case 3: like<const Other &&>(x); break;
                case 4: like<Other>(x); break;
                case 5: like<const Other>(x); break;
                case 6: like<Other &&>(std::move(x)); break;
                case 7: like<const Other &&>(std::move(x)); break;
                }
            } else {
                const T &x = pigro::access(b());
                switch (bits >> 8 & 3) {
                case 0: like<const Other &>(x); break;
                case 1: like<const Other &&>(x); break;
                case 2: like<const Other>(x); break;
                case 3: like<const int &&>(std::move(x)); break;
                }
            }
        });
    }
    void nonconst(int k, bool &ok) {
        ok = run("as_nonconst", [&] {
            V &x = pigro::access(b());
            typed<T &, decltype(pigro::as_nonconst(x))>("as_nonconst");
            typed<T &, decltype(pigro::as_nonconst(std::as_const(x)))>("as_nonconst");
            typed<T &&, decltype(pigro::as_nonconst(std::move(x)))>("as_nonconst");
            typed<T &&, decltype(pigro::as_nonconst(std::move(std::as_const(x))))>("as_nonconst");
            auto &&l = pigro::as_nonconst(std::as_const(x));
            auto &&r = pigro::as_nonconst(std::move(std::as_const(x)));
            if ((const void *)std::addressof(l) != (const void *)std::addressof(x) || (const void *)std::addressof(r) != (const void *)std::addressof(x))
                violate(PROP, "identity", "as_nonconst gives another object");
            look(l, "as_nonconst");
            look(r, "as_nonconst");
            if constexpr (by_ref || !konst) { // the object itself is not const
                put_key(l, k);
                set(k);
            }
        });
    }
    void again(bool &ok) { // captured once more, by closures that pass it on
        using namespace pigro;
        const u64 v0 = values();
        ok = run("a capture of a capture", [&] {
            auto &x = b();
            auto one = [c = FWD_CAPTURE(x)](auto &&use) mutable -> decltype(auto) { return use(access(access(c))); };
            one([&](auto &&r) {
                typed<V &, decltype(r)>("a capture of a capture");
                look(r, "a capture of a capture");
            });
            cb(2);
            auto two = one;
            two([&](auto &&r) { look(r, "a copied closure"); });
            [&]<class... A>(A &&...a) {
                auto pack = [... c = FWD_CAPTURE(a)](auto &&use) mutable { (use(access(access(c))), ...); };
                pack([&](auto &&r) { look(r, "a captured pack"); });
            }(x, x);
            if (alone() && values() != v0) violate(PROP, "copied", "a capture by reference was copied");
            if constexpr (copyable && !by_ref) { // a temporary capture is kept by value
                B t(std::as_const(x));
                auto three = [c = FWD_CAPTURE(std::move(t))]() mutable -> decltype(auto) { return access(access(c)); };
                look(three(), "a captured temporary capture");
                if ((const void *)std::addressof(three()) == (const void *)std::addressof(access(x))) violate(PROP, "shared", "two copies of a captured temporary share one object");
            }
        });
    }
};
#define KCASE(name, T, F) static RegIf<wanted(#name), CObj<T, F>> reg_##name{ 21, #name, 8 };
KCASE(lv_val, HVal, C_LV)
KCASE(lv_throw, HTVal, C_LV)
KCASE(lv_mo, MoveOnly, C_LV)
KCASE(lv_str, std::string, C_LV)
KCASE(lv_int, int, C_LV)
KCASE(lv_ptr, SPtr, C_LV)
KCASE(clv_big, Big, C_CLV)
KCASE(clv_val, HVal, C_CLV)
KCASE(clv_int, int, C_CLV)
KCASE(clv_mo, MoveOnly, C_CLV)
KCASE(clv_str, std::string, C_CLV)
KCASE(rv_val, HVal, C_RV)
KCASE(rv_throw, HTVal, C_RV)
KCASE(rv_align, AVal, C_RV)
KCASE(rv_mo, MoveOnly, C_RV)
KCASE(rv_str, std::string, C_RV)
KCASE(rv_int, int, C_RV)
KCASE(rv_vec, VecVal, C_RV)
KCASE(crv_val, HVal, C_CRV)
KCASE(crv_throw, HTVal, C_CRV)
KCASE(crv_int, int, C_CRV)
KCASE(crv_str, std::string, C_CRV)
} // namespace sim::ut
