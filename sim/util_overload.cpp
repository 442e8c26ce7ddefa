// C19: overload sets with members that have a life of their own.
#include "util.h"

#include <functional>
#include <memory>

#include "pigro/overload.h"

namespace sim::ut {

struct Want { // one running call
    int tag = -1;
    FnModel *fm = nullptr;
};
template<int Tag, class... A>
int seen(long st, int cap, A &...a) {
    Frame *f = cur();
    auto *w = f ? (Want *)f->user : nullptr;
    if (w && w->tag != Tag) violate(PROP, "other-member", "member %d of the overload set ran instead of member %d", Tag, w->tag);
    int keys[] = { key_of(a)..., 0 };
    const void *ads[] = { (const void *)std::addressof(a)..., nullptr };
    if (f && st < 0) f->fm = nullptr;
    on_call(st, cap, keys, ads, (int)sizeof...(A));
    return f ? f->reskey : 0;
}
template<class R, class... A>
R done(A &...a) {
    Frame *f = cur();
    if (f) f->completed++;
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_reference_v<R>) return *(std::remove_reference_t<R> *)f->resaddr;
    else return make_key<R>(f ? f->reskey : 0);
}
template<int Tag>
struct State {
    long st = 0;
    HVal cap;
    explicit State(int c) : cap{ make_key<HVal>(c) } {}
    void use(auto &...a) {
        seen<Tag>(st, key_of(cap), a...);
        Frame *f = cur();
        cb(Tag);
        st++;
        if (f && f->fm) f->fm->st++;
        cb(100 + Tag);
        if (f && f->fm && (f->mut & 1)) {
            f->fm->cap = (f->fm->cap + 1) % 5;
            put_key(cap, f->fm->cap);
            cb(200 + Tag);
        }
    }
    void use(auto &...a) const {
        seen<Tag>(st, key_of(cap), a...);
        cb(Tag);
    }
};
template<int Tag, class R, class... A>
struct Mem : State<Tag> { // a member for exactly these parameters
    using State<Tag>::State;
    R operator()(A... a) {
        this->use(a...);
        return done<R>(a...);
    }
};
template<int Tag, class R, class... A>
struct CMem : State<Tag> { // a const one
    using State<Tag>::State;
    R operator()(A... a) const {
        this->use(a...);
        return done<R>(a...);
    }
};
template<int Tag, class R>
struct Gen : State<Tag> { // takes anything
    using State<Tag>::State;
    R operator()(auto &&...a) {
        this->use(a...);
        return done<R>(a...);
    }
};
template<int Tag, class R, class... A>
struct Empty { // without any state
    explicit Empty(int) {}
    R operator()(A... a) const {
        seen<Tag>(-1, 0, a...);
        cb(Tag);
        return done<R>(a...);
    }
};
struct Base1 {};
struct Derived1 : Base1 {};
template<size_t I>
using Ix = std::integral_constant<size_t, I>;

// the sets: members, and calls with the member the language picks
struct One {
    using M0 = Mem<0, HVal, const HVal &>;
    using B = pigro::overload<M0>;
    static constexpr int N = 1, verbs = 2;
    static B make(const int *c) { return B{ M0(c[0]) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        HVal v = make_key<HVal>((int)(bits & 3));
        if (verb) go.template operator()<HVal>(0, Slot{ (int)(bits & 3), &v }, [&](B &b) -> decltype(auto) { return b(v); });
        else go.template operator()<HVal>(0, Slot{ (int)(bits & 3), nullptr }, [&](B &b) -> decltype(auto) { return b(make_key<HVal>((int)(bits & 3))); });
    }
};
struct Three {
    using M0 = Mem<0, int, int>;
    using M1 = Mem<1, void, const std::string &>;
    using M2 = Mem<2, HVal &, HVal &>;
    using B = pigro::overload<M0, M1, M2>;
    static constexpr int N = 3, verbs = 5;
    static B make(const int *c) { return pigro::overload{ M0(c[0]), M1(c[1]), M2(c[2]) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        const int k = (int)(bits & 3) % 3;
        int i = make_key<int>(k);
        std::string s = make_key<std::string>(k);
        HVal v = make_key<HVal>(k);
        switch (verb) {
        case 0: go.template operator()<int>(0, Slot{ k, nullptr }, [&](B &b) -> decltype(auto) { return b(i); }); break;
        case 1: go.template operator()<void>(1, Slot{ k, &s }, [&](B &b) -> decltype(auto) { return b(s); }); break;
        case 2: go.template operator()<HVal &>(2, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(v); }); break;
        case 3: go.template operator()<void>(1, Slot{ 1, nullptr }, [&](B &b) -> decltype(auto) { return b("a"); }); break;
        case 4: go.template operator()<int>(0, Slot{ 1, nullptr }, [&](B &b) -> decltype(auto) { return b((short)1); }); break;
        }
    }
};
struct Category {
    using M0 = Mem<0, int, HVal &>;
    using M1 = Mem<1, HVal, const HVal &>;
    using M2 = Mem<2, HTVal, HVal &&>;
    using B = pigro::overload<M2, M0, M1>;
    static constexpr int N = 3, verbs = 4;
    static B make(const int *c) { return B{ M2(c[2]), M0(c[0]), M1(c[1]) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        const int k = (int)(bits & 3);
        HVal v = make_key<HVal>(k);
        switch (verb) {
        case 0: go.template operator()<int>(0, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(v); }); break;
        case 1: go.template operator()<HVal>(1, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(std::as_const(v)); }); break;
        case 2: go.template operator()<HTVal>(2, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(std::move(v)); }); break;
        case 3: go.template operator()<HTVal>(2, Slot{ k, nullptr }, [&](B &b) -> decltype(auto) { return b(make_key<HVal>(k)); }); break;
        }
    }
};
struct Generic { // exact matches win over what takes anything
    using M0 = Mem<0, HVal, HVal &>;
    using M1 = Gen<1, int>;
    using M2 = Mem<2, void>;
    using B = pigro::overload<M0, M1, M2>;
    static constexpr int N = 3, verbs = 5;
    static B make(const int *c) { return B{ M0(c[0]), M1(c[1]), M2(c[2]) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        const int k = (int)(bits & 3);
        HVal v = make_key<HVal>(k);
        std::string s = make_key<std::string>(k);
        switch (verb) {
        case 0: go.template operator()<HVal>(0, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(v); }); break;
        case 1: go.template operator()<int>(1, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(std::as_const(v)); }); break;
        case 2: go.template operator()<int>(1, Slot{ k, &s }, [&](B &b) -> decltype(auto) { return b(s); }); break;
        case 3: go.template operator()<void>(2, Slot{ -1, nullptr }, [&](B &b) -> decltype(auto) { return b(); }); break;
        case 4: go.template operator()<int>(1, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(std::move(v)); }); break;
        }
    }
};
struct Mixed { // members with and without state, const and not
    using M0 = Empty<0, int, int>;
    using M1 = Mem<1, int, const HVal &>;
    using M2 = Empty<2, HVal, const std::string &>;
    using M3 = CMem<3, HVal, const Val &>;
    using B = pigro::overload<M0, M1, M2, M3>;
    static constexpr int N = 4, verbs = 4;
    static B make(const int *c) { return pigro::overload{ M0(c[0]), M1(c[1]), M2(c[2]), M3(c[3]) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        const int k = (int)(bits & 3);
        HVal v = make_key<HVal>(k);
        Val w = make_key<Val>(k);
        std::string s = make_key<std::string>(k);
        int i = make_key<int>(k);
        switch (verb) {
        case 0: go.template operator()<int>(0, Slot{ k, nullptr }, [&](B &b) -> decltype(auto) { return b(i); }); break;
        case 1: go.template operator()<int>(1, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(v); }); break;
        case 2: go.template operator()<HVal>(2, Slot{ k, &s }, [&](B &b) -> decltype(auto) { return std::as_const(b)(s); }); break;
        case 3: go.template operator()<HVal>(3, Slot{ k, &w }, [&](B &b) -> decltype(auto) { return std::as_const(b)(w); }, true); break;
        }
    }
};
struct Eight {
    template<int I>
    using M = Mem<I, HVal, Ix<(size_t)I>, const HVal &>;
    using B = pigro::overload<M<0>, M<1>, M<2>, M<3>, M<4>, M<5>, M<6>, M<7>>;
    static constexpr int N = 8, verbs = 8;
    static B make(const int *c) { return B{ M<0>(c[0]), M<1>(c[1]), M<2>(c[2]), M<3>(c[3]), M<4>(c[4]), M<5>(c[5]), M<6>(c[6]), M<7>(c[7]) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        const int k = (int)(bits & 3);
        HVal v = make_key<HVal>(k);
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((verb == (int)I ? go.template operator()<HVal>((int)I, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(Ix<I>{}, v); }, false, 2) : void()), ...);
        }(std::make_index_sequence<8>{});
    }
};
struct Rivals { // conversions, and members that differ only in const
    using M0 = CMem<0, HVal, double>;
    using M1 = Mem<1, HVal, int>;
    using M2 = CMem<2, int, const HVal &>;
    using M3 = Mem<3, int, const HVal &>;
    using M4 = CMem<4, void, const Base1 &>;
    using M5 = Mem<5, void, Derived1 &>;
    using B = pigro::overload<M0, M1, M2, M3, M4, M5>;
    static constexpr int N = 6, verbs = 8;
    static B make(const int *c) { return B{ M0(c[0]), M1(c[1]), M2(c[2]), M3(c[3]), M4(c[4]), M5(c[5]) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        const int k = (int)(bits & 3);
        HVal v = make_key<HVal>(k);
        Derived1 d;
        Base1 base;
        switch (verb) {
        case 0: go.template operator()<HVal>(1, Slot{ k == 3 ? 4 : k, nullptr }, [&](B &b) -> decltype(auto) { return b(make_key<int>(k == 3 ? 4 : k)); }); break;
        case 1: go.template operator()<HVal>(0, Slot{ k, nullptr }, [&](B &b) -> decltype(auto) { return b(make_key<double>(k)); }); break;
        case 2: go.template operator()<HVal>(1, Slot{ 1, nullptr }, [&](B &b) -> decltype(auto) { return b(true); }); break;
        case 3: go.template operator()<HVal>(0, Slot{ 1, nullptr }, [&](B &b) -> decltype(auto) { return b(0.25f); }); break;
        case 4: go.template operator()<int>(3, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(v); }); break;
        case 5: go.template operator()<int>(2, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return std::as_const(b)(v); }, true); break;
        case 6: go.template operator()<void>(5, Slot{ 0, &d }, [&](B &b) -> decltype(auto) { return b(d); }); break;
        case 7:
            if (bits & 8) go.template operator()<void>(4, Slot{ 0, &base }, [&](B &b) -> decltype(auto) { return b(base); });
            else go.template operator()<void>(4, Slot{ 0, nullptr }, [&](B &b) -> decltype(auto) { return b(Derived1{}); });
            break;
        }
    }
};
struct Nested { // an overload set of overload sets
    using M0 = Mem<0, HVal, const HVal &>;
    using M1 = Mem<1, int, const std::string &>;
    using M2 = Mem<2, void, int>;
    using Inner = pigro::overload<M0, M1>;
    using B = pigro::overload<Inner, M2>;
    static constexpr int N = 3, verbs = 3;
    static B make(const int *c) { return pigro::overload{ pigro::overload{ M0(c[0]), M1(c[1]) }, M2(c[2]) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        const int k = (int)(bits & 3);
        HVal v = make_key<HVal>(k);
        std::string s = make_key<std::string>(k);
        switch (verb) {
        case 0: go.template operator()<HVal>(0, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(v); }); break;
        case 1: go.template operator()<int>(1, Slot{ k, &s }, [&](B &b) -> decltype(auto) { return b(s); }); break;
        case 2: go.template operator()<void>(2, Slot{ k, nullptr }, [&](B &b) -> decltype(auto) { return b(make_key<int>(k)); }); break;
        }
    }
};
struct ByRef { // members that belong to someone else
    using M0 = Mem<0, HVal, const HVal &>;
    using M1 = Mem<1, int, const std::string &>;
    using M2 = Mem<2, HVal &, int>;
    struct Owner {
        M0 m0;
        M2 m2;
        FnModel fm[3];
        explicit Owner(const int *c) : m0(c[0]), m2(c[2]) {
            for (int i = 0; i < 3; i++) fm[i].cap = c[i];
        }
        void check() {
            Harness h;
            if (m0.st != fm[0].st || key_of(m0.cap) != fm[0].cap || m2.st != fm[2].st || key_of(m2.cap) != fm[2].cap)
                violate(PROP, "state", "a member given by reference is not in the state its owner sees");
        }
    };
    using B = decltype(pigro::overload{ std::ref(std::declval<M0 &>()), std::declval<M1>(), std::ref(std::declval<M2 &>()) });
    static constexpr int N = 3, verbs = 3;
    static bool shared(int tag) { return tag != 1; }
    static B make(Owner &o, const int *c) { return pigro::overload{ std::ref(o.m0), M1(c[1]), std::ref(o.m2) }; }
    template<class Go>
    static void call(int verb, Go &&go, u64 bits) {
        const int k = (int)(bits & 3);
        HVal v = make_key<HVal>(k);
        std::string s = make_key<std::string>(k);
        switch (verb) {
        case 0: go.template operator()<HVal>(0, Slot{ k, &v }, [&](B &b) -> decltype(auto) { return b(std::as_const(v)); }); break;
        case 1: go.template operator()<int>(1, Slot{ k, &s }, [&](B &b) -> decltype(auto) { return b(std::as_const(s)); }); break;
        case 2: go.template operator()<HVal &>(2, Slot{ k % 3, nullptr }, [&](B &b) -> decltype(auto) { return b(make_key<int>(k % 3)); }); break;
        }
    }
};
struct NoOwner {
    explicit NoOwner(const int *) {}
    FnModel fm[1];
    void check() {}
};
template<class Set>
struct OwnerOf {
    using type = NoOwner;
};
template<class Set>
    requires requires { typename Set::Owner; }
struct OwnerOf<Set> {
    using type = typename Set::Owner;
};

template<class Set>
struct VObj final : UObj {
    using B = typename Set::B;
    static constexpr int N = Set::N;
    alignas(B) char buf[sizeof(B)];
    bool alive = false;
    FnModel fm[N];
    using Owner = typename OwnerOf<Set>::type;
    static constexpr bool owned = !std::is_same_v<Owner, NoOwner>;
    std::shared_ptr<Owner> owner;
    FnModel &model(int tag) {
        if constexpr (owned)
            if (Set::shared(tag)) return owner->fm[tag];
        return fm[tag];
    }
    B &b() { return *std::launder((B *)buf); }
    static UObj *make(u64 bits) {
        auto *o = new VObj;
        int caps[N];
        for (int i = 0; i < N; i++) o->fm[i].cap = caps[i] = (int)(bits >> (3 * i) & 7) % 5;
        if constexpr (owned) {
            Harness h;
            o->owner = std::make_shared<Owner>(caps);
        }
        if (attempt(nullptr, "building an overload set", [&] {
                if constexpr (owned)
                    ::new ((void *)o->buf) B(Set::make(*o->owner, caps));
                else
                    ::new ((void *)o->buf) B(Set::make(caps));
                o->alive = true;
            }))
            return o;
        delete o;
        return nullptr;
    }
    ~VObj() override {
        if (alive) b().~B();
        Harness h;
        owner.reset();
    }
    UObj *dup(bool mv) {
        auto *o = new VObj;
        o->owner = owner;
        for (int i = 0; i < N; i++) o->fm[i] = fm[i];
        if (attempt(nullptr, mv ? "moving an overload set" : "copying an overload set", [&] {
                if (mv)
                    ::new ((void *)o->buf) B(std::move(b()));
                else
                    ::new ((void *)o->buf) B(std::as_const(b()));
                o->alive = true;
            }))
            return o;
        delete o;
        return nullptr;
    }
    UObj *clone() override { return dup(false); }
    UObj *move_out() override { return dup(true); }
    struct Go {
        VObj &o;
        u64 bits;
        template<class R, class C>
        void operator()(int tag, Slot arg, C &&call, bool konst = false, int n = 1) const {
            Frame *f = push(&o);
            FnModel &fm = o.model(tag);
            Want w{ tag, &fm };
            HVal res(1, 1);
            Slot none{};
            f->user = &w;
            f->n = arg.key < 0 ? 0 : n;
            f->exp[0] = n == 2 ? &none : &arg;
            f->exp[1] = &arg;
            f->fm = &fm;
            f->mut = bits >> 20;
            f->expecting = true;
            f->reskey = (int)(bits >> 24 & 3);
            f->resaddr = &res;
            if (std::is_reference_v<R>) f->reskey = 1;
            int got = f->reskey;
            const int rk = f->reskey;
            int completed = 0;
            const void *ga = nullptr;
            bool typed = true;
            struct Keep {
                Frame *f;
                int &c;
                ~Keep() { c = f->completed; }
            };
            const FnModel before = fm;
            if (konst) probe(PR_CONSTCALL);
            const bool ok = attempt(
              &o, "an overload set", [&] {
                  Keep k{ f, completed };
                  typed = std::is_same_v<decltype(call(o.b())), R>;
                  if constexpr (!std::is_same_v<decltype(call(o.b())), R>)
                      (void)call(o.b());
                  else if constexpr (std::is_void_v<R>)
                      call(o.b());
                  else if constexpr (std::is_reference_v<R>)
                      ga = std::addressof(call(o.b()));
                  else {
                      auto r = call(o.b());
                      got = key_of(r);
                  }
              },
              f);
            if (W.stop) return;
            if constexpr (owned) o.owner->check();
            if (!typed) violate(PROP, "result-type", "the call has another type than that of member %d", tag);
            if (ok && completed != 1) violate(PROP, "not-called", "member %d of the overload set did not run exactly once", tag);
            if (ok && got != rk) violate(PROP, "result", "the caller received %d instead of %d", got, rk);
            if (ok && std::is_reference_v<R> && ga != &res) violate(PROP, "result", "the reference a member returned did not reach the caller");
            if (!ok) probe(fm.st != before.st ? PR_MIDFAIL : PR_CBFAIL);
        }
    };
    void step(int verb, u64 bits) override { Set::call(verb, Go{ *this, bits }, bits); }
};
struct None final : UObj { // the empty set
    pigro::overload<> o{};
    static UObj *make(u64) { return new None; }
    UObj *clone() override { return new None; }
    UObj *move_out() override { return new None; }
    void step(int, u64) override {
        pigro::overload<> c = o, d = std::move(c);
        (void)d;
    }
};
#define OCASE(name, S) static RegIf<wanted(#name), VObj<S>> reg_##name{ 19, #name, S::verbs };
OCASE(one, One)
OCASE(three, Three)
OCASE(category, Category)
OCASE(generic, Generic)
OCASE(mixed, Mixed)
OCASE(eight, Eight)
OCASE(rivals, Rivals)
OCASE(nested, Nested)
OCASE(by_ref, ByRef)
#define NCASE(name, T) static RegIf<wanted(#name), T> reg_##name{ 19, #name, 1 };
NCASE(none, None)
} // namespace sim::ut
