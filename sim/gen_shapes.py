#!/usr/bin/env python3
"""Generates the dependency trees (C++ types are static, so they must exist at compile time).

usage: gen_shapes.py OUTDIR TUS PER_TU SEED
"""
import random, sys, os

# name, D, instrumented comparison, trivially copyable
TYPES = [
    ("int", 7, 0, 1), ("LLong", 5, 0, 1), ("ULong", 4, 0, 1), ("short", 3, 0, 1), ("char", 4, 0, 1), ("bool", 2, 0, 1),
    ("Color", 4, 0, 1), ("double", 6, 0, 1), ("float", 4, 0, 1), ("LDbl", 3, 0, 1), ("std::string", 7, 0, 0), ("SView", 3, 0, 1),
    ("OptI", 4, 0, 1), ("OptOpt", 3, 0, 1), ("PairII", 4, 0, 1), ("PairSI", 3, 0, 0), ("Tup1", 3, 0, 1), ("Tup2", 4, 0, 1), ("TupN", 3, 0, 0),
    ("VecI", 6, 0, 0), ("VecS", 3, 0, 0), ("Arr3", 4, 0, 1), ("VarIS", 4, 0, 0), ("MapII", 3, 0, 0), ("IPtr", 4, 0, 1), ("CPtr", 3, 0, 1),
    ("NoDefault", 3, 0, 1), ("Wide", 3, 0, 1), ("Cplx", 3, 0, 1), ("Padded", 4, 0, 1), ("Big", 4, 0, 1), ("CIString", 4, 0, 0),
    ("Unit", 1, 0, 0), ("Unit2", 1, 0, 0), ("SPtr", 4, 0, 0),
    ("Json", 4, 0, 0), ("Hostile", 4, 0, 1), ("Greedy", 4, 0, 0), ("Meas", 4, 0, 1), ("Tup0", 1, 0, 1), ("RefI", 2, 0, 1), ("VecB", 4, 0, 0), ("NoMove", 4, 0, 0),
    ("Val", 5, 1, 0), ("HVal", 5, 1, 0), ("TVal", 5, 1, 0), ("HTVal", 5, 1, 0), ("CVal", 5, 1, 0), ("AVal", 5, 1, 0),
    ("OptVal", 6, 1, 0), ("VecVal", 4, 0, 0), ("PairVal", 5, 1, 0),
]
TI = {t[0]: t for t in TYPES}
INSTR = [t for t in TYPES if t[2]]
COMMON = [TI[n] for n in ("int", "std::string", "double", "VecI", "HVal", "Val", "bool", "OptI", "HTVal", "CIString")]
MAXN, MAXCH = 38, 12  # of most; up to 62 nodes and 24 dependencies


class Full(Exception):
    pass


class G:
    def __init__(self, sid, rng, cover):
        self.sid, self.r, self.cover = sid, rng, cover
        self.nodes = []  # dict(kind,type,def,ch,cell,void,ctr)
        self.code, self.decls = [], []
        self.tags = set()
        self.big = False

    def new(self, **k):
        if len(self.nodes) >= (MAXN if not self.big else 62):
            raise Full
        k.setdefault("void", False); k.setdefault("ctr", False); k.setdefault("cell", 0); k.setdefault("ch", [])
        self.nodes.append(k)
        i = len(self.nodes) - 1
        k.setdefault("def", i)
        return i

    def type(self):
        x = self.r.random()
        if self.cover and x < 0.55:
            return self.cover[self.r.randrange(len(self.cover))]
        if x < 0.75:
            return self.r.choice(COMMON)
        if x < 0.88:
            return self.r.choice(INSTR)
        return self.r.choice(TYPES)

    def const(self, t=None):
        t = t or self.type()
        if self.r.random() < 0.03 and t is None:
            i = self.new(kind="N_CONST", type=("std::nullptr_t", 1, 0, 1))
        else:
            i = self.new(kind="N_CONST", type=t)
        return i, "cst<%s>(%d, %d)" % (self.nodes[i]["type"][0], self.sid, i)

    def src(self, t=None, var=None):
        t = t or self.type()
        i = self.new(kind="N_SRC", type=t, cell=self.r.randrange(6))
        T, S = t[0], self.sid
        v = var if var is not None else self.r.choice(["E", "E", "M", "M", "L", "ML", "FP", "SF", "C", "R", "N", "RW", "B", "Q", "H"])
        if v == "R" and not t[3]:
            v = "E"
        self.nodes[i]["ctr"] = v in ("M", "ML", "C", "Q", "H")
        e = {
            "H": "SrcH<%s, %d>{ %d, %d }" % (T, [24, 80, 200, 1200][i % 4], S, i),
            "Q": "SrcQ<%s>{ %d, %d }" % (T, S, i),
            "E": "SrcE<%d, %d, %s>{}" % (S, i, T),
            "M": "SrcM<%s>{ %d, %d }" % (T, S, i),
            "L": "[] { return src_body<%s>(%d, %d, -1); }" % (T, S, i),
            "ML": "[c = 0l]() mutable { return src_body<%s>(%d, %d, ++c); }" % (T, S, i),
            "FP": "&src_fp<%d, %d, %s>" % (S, i, T),
            "SF": "std::function<%s()>(SrcE<%d, %d, %s>{})" % (T, S, i, T),
            "C": "SrcC<%s>(%d, %d)" % (T, S, i),
            "R": "SrcR<%d, %d, %s>{}" % (S, i, T),
            "N": "SrcN<%d, %d, %s>{}" % (S, i, T),
            "RW": "std::cref(kept<SrcE<%d, %d, %s>>)" % (S, i, T),
            "B": "pigro::bind_back(SrcB<%d, %d, %s>{}, 41)" % (S, i, T),
        }[v]
        return i, e

    def clone_subtree(self, root):
        """places for a further copy of the lazy `root`; returns the new root"""
        sub = []
        def walk(p):
            for c in self.nodes[p]["ch"]:
                walk(c)
            sub.append(p)
        walk(root)
        m = {}
        for p in sorted(set(sub)):
            n = dict(self.nodes[p])
            n["ch"] = [m[c] for c in n["ch"]]
            m[p] = self.new(**n)
            self.code.append("c.dup(%d, %d);" % (p, m[p]))
        return m[root]

    def again(self, deps, times=1):
        """a plain function that is among the dependencies, in further places"""
        srcs = [d for d in deps if self.nodes[d[0]]["kind"] == "N_SRC"]
        if srcs:
            p, e = self.r.choice(srcs)
            for _ in range(times):
                deps.append((self.clone_subtree(p), e))

    def fn(self, deps, t=None, void=False, var=None):
        """deps: list of (place, expr)"""
        t = t or self.type()
        R = "void" if void else t[0]
        i = self.new(kind="N_FN", type=t, ch=[d[0] for d in deps], void=void)
        S = self.sid
        voiddep = any(self.nodes[d[0]]["void"] for d in deps)
        v = var or self.r.choice(["E", "E", "M", "M", "L", "ML", "FP", "SF", "V", "C", "SFC", "N", "R", "RW", "B", "F", "Q", "H"])
        if voiddep and v in ("FP", "SF", "SFC"):
            v = "E"
        if v == "R" and (void or not t[3]):
            v = "N"
        self.nodes[i]["ctr"] = v in ("M", "ML", "C", "SFC", "Q", "H")
        at = [self.nodes[d[0]]["type"][0] for d in deps]
        byval = [self.r.random() < 0.3 for _ in deps]
        sig = ", ".join(a if b else "const %s &" % a for a, b in zip(at, byval))
        if v == "FP":
            ps = ", ".join("%s a%d" % (a if b else "const %s &" % a, j) for j, (a, b) in enumerate(zip(at, byval)))
            self.decls.append("static %s fp%d_%d(%s) { return fn_body<%s>(%d, %d, -1%s); }" % (R, S, i, ps, R, S, i, "".join(", a%d" % j for j in range(len(at)))))
        e = {
            "H": "FnH<%s, %d>{ %d, %d }" % (R, [24, 80, 200, 1200][i % 4], S, i),
            "Q": "FnQ<%s>{ %d, %d }" % (R, S, i),
            "E": "FnE<%d, %d, %s>{}" % (S, i, R),
            "M": "FnM<%s>{ %d, %d }" % (R, S, i),
            "L": "[](const auto &...a) { return fn_body<%s>(%d, %d, -1, a...); }" % (R, S, i),
            "ML": "[c = 0l](const auto &...a) mutable { return fn_body<%s>(%d, %d, ++c, a...); }" % (R, S, i),
            "FP": "&fp%d_%d" % (S, i),
            "SF": "std::function<%s(%s)>(FnE<%d, %d, %s>{})" % (R, sig, S, i, R),
            "SFC": "std::function<%s(%s)>(FnC<%s>(%d, %d))" % (R, sig, R, S, i),
            "V": "FnV<%d, %d, %s>{}" % (S, i, R),
            "C": "FnC<%s>(%d, %d)" % (R, S, i),
            "N": "FnN<%d, %d, %s>{}" % (S, i, R),
            "R": "FnR<%d, %d, %s>{}" % (S, i, R),
            "RW": "std::cref(kept<FnE<%d, %d, %s>>)" % (S, i, R),
            "B": "pigro::bind_back(FnB<%d, %d, %s>{}, 41)" % (S, i, R),
            "F": "pigro::bind_front_tuple(FnF<%d, %d, %s>{}, std::tuple{ 41 })" % (S, i, R),
        }[v]
        # some of them are the caller's own objects, which change or go away afterwards
        given, own = {}, []
        for x in [e] + [d[1] for d in deps if self.nodes[d[0]]["kind"] != "N_FN"]:
            y = self.r.random()
            if x in given or y > 0.4:
                given.setdefault(x, x)
                continue
            name = "x%d_%d" % (i, len(own))
            self.code.append("%sauto %s = %s;" % ("const " if y < 0.08 else "", name, x))
            own.append(name)
            given[x] = "std::move(%s)" % name if y > 0.32 and sum(d[1] == x for d in deps) < 2 else name
        args = [given[e]] + [given.get(d[1], d[1]) for d in deps]
        self.code.append("auto v%d = pigro::lazy(%s);" % (i, ", ".join(args)))
        for x in own:
            self.code.append("spoil(%s);" % x)
        self.code.append("c.sub(%d, v%d);" % (i, i))
        return i, "v%d" % i

    def tree(self, depth, width, pvoid):
        r = self.r
        k = r.choice([1, 1, 2, 2, 3, 3, 4]) if depth > 0 else r.choice([0, 1, 1, 2, 3])
        k = min(k, width)
        deps = []
        for _ in range(k):
            x = r.random()
            if depth > 0 and x < 0.5:
                deps.append(self.tree(depth - 1, width, pvoid))
            elif x < 0.85:
                deps.append(self.src())
            else:
                deps.append(self.const())
        if r.random() < 0.08:
            self.again(deps)
        r.shuffle(deps)
        if not deps:
            self.tags.add("ST_ZERO")
        return self.fn(deps, void=r.random() < pvoid)

    def finish(self):
        n = self.nodes
        if any(x["void"] for x in n): self.tags.add("ST_VOID")
        if any(x["def"] != i for i, x in enumerate(n)): self.tags.add("ST_DUP")
        if any(x["type"][2] and x["kind"] != "N_CONST" for x in n): self.tags.add("ST_INSTR")
        if any(x["ctr"] for x in n): self.tags.add("ST_CTR")
        def txt(p):
            x = n[p]
            t = "void" if x["void"] else x["type"][0].replace("std::", "")
            if x["kind"] == "N_CONST": return "%d=const:%s" % (p, t)
            if x["kind"] == "N_SRC": return "%d=dep:%s" % (p, t)
            return "%d=lazy:%s(%s)" % (p, t, ",".join(txt(c) for c in x["ch"]))
        text = txt(len(n) - 1)
        if len(text) > 150: text = text[:147] + "..."
        S = self.sid
        o = ["// " + text]
        o += self.decls
        o.append("static const NodeDesc nodes_%d[] = {" % S)
        for x in n:
            o.append("    { %s, %d, %d, %d, %d, %d, %d, { %s } }," % (x["kind"], x["type"][1], x["void"], x["ctr"], x["def"], x["cell"], len(x["ch"]), ", ".join(map(str, x["ch"])) or "0"))
        o.append("};")
        o.append("static AnyLazy *build_%d(BuildCtx &c) {" % S)
        o += ["    " + l for l in self.code]
        o.append("    return c.finish(v%d);" % (len(n) - 1))
        o.append("}")
        o.append('static const Shape shape_%d{ %d, "%s", %d, nodes_%d, build_%d, %s };' % (S, S, "#%d %s" % (S, text), len(n), S, S, "|".join(sorted(self.tags)) or "0"))
        return "\n".join(o)


def make(sid, seed, k, covertypes):
    for att in range(50):
        r = random.Random("%s/%s/%s" % (seed, sid, att))
        g = G(sid, r, covertypes)
        try:
            style = k % 12
            g.big = k % 24 in (1, 14)
            if k % 24 == 1:  # very long chain
                d = r.choice([12, 18, 26, 36, 44])
                x = g.fn([g.src()])
                for j in range(d - 1):
                    x = g.fn([x] + ([g.src()] if r.random() < 0.2 else []), void=r.random() < 0.03)
                g.tags.add("ST_DEEP")
            elif k % 24 == 14:  # very wide
                w = r.choice([14, 17, 20, 24])
                g.fn([g.src() if r.random() < 0.8 else g.const() if r.random() < 0.6 else g.fn([g.src()]) for j in range(w)])
                g.tags.add("ST_WIDE")
            elif style == 0:  # one dependency of each sort, one type throughout
                t = covertypes[0]
                g.fn([g.src(t), g.const(t)], t=t)
            elif style == 1:  # chain
                d = r.choice([4, 5, 6, 7])
                x = g.fn([g.src()], void=False)
                for j in range(d - 1):
                    x = g.fn([x] + ([g.src()] if r.random() < 0.3 else []) + ([g.const()] if r.random() < 0.2 else []), void=r.random() < 0.08)
                g.tags.add("ST_DEEP")
            elif style == 2:  # wide
                w = r.choice([6, 8, 9, 11, 12])
                deps = []
                for j in range(w):
                    y = r.random()
                    deps.append(g.src() if y < 0.6 else g.const() if y < 0.75 else g.fn([g.src()], void=False))
                g.fn(deps)
                g.tags.add("ST_WIDE")
            elif style == 3:  # void
                x = g.fn([g.src()] + ([g.src()] if r.random() < .5 else []), void=True)
                if r.random() < 0.8:
                    y = g.fn([x, g.src()] if r.random() < .6 else [g.src(), x], void=r.random() < 0.5)
                    if r.random() < 0.5: g.fn([y, g.const()], void=r.random() < 0.5)
            elif style == 4:  # no dependencies, then dependents
                z = g.fn([], t=covertypes[0])
                g.tags.add("ST_ZERO")
                z2 = g.fn([], void=r.random() < 0.3)
                g.fn([z, g.src(), z2])
            elif style == 5:  # the same lazy in several places
                a = g.fn([g.src()], void=r.random() < .15)
                a1 = (g.clone_subtree(a[0]), a[1])
                b = g.fn([a1, g.src()])
                if r.random() < 0.5:
                    a2 = (g.clone_subtree(a[0]), a[1])
                    b = g.fn([a2, b])
                g.fn([a, b])
            elif style == 6:  # void inside a larger tree
                g.tree(2, 4, 0.35)
                if not any(x["void"] for x in g.nodes): continue
            elif style == 7:  # a lone function, or two levels, of one type
                t = covertypes[1 % len(covertypes)]
                x = g.fn([g.src(t)], t=t)
                g.fn([x, g.src(t)], t=t)
            elif style == 8:  # siblings: several sub-lazies side by side
                deps = [g.fn([g.src()]) for _ in range(r.choice([2, 3, 4]))]
                g.fn(deps + [g.fn([])] if r.random() < 0.4 else deps)
            elif style == 11:  # one plain function in several places
                deps = [g.src(var=r.choice(["E", "E", "L", "FP", "N", "M", "C", "RW"]))]
                g.again(deps, r.choice([1, 1, 2, 3]))
                if r.random() < 0.3: deps.append(g.const())
                x = g.fn(deps)
                if r.random() < 0.6:
                    y = [x, g.src()]
                    if r.random() < 0.5: g.again(y)
                    g.fn(y)
            else:
                g.tree(r.choice([1, 2, 2, 3, 3]), r.choice([2, 3, 4, 5]), 0.06)
            if not g.big and (len(g.nodes) > MAXN - 2 or sum(x["kind"] == "N_FN" for x in g.nodes) > 14): continue
            return g.finish()
        except Full:
            continue
    raise SystemExit("cannot make shape %d" % sid)


def main():
    out, tus, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    os.makedirs(out, exist_ok=True)
    made = []
    for sid in range(1, tus * per + 1):
        q = sid * 3
        cover = [TYPES[(q + d) % len(TYPES)] for d in range(3)]
        text = make(sid, seed, sid - 1, cover)
        made.append(("ST_VOID" in text, sid, text))
    # programs that use the same features share a file: a feature that stops compiling takes few others with it
    made.sort(key=lambda m: m[:2])

    def write(name, ms):
        o = ["// generated by gen_shapes.py", '#include "lazy_rt.h"', '#include <pigro/lazy.h>', "namespace sim::lz {", "namespace tu_%s {" % name]
        o += [m[2] for m in ms]
        o.append("static const Shape *const all[] = { %s };" % ", ".join("&shape_%d" % m[1] for m in ms))
        o.append("static Reg reg{ all, %d };" % len(ms))
        o += ["} // namespace", "} // namespace sim::lz"]
        with open(os.path.join(out, name + ".cpp"), "w") as f:
            f.write("\n".join(o) + "\n")

    for tu in range(tus):
        ms = made[tu * per:(tu + 1) * per]
        write("shapes_%d" % tu, ms)
        for m in ms:  # used when the file as a whole does not compile
            write("shape_%d_%d" % (tu, m[1]), [m])


main()
