"""Seeded random scenarios for the conformance harness.

Every generator returns episodes (lists of commands, the first a "begin").  The
commands and literals are those the trace specification (spec/Trace.tla)
understands; nothing here says what the results should be.  The rules that keep a
scenario inside the preconditions of the library (sparse indices below the
dimension, equal lengths for dense merges, inputs of the basis's dimension, ...)
are marked "precondition".
"""
import math, random
from decimal import Decimal, getcontext

getcontext().prec = 1200

BEGIN = {"op": "begin"}


def num(x):
    """The shortest decimal that reads back as x; where two are equally near to x (printers
    then differ in the one they choose) the neighbouring float."""
    while True:
        n = Decimal(repr(x))
        if not n.is_finite() or 2 * abs(Decimal(x) - n) != Decimal(1).scaleb(n.as_tuple().exponent):
            return repr(x)
        x = math.nextafter(x, math.inf)


def s(x):
    return x if isinstance(x, str) else num(x) if isinstance(x, float) else str(x)


class Gen:
    def __init__(self, seed, scale=1.0):
        self.r = random.Random(seed)
        self.scale = scale

    # ---- numbers and dimensions -------------------------------------------------
    def val(self, zero=True, big=True):
        r = self.r
        u = r.random()
        if self.infs and u < .02:
            return r.choice(self.infs)
        if self.wide and self.wide[0] == -300 and u < .03:      # the edges of the range of floats
            return r.choice(["5e-324", "-5e-324", "2.2250738585072014e-308", "1e-310", num(r.choice([-1, 1]) * 10 ** r.uniform(-322, -305))] + (
                ["1.7976931348623157e308", "-1.7976931348623157e308"] if self.wide[1] >= 300 else []))
        if u < .12 and zero:
            return "0"
        if u < .14 and zero:
            return "-0.0"
        if u < .45:
            return r.choice(["1", "-1", "0.5", "-0.5", "2", "-2", "0.25", "3", "-3", "1.5", "-0.75", "10"])
        if u < .88 or not big:
            return num(r.gauss(0, 1) or 1.0)
        sign, lo, hi = r.choice([-1, 1]), -6.5, 6
        if u >= .94:
            lo, hi = -14, 12
        if self.wide and u >= .98:
            lo, hi = self.wide
        return num(sign * 10 ** r.uniform(lo, hi))

    infs = None         # infinities, where no arithmetic is done or its result is not in doubt
    wide = None         # exponents of ten, where the calls made are linear or only look

    def vals(self, n, **k):
        return [self.val(**k) for _ in range(n)]

    force = None        # a number of features most vectors have

    def bulk(self, q, k=10, lo=257, hi=1100):
        """the first k scenarios of a generator have many features"""
        self.force = (self.r.randint(lo, min(hi, 300)) if q % 2 else self.r.randint(lo, hi)) if q < k else None
        return self.force is not None

    def dim(self, lo=0, big=.06, huge=.01):
        r = self.r
        if self.force and r.random() < .85:
            return self.force
        u = r.random()
        if u < huge / 4:
            return r.choice([r.randint(200, 600), r.randint(250, 260), r.randint(500, 1100)])
        if u < huge:
            return r.randint(60, 200)
        if u < huge + big:
            return r.randint(9, 40)
        return max(lo, r.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8]))

    def subset(self, n, p=None):
        r = self.r
        p = r.choice([0, .2, .5, .5, .8, 1]) if p is None else p
        ix = [i for i in range(n) if r.random() < p]
        if n and r.random() < .3:
            ix = sorted(set(ix) | {n - 1})
        if n and r.random() < .3:
            ix = sorted(set(ix) | {0})
        r.shuffle(ix)
        return ix

    # ---- feature literals -------------------------------------------------------
    def dense(self, n, v=None):
        v = self.vals(n) if v is None else v
        c = self.r.choice(["dense", "dense", "vec", "iter", "array"])
        f = {"c": c, "v": v}
        if c == "array":
            f["lay"] = self.r.choice(["std", "rev", "stride", "slice"])
        return f

    def sparse(self, n):
        r = self.r
        ix = self.subset(n)
        c = r.choice(["sparse", "sparse", "record", "unitary", "indices"])
        if c == "indices":
            if n == 0:
                return {"c": c, "i": []}
            ix = sorted(set(ix) | {n - 1})
            r.shuffle(ix)
            if r.random() < .2:
                ix.append(r.choice(ix))
            return {"c": c, "i": ix}
        if c == "unitary":
            if ix and r.random() < .2:
                ix.append(r.choice(ix))
            return {"c": c, "n": n, "i": ix}
        return {"c": c, "n": n, "i": ix, "v": self.vals(len(ix))}

    def feats(self, n=None, rep=None, **k):
        n = self.dim(**k) if n is None else n
        rep = self.r.choice("ds") if rep is None else rep
        return self.dense(n) if rep == "d" else self.sparse(n)

    @staticmethod
    def rep(f):
        return "d" if f["c"] in ("dense", "vec", "iter", "array") else "s"

    @staticmethod
    def size(f):
        if "n" in f:
            return f["n"]
        if f["c"] == "indices":
            return max(f["i"]) + 1 if f["i"] else 0
        return len(f["v"])

    @staticmethod
    def denote(f):
        v = [0.0] * Gen.size(f)
        if Gen.rep(f) == "d":
            return [float(x) for x in f["v"]]
        for j, i in enumerate(f["i"]):
            v[i] = float(f["v"][j]) if "v" in f else 1.0
        return v

    # ---- closures ---------------------------------------------------------------
    def fn1(self, tame=False, recip=False):
        r = self.r
        ks = ["id", "aff", "aff", "neg", "abs", "cos", "gate", "const"] + ([] if tame else ["sq", "exp1"]) + (["recip"] if recip else [])
        k = r.choice(ks)
        if k == "aff":
            a = r.choice(["1", "0.5", "-1", "0", num(r.uniform(-1, 1))] + ([] if tame else ["2", "-3"]))
            return {"k": "aff", "a": a, "b": r.choice(["0", "0", "0", "1", "-0.25", "0.01"])}
        if k == "const":
            return {"k": "const", "b": r.choice(["0", "1", "-2", "0.001"])}
        if k == "gate":
            return {"k": "gate", "a": r.choice(["0", "-1", "0.5"]), "b": r.choice(["0", "0", "2"])}
        if k == "exp1":
            k = "exp" if self.small else "sq"
        return {"k": k}

    small = True

    def fn1_single(self, f):
        """closures for single-shot maps, including ones near the sparsity threshold"""
        r = self.r
        d = self.denote(f)
        self.small = all(abs(x) < 30 for x in d)
        if r.random() < .25:
            return {"k": "aff", "a": r.choice(["0", "1", "-2"]),
                    "b": r.choice(["1e-5", "-1e-5", "0.00000999", "-0.00000999", "1.01e-5", "-1.01e-5", "1e-6", "-1e-9", "0.0001", "-0.5"])}
        neg0 = any(math.copysign(1, x) < 0 and x == 0 for x in d)
        return self.fn1(recip=not neg0)

    def fn2(self, tame=False):
        r = self.r
        ks = ["add", "sub", "mul", "max", "min", "left", "right", "aff", "and", "or", "nand"]
        k = r.choice(ks + (["sqd"] if not tame else []))
        if k == "aff":
            cs = ["1", "0.5", "-1", "0"] + ([] if tame else ["2"])
            return {"k": k, "a": r.choice(cs), "b": r.choice(cs), "c": r.choice(["0", "0", "0", "1", "-0.01"])}
        if k == "nand":
            return {"k": k, "c": r.choice(["1", "0", "-0.5"])}
        return {"k": k}

    def fn2_single(self):
        if self.r.random() < .2:
            return {"k": "aff", "a": self.r.choice(["1", "0", "-2"]), "b": self.r.choice(["1", "0", "0.5"]),
                    "c": self.r.choice(["1e-5", "-1e-5", "0.00000999", "-0.00000999", "1.01e-5", "-1.01e-5", "1e-7", "0.0001"])}
        if self.r.random() < .1:
            return {"k": "nand", "c": self.r.choice(["0.000009", "0.00002", "-0.00002"])}
        return self.fn2()

    @staticmethod
    def null1(g):
        k = g["k"]
        return {"id": 0, "neg": 0, "sq": 0, "abs": 0, "cos": 1, "exp": 1, "recip": math.inf}.get(k) if k not in ("aff", "const", "gate") else \
            float(g["b"]) if k in ("aff", "const") else (0.0 if 0 > float(g["a"]) else float(g["b"]))

    @staticmethod
    def null2(g):
        return float(g.get("c", 0))

    # ---- single calls on features (C01-C05) ---------------------------------------
    def n(self, k):
        return max(1, int(k * self.scale))

    def single(self, cmds):
        return [[BEGIN, c] for c in cmds]

    def read(self, n):
        fs = []
        self.wide = (-300, 140)
        for q in range(self.n(n)):
            self.infs = self.r.choice([None, None, ["inf"], ["-inf"]])
            self.bulk(q)
            f = self.feats()
            if self.r.random() < .1 and self.size(f):
                f = self.dense(0, [self.r.choice(["1e-7", "1.01e-7", "0.99e-7", "-1e-7", "-1.01e-7", "0", "1e-8"]) for _ in range(self.size(f))])
            fs.append({"op": "read", "f": f})
        return self.single(fs)

    def lin(self, n):
        r = self.r
        out = []
        self.wide = (-70, 70)
        for q in range(self.n(n)):
            self.bulk(q)
            d = self.dim()
            k = r.choice([0, 1, 1, 2, 3, 5, 9]) if r.random() < .95 else r.randint(10, 40)
            if k * d > 4000:
                k = 2
            if q % 120 == 60:           # many outputs
                d, k = r.randint(0, 4), r.choice([r.randint(255, 258), r.randint(257, 600), 512, 513])
            # a reversed matrix over no columns is the same as one over no rows: nothing to compute
            out.append({"op": "lin", "f": self.feats(d), "g": self.feats(d), "w": self.vals(d),
                        "lay": r.choice(["std", "rev", "stride", "slice", "col"]), "m": [self.vals(d) for _ in range(k)],
                        "mlay": r.choice(["c", "f", "wide", "flip", "tall", "rrev", "crev", "fcrev", "frrev"]), "alpha": self.val()})
        return self.single(out)

    def map(self, n):
        out = []
        for q in range(self.n(n)):
            self.bulk(q)
            f = self.feats()
            g = self.fn1_single(f)
            if f.get("v") and self.r.random() < .12:        # an entry is mapped to zero
                r = self.r
                a, b = r.choice([("1", -1), ("-1", 1), ("0.5", -2)]), r.choice(["1e-6", "-1e-6", "1e-9", "1e-5", "2e-5", "1", "-2"])
                f["v"][r.randrange(len(f["v"]))] = num(float(b) * a[1])
                g = {"k": "aff", "a": a[0], "b": b}
            out.append({"op": "map", "f": f, "fn": g})
        return self.single(out)

    def merge(self, n):
        r = self.r
        out = []
        for q in range(self.n(n)):
            self.bulk(q, 14)
            f = self.feats()
            rep = r.choice("ds")
            m = self.size(f) if rep == self.rep(f) == "d" or r.random() < .4 else self.dim()  # precondition
            out.append({"op": "merge", "f": f, "g": self.feats(m, rep), "fn": self.fn2_single()})
        return self.single(out)

    def stack(self, n):
        self.wide = (-300, 300)
        self.infs = ["inf", "-inf", "NaN"]
        return self.single([{"op": "stack", "f": self.feats(), "g": self.feats(), "h": self.feats()} for q in range(self.n(n)) if self.bulk(q) or True])

    # ---- index spaces beyond 32 bits ----------------------------------------------------
    def bigdim(self):
        r = self.r
        return r.choice([2 ** 32, 2 ** 32 + 1, 2 ** 31, 2 ** 53 + 1, 2 ** 60, r.randint(1, 2 ** 61), int(2 ** r.uniform(30, 61)), r.randint(1, 9)])

    def bigindex(self, n):
        r = self.r
        return min(n - 1, r.choice([0, 1, n - 1, n // 2, 2 ** 32, 2 ** 32 + 1, 2 ** 31, 2 ** 16, r.randrange(n), int(2 ** r.uniform(0, 60))]))

    def huge_feats(self, n):
        """sparse vectors with sizes and indices of any magnitude"""
        r = self.r
        out = []
        self.infs = None
        for _ in range(self.n(n)):
            def lit(d=None, share=()):
                d = d or self.bigdim()
                ix = [self.bigindex(d) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))] + [i for i in share if i < d and r.random() < .6]
                ix = list(dict.fromkeys(ix))
                return {"c": r.choice(["sparse", "record"]), "n": str(d), "i": [str(i) for i in ix], "v": self.vals(len(ix))}
            f = lit()
            fi = [int(i) for i in f["i"]]
            g = dict(f) if r.random() < .1 else lit(int(f["n"]) if r.random() < .4 else None, fi + [i ^ (1 << 32) for i in fi] + [i + (1 << 32) for i in fi])
            while True:
                fn = self.fn1(tame=True)
                if abs(self.null1(fn)) < 9e-6:
                    break
            while True:
                fn2 = self.fn2(tame=True)
                if fn2["k"] not in ("aff", "nand") or abs(float(fn2["c"])) < 9e-6:
                    break
            fd = int(f["n"])
            at = [self.bigindex(fd) for _ in range(3)] + [fd, fd + 1] + [i for i in fi] + [i % 2 ** 32 for i in fi] + [i + 2 ** 32 for i in fi]
            if fi and r.random() < .8:
                at.insert(0, r.choice(fi))
            out.append({"op": "wide", "f": f, "g": g, "h": lit(), "fn": fn, "fn2": fn2, "at": [str(i) for i in at], "fmt": r.choice(self.FMTS)})
        return self.single(out)

    def huge_bases(self, n):
        """grids with more cells than memory, and stacks of such parts"""
        r = self.r
        out = []
        for _ in range(self.n(n)):
            d = r.choice([1, 2, 3, 4, 6, 8, 10])
            ps, x, dims = [], None, []
            for _ in range(r.choice([1, 1, 2, 3])):
                if x is None or r.random() < .3:
                    if x is not None or r.random() < .75:
                        parts = []
                        t = 1
                        for _ in range(d):
                            m = min(r.choice([2, 3, 10, 100, 1000, 65536, 10 ** 6, 2 ** 30]), max(1, 2 ** 60 // t))
                            t *= m
                            lo, w = r.choice([0.0, -1.0, 2.0, -4.0, .5]), r.choice([.25, .5, 1.0, 2.0])
                            parts.append({"lo": num(lo), "hi": num(lo + m * w), "n": m})
                        if x is None:
                            x = [self.in_part(p) for p in parts]
                        elif any(not self.clear(p, v) for p, v in zip(parts, x)):
                            continue
                        ps.append({"k": "grid", "parts": parts})
                        dims.append(t)
                        continue
                    x = [self.val() for _ in range(d)]
                m = self.bigdim() // 2 + 1
                ps.append({"k": "fixs", "n": str(m), "i": [str(i) for i in {self.bigindex(m) for _ in range(r.randint(0, 4))}]})
                dims.append(m)
            if sum(dims) >= 2 ** 62:
                continue
            tot, edges, acc = sum(dims), [], 0
            for q, p in zip(dims, ps):
                edges += [acc, acc + q - 1, acc + self.bigindex(q)] + [acc + int(i) for i in p.get("i", [])]
                if p["k"] == "grid":
                    c = 0
                    for z, v in zip(p["parts"], x):
                        lo, hi, m = float(z["lo"]), float(z["hi"]), z["n"]
                        c = c * m + min(m - 1, max(0, int((float(v) - lo) / (hi - lo) * m)))
                    edges += [acc + c, acc + c % 2 ** 32, acc + min(q - 1, c + 1), acc + (c ^ (1 << 32)) % q]
                acc += q
            at = edges + [i % 2 ** 32 for i in edges] + [tot, tot + 1, 2 ** 62]
            out.append({"op": "huge", "ps": ps, "left": r.random() < .5, "x": x, "at": [str(i) for i in at], "fmt": r.choice(self.FMTS)})
        return self.single(out)

    def clear(self, p, v):
        """v is not so near an edge of p that rounding decides (or p's edges are representable)"""
        lo, hi, n = float(p["lo"]), float(p["hi"]), p["n"]
        w, v = (hi - lo) / n, float(v)
        if self.dyadic(lo) and self.dyadic(w) and w * n == hi - lo and self.dyadic(v):
            return True
        q = (v - lo) / w
        return abs(q - round(q)) > 1e-4

    def equal(self, n):
        """pairs of one representation: equal, and different in one respect"""
        r = self.r
        out = []
        self.wide = (-300, 300)
        self.infs = ["inf", "-inf"]
        for q in range(self.n(n)):
            self.bulk(q, 14)
            f = self.feats()
            n_, rep = self.size(f), self.rep(f)
            u = r.random()
            if u < .1:
                g = self.feats(n_, rep)
            elif rep == "d":
                v = list(f["v"])
                if u < .35 and v:           # one component differs, perhaps by little
                    k = r.choice([0, len(v) - 1, r.randrange(len(v))])
                    x = float(v[k])
                    v[k] = num(r.choice([-x, x + 1, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), 0.0, x * (1 + 1e-9), x + 1e-9]))
                elif u < .45:
                    v = v + [r.choice(["0", "1"])]
                elif u < .55 and v:
                    v = v[:-1]
                elif u < .6:
                    v = v[::-1]
                g = self.dense(0, v)
            else:
                ix = sorted(set(f["i"])) if f["i"] else []
                at = dict(zip(f["i"], f["v"])) if "v" in f else {i: "1" for i in ix}
                if u < .3 and ix:
                    k = r.choice([ix[0], ix[-1], r.choice(ix)])
                    x = float(at[k])
                    at[k] = num(r.choice([-x, x + 1, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), 0.0, x * (1 + 1e-9), x + 1e-9]))
                elif u < .4:                # an explicit zero, or one entry more
                    free = [i for i in range(n_) if i not in at]
                    if free:
                        at[r.choice(free)] = r.choice(["0", "0", "1"])
                elif u < .5 and ix:
                    del at[r.choice(ix)]
                elif u < .65:
                    n_ += r.choice([1, 1, 3])
                elif u < .75 and len(ix) > 0:       # the same entries elsewhere
                    k, free = r.choice(ix), [i for i in range(n_) if i not in at]
                    if free:
                        at[r.choice(free)] = at.pop(k)
                elif u < .8 and len(ix) > 1:
                    a, b = r.sample(ix, 2)
                    at[a], at[b] = at[b], at[a]
                ks = list(at)
                r.shuffle(ks)
                g = {"c": r.choice(["sparse", "record"]), "n": n_, "i": ks, "v": [at[k] for k in ks]}
            if r.random() < .5:
                f, g = g, f
            out.append({"op": "feq", "f": f, "g": g})
        return self.single(out)

    # ---- edit histories (C06, C07) ---------------------------------------------------
    def twin(self):
        """a sparse literal and a dense one with the same denotation"""
        while True:
            f = self.sparse(self.dim(big=.05, huge=0))
            v = [s(x) for x in self.denote(f)]
            return self.dense(len(v), v), f

    def edits(self, n, length=14):
        r = self.r
        eps = []
        for q in range(self.n(n)):
            bulk = self.bulk(q, 5, hi=500)
            d, f = self.twin()
            size = self.size(f)
            sp = True                       # does the sparse twin still have the sparse representation?
            ep = [BEGIN, {"op": "fnew", "reg": "d", "f": d}, {"op": "fnew", "reg": "s", "f": f}]
            clones = 0
            for _ in range(r.randint(3, length if not bulk else 5)):
                k = r.choice(["remove", "remove", "map", "map", "merge", "merge", "merger", "stack", "clone", "drop"])
                if k == "remove":
                    i = r.randint(0, size + 2)
                    ep += [{"op": "fremove", "reg": x, "i": i} for x in "ds"]
                elif k == "map":
                    g = self.fn1(tame=True)
                    while abs(self.null1(g)) >= 1e-5 and r.random() < .8:
                        g = self.fn1(tame=True)
                    ep += [{"op": "fmap", "reg": x, "fn": g, "mode": r.choice(["ref", "into", "inplace"])} for x in "ds"]
                    sp = sp and abs(self.null1(g)) < 1e-5
                elif k == "merge":
                    rep = r.choice("dss")
                    m = size if rep == "d" else self.dim(big=.03, huge=0)       # precondition
                    h = self.feats(m, rep)
                    g = self.fn2(tame=True)
                    ep += [{"op": "fmerge", "reg": x, "g": h, "fn": g, "mode": r.choice(["ref", "into", "inplace"])} for x in "ds"]
                    sp = sp and rep == "s" and abs(self.null2(g)) < 1e-5
                    size = max(size, m)
                elif k == "merger":             # with the twin itself
                    g = self.fn2(tame=True)
                    ep += [{"op": "fmerger", "reg": "s", "other": "d", "fn": g, "mode": r.choice(["ref", "into", "inplace"])},
                           {"op": "fmerger", "reg": "d", "other": "d", "fn": g, "mode": r.choice(["ref", "into", "inplace"])}]
                    sp = False
                elif k == "stack":
                    if size > (80 if not bulk else 600):
                        continue
                    h = self.feats(huge=0, big=.02)
                    fr = r.random() < .4
                    ep += [{"op": "fstack", "reg": x, "g": h, "front": fr} for x in "ds"]
                    size += self.size(h)
                    sp = sp and self.rep(h) == "s"
                elif k == "clone":
                    clones += 1
                    ep.append({"op": "fclone", "reg": r.choice("ds"), "to": "c%d" % clones})
                else:
                    if clones:
                        ep.append({"op": "fdrop", "reg": "c%d" % clones})
                        clones -= 1
                ep.append({"op": "ftwin", "a": "d", "b": "s", "scale": "1"})
            eps.append(ep)
        return eps

    def plain_edits(self, n):
        """edits without arithmetic, over all magnitudes and infinities"""
        r = self.r
        eps = []
        self.wide, self.infs = (-300, 300), ["inf", "-inf"]
        for q in range(self.n(n)):
            self.bulk(q, 3, hi=500)
            d, f = self.twin()
            size = self.size(f)
            ep = [BEGIN, {"op": "fnew", "reg": "d", "f": d}, {"op": "fnew", "reg": "s", "f": f}]
            for q in range(r.randint(2, 8 if not self.force else 4)):
                k = r.choice(["remove", "remove", "remove", "clone", "stack"])
                if k == "remove":
                    i = r.randint(0, size + 2)
                    ep += [{"op": "fremove", "reg": x, "i": i} for x in "ds"]
                elif k == "clone":
                    ep.append({"op": "fclone", "reg": r.choice("ds"), "to": "c%d" % q})
                elif size < 60:
                    h = self.feats(huge=0, big=.02)
                    fr = r.random() < .4
                    ep += [{"op": "fstack", "reg": x, "g": h, "front": fr} for x in "ds"]
                    size += self.size(h)
                ep.append({"op": "ftwin", "a": "d", "b": "s", "scale": "1"})
            eps.append(ep)
        self.wide = self.infs = None
        return eps

    def panics(self, n):
        r = self.r
        eps = []
        for q in range(self.n(n)):
            self.bulk(q, 12, hi=400)
            f = self.feats(huge=.004)
            size, rep = self.size(f), self.rep(f)
            ep = [BEGIN, {"op": "fnew", "reg": "a", "f": f}, {"op": "fclone", "reg": "a", "to": "b"}]
            # the number of calls is not specified: invocations near the size are tried too
            for _ in range(r.randint(1, 4)):
                k = r.choice([1, 1, 2, 3, max(1, size - 1), max(1, size), size + 1, r.randint(1, size + 2)])
                if r.random() < .5:
                    ep.append({"op": "fpmap", "reg": "a", "fn": self.fn1(tame=True), "k": k})
                    h = None
                else:
                    rp = r.choice("ds")
                    m = size if rp == "d" else self.dim(big=.03, huge=0)
                    if rp == "d" and rep == "s" and r.random() < .5:
                        m = self.dim(big=.03, huge=0)
                    h = self.feats(m, rp)
                    if rep == "d" and rp == "s":
                        pass
                    ep.append({"op": "fpmerge", "reg": "a", "g": h, "fn": self.fn2(tame=True), "k": k})
                # whether the panic was raised is not known here, so only edits valid in either case follow
                c = ep[-1]
                m2 = max(size, self.size(h)) if h else size
                ep.append({"op": "fremove", "reg": "a", "i": r.randint(0, m2 + 1)})
                if m2 != size or rep == "s":
                    ep.append({"op": "fmap", "reg": "a", "fn": {"k": "neg"}, "mode": "inplace"})
                    ep.append({"op": "fstack", "reg": "a", "g": self.feats(2), "front": False})
                    break
            ep.append({"op": "fdrop", "reg": "a"})
            eps.append(ep)
        return eps

    def panic_sweep(self, n):
        """a panic at every single invocation"""
        r = self.r
        eps = []
        for _ in range(self.n(n)):
            f = self.feats(self.r.randint(0, 6))
            size, rep = self.size(f), self.rep(f)
            rp = r.choice("ds")
            g = self.feats(size if rp == rep == "d" else r.randint(0, 6), rp)
            f1, f2 = self.fn1(tame=True), self.fn2(tame=True)
            for k in range(1, 2 * max(size, self.size(g)) + 3):
                eps.append([BEGIN, {"op": "fnew", "reg": "a", "f": f}, {"op": "fpmap", "reg": "a", "fn": f1, "k": k},
                            {"op": "fremove", "reg": "a", "i": 0}, {"op": "fdrop", "reg": "a"}])
                eps.append([BEGIN, {"op": "fnew", "reg": "a", "f": f}, {"op": "fpmerge", "reg": "a", "g": g, "fn": f2, "k": k},
                            {"op": "fmap", "reg": "a", "fn": {"k": "neg"}, "mode": "inplace"}, {"op": "fdrop", "reg": "a"}])
        return eps

    # ---- bases ---------------------------------------------------------------------
    def limits(self, d, wild=False):
        r = self.r
        out = []
        for _ in range(d):
            lo = r.choice([0.0, -1.0, 1.0, -3.5, r.uniform(-5, 5)])
            hi = lo + r.choice([1.0, 2.0, 0.5, 10.0, r.uniform(.2, 8)])
            out.append([num(lo), num(hi)])
        return out

    def parts(self, d, cap=300):
        r = self.r
        while True:
            ps = []
            for _ in range(d):
                n = r.choice([1, 2, 2, 3, 4, 5, 7, 10, 16] if d < 6 else [1, 1, 1, 2, 2, 3, 5])
                if d > 9 and r.random() < .6:
                    n = 1
                if cap >= 300 and r.random() < (.1 if d < 10 else 1 / d):
                    n = r.choice([r.randint(17, 300), r.randint(250, 270), r.randint(300, min(cap, 70000))])
                if r.random() < .6:          # edges are representable
                    w = r.choice([.25, .5, 1.0, 2.0])
                    lo = r.choice([0.0, -1.0, 2.0, -4.0, .5])
                    ps.append({"lo": num(lo), "hi": num(lo + n * w), "n": n})
                else:
                    lo = r.uniform(-5, 5)
                    ps.append({"lo": num(lo), "hi": num(lo + r.uniform(.5, 10)), "n": n})
            t = 1
            for p in ps:
                t *= p["n"]
            if cap // 50000 < t <= cap:
                return ps

    @staticmethod
    def dyadic(x):
        return float(x) * 4096 == int(float(x) * 4096)

    def in_part(self, p, far=False):
        """an input for one dimension of a partition: on an edge only if all edges are representable"""
        r = self.r
        lo, hi, n = float(p["lo"]), float(p["hi"]), p["n"]
        w = (hi - lo) / n
        if self.dyadic(lo) and self.dyadic(w) and w * n == hi - lo:
            u = r.random()
            if u < .5:
                return num(lo + r.randint(-2, 2 * n + 3) * w / 2)
            if u < .65:
                return r.choice([num(lo), num(hi), num(lo - 100), num(hi + 100), num(hi - w), num(lo + w)])
            if u < .69 and far:
                return r.choice(["1e9", "-1e9", "5e9", "-5e12", "1e30", "-1e300", "1e300", "1.7e308", "-1.7e308", "inf", "-inf"])
        u = r.random()
        if u < .1:
            return num(lo - r.uniform(.01, 50))
        if u < .2:
            return num(hi + r.uniform(.01, 50))
        j = r.randint(0, n - 1)
        return num(lo + (j + r.uniform(.02, .98)) * w)

    def kern(self, d, wide=False):
        r = self.r
        k = r.choice(["exp", "m32", "m52", "eq", "cos", "rq"])
        ls = [num(r.choice([1.0, .5, 2.0, r.uniform(.3, 6)])) for _ in range(1 if r.random() < .35 else d)]
        return {"k": k, "var": num(r.choice([1.0, 2.0, .5, r.uniform(.05, 20)])), "ls": ls,
                "pow": num(r.choice([1.0, .5, 2.0, r.uniform(.2, 6)]))}

    def point(self, d, lo=-4, hi=4):
        r = self.r
        return [r.choice(["0", "1", "-1", "0.5", num(r.uniform(lo, hi)), num(r.uniform(lo, hi))]) for _ in range(d)]

    def tuples(self, d, hi, lo=0):
        """tables a user may give a basis: any tuples, in any order, repeated or none"""
        r = self.r
        ts = [[r.randint(lo, hi) if r.random() < .7 else r.choice([0, 0, 1, lo]) for _ in range(d)] for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
        if ts and r.random() < .3:
            ts.append(list(r.choice(ts)))
        return ts

    def edited(self, b, d, st):
        """a leaf whose public fields were assigned after construction"""
        r = self.r
        k = b["k"]
        if r.random() >= .3:
            return b
        if k == "poly":
            return {"k": "polyx", "e": self.tuples(d, r.choice([3, 3, 9]))}
        if k == "four":
            co = [[num(x + r.choice([0.0, 0.5, r.uniform(-1, 1)])) for x in t] for t in self.tuples(d, 4, -4)]
            return {"k": "fourx", "lim": b["lim"], "co": co}
        if k == "cheb" and not self.saving:
            return {"k": "chebx", "lim": b["lim"], "e": self.tuples(d, r.choice([2, 4, 11]))}
        if k in ("bias", "fixd", "fixs"):
            return {**b, "ed": True}
        if k == "kern" and b["cent"]:
            ks = []
            for _ in b["cent"]:
                while True:
                    K = self.kern(d)
                    if K["k"] == b["kern"]["k"]:
                        break
                K["ls"] = [num(max(float(v), 2.0)) for v in K["ls"]]
                ks.append(r.choice([K, K, b["kern"]]))
            return {**b, "kerns": ks, "homog": False, "ed": r.random() < .6}
        return b

    saving = False

    def leaf(self, d, st):
        return self.edited(self.leaf0(d, st), d, st)

    def leaf0(self, d, st):
        r = self.r
        k = r.choice(["bias", "fixd", "fixs", "poly", "four", "cheb", "grid", "tile", "kern", "kpart", "phi", "phi", "fail"])
        if d == 0 and k in ("poly", "four", "cheb", "grid", "kpart", "tile"):       # precondition: at least one input
            k = r.choice(["bias", "phi", "fixs"])
        if k == "phi" and st.get("phi") is not None and r.random() < .5:
            k = "phi"
        if k == "bias":
            return {"k": k, "c": r.choice(["1", "1", self.val(zero=False)])}
        if k == "fixd":
            return {"k": k, "v": self.vals(r.choice([0, 1, 2, 3, 5]))}
        if k == "fixs":
            n = r.choice([0, 1, 2, 4, 7])
            return {"k": k, "n": n, "i": sorted(self.subset(n))}
        if k == "poly":
            o = r.choice([0, 1, 1, 2, 2, 3]) if d > 1 else r.randint(0, 7)
            if (o + 1) ** d > 130:
                o = 1 if d <= 8 else 0
            if d == 1 and r.random() < .06:
                o = r.randint(20, 255)
            return {"k": k, "d": d, "o": o, "z": r.random() < .5}
        if k in ("four", "cheb"):
            o = r.choice([0, 1, 1, 2, 2, 3]) if d > 1 else r.randint(0, 8)
            if (o + 1) ** d > 130:
                o = 1 if d <= 8 else 0
            if d == 1 and r.random() < .1:
                o = r.randint(9, 11) if k == "cheb" else r.randint(20, 255)
            b = {"k": k, "o": o, "lim": self.limits(d), "sp": r.random() < .3}
            if k == "cheb":
                b["z"] = r.random() < .5
            return b
        if k == "grid":
            return {"k": k, "parts": self.parts(d, 120)}
        if k == "tile":
            st["tile"] = st.get("tile", 0) + 1
            return {"k": k, "n": r.choice([1, 2, 3, 4, 8, 8, 20]), "m": r.choice([1, 2, 7, 16, 50, 200]), "id": st["tile"], "h": r.choice(["sip", "mix"])}
        if k == "kern":
            c = [self.point(d) for _ in range(r.choice([0, 1, 2, 3, 6, 20]))]
            K = self.kern(d)
            K["ls"] = [num(max(float(v), 2.0)) for v in K["ls"]]
            return {"k": k, "kern": K, "cent": c, "homog": r.random() < .5}
        if k == "kpart":
            return {"k": k, "kk": r.choice(["eq", "m32", "m52"]), "parts": self.parts(d, 60)}
        if k == "phi":
            if st.get("phi") is None:
                st["phi"] = self.feats(huge=0, big=.03)
            return {"k": k, "n": self.size(st["phi"])}
        st["fail"] = st.get("fail", 0) + 1
        return {"k": "fail", "n": r.choice([0, 1, 2]), "c": st["fail"]}

    def ast(self, d, st, depth):
        r = self.r
        if depth == 0 or r.random() < .25:
            return self.leaf(d, st)
        k = r.choice(["stack", "stack", "wb", "l0", "l1", "l2", "linf"])
        if k == "stack":
            return {"k": k, "a": self.ast(d, st, depth - 1), "b": self.ast(d, st, depth - 1)}
        return {"k": k, "a": self.ast(d, st, depth - 1)}

    def renumber(self, b, n=1):
        """number tile leaves from the left"""
        if b["k"] == "tile":
            b["id"] = n
            return n + 1
        for c in "ab":
            if isinstance(b.get(c), dict):
                n = self.renumber(b[c], n)
        return n

    def leaves(self, b):
        if b["k"] in ("stack", "wb", "l0", "l1", "l2", "linf"):
            return [x for c in "ab" if isinstance(b.get(c), dict) for x in self.leaves(b[c])]
        return [b]

    def inputs(self, b, d, st, fails=True):
        """an input suitable for all leaves of b"""
        r = self.r
        x = []
        part = [l["parts"] for l in self.leaves(b) if "parts" in l]
        lim = [l["lim"] for l in self.leaves(b) if "lim" in l]
        tile = any(l["k"] == "tile" for l in self.leaves(b))
        for k in range(d):
            ps = [p[k] for p in part]
            if tile or len(ps) > 1:
                # off every edge: a full random mantissa
                lo, hi = (float(ps[0]["lo"]), float(ps[0]["hi"])) if ps else (-3.0, 3.0)
                x.append(num(r.uniform(lo - .5, hi + .5)))
            elif ps:
                x.append(self.in_part(ps[0]))
            elif lim:
                lo, hi = (float(t) for t in r.choice(lim)[k])
                x.append(r.choice([num(lo), num(hi), num((lo + hi) / 2), num(r.uniform(lo, hi)), num(r.uniform(lo, hi)), num(r.uniform(lo - 1, hi + 1))]))
            else:
                x.append(self.val(big=False))
        if any(l["k"] == "poly" and l["o"] > 8 or l["k"] == "polyx" and any(q > 3 for e in l["e"] for q in e) for l in self.leaves(b)) and x:
            x = [num(min(max(float(v), -1.3), 1.3)) for v in x]
        # kernels must not underflow where they are normalised
        if any(l["k"] == "kern" for l in self.leaves(b)):
            lim_ = 12.0 if part else 4.0
            x = [num(min(max(float(v), -lim_), lim_)) for v in x]
        for l in self.leaves(b):
            if l["k"] == "kpart":
                for k, p in enumerate(l["parts"]):
                    w = (float(p["hi"]) - float(p["lo"])) / p["n"]
                    x[k] = num(min(max(float(x[k]), float(p["lo"]) - 3 * w), float(p["hi"]) + 3 * w))
        cs = [l["c"] for l in self.leaves(b) if l["k"] == "fail"]
        fl = [c for c in cs if r.random() < .3] if fails else []
        return {"x": x, "phi": st.get("phi") or {"c": "dense", "v": []}, "fail": fl}

    def scaled(self, c, p=.12):
        """the same in another unit of length: exact, as it is a power of two"""
        r = self.r
        leaves = self.leaves(c["b"])
        if r.random() >= p or any(l["k"] in ("poly", "polyx", "tile") for l in leaves) or not any(l["k"] in ("four", "cheb", "fourx", "chebx", "grid", "kern", "kpart") for l in leaves):
            return c
        z = Decimal(2) ** r.choice([r.randint(-45, 150), r.randint(-45, 60), 40, 60])

        def by(x):
            y = Decimal(float(x)) * z
            return x if x.strip("-") == "inf" or abs(y) > 10 ** 300 else format(y.normalize(), "e") if y else x

        def leaf(l):
            l = dict(l)
            if "lim" in l:
                l["lim"] = [[by(a), by(b)] for a, b in l["lim"]]
            if "parts" in l:
                l["parts"] = [{**q, "lo": by(q["lo"]), "hi": by(q["hi"])} for q in l["parts"]]
            for k in ("kern", "kerns"):
                if k in l:
                    K = [{**q, "ls": [by(v) for v in q["ls"]]} for q in ([l[k]] if k == "kern" else l[k])]
                    l[k] = K[0] if k == "kern" else K
            if "cent" in l:
                l["cent"] = [[by(v) for v in q] for q in l["cent"]]
            return l

        def tree(b):
            return {**b, **{q: tree(b[q]) for q in "ab" if isinstance(b.get(q), dict)}} if b["k"] in ("stack", "wb", "l0", "l1", "l2", "linf") else leaf(b)
        c = {**c, "b": tree(c["b"]), "in": {**c["in"], "x": [by(v) for v in c["in"]["x"]]}}
        if "more" in c:
            c["more"] = [{**i, "x": [by(v) for v in i["x"]]} for i in c["more"]]
        return c

    def beside(self, c, p=.15):
        """the command, or it and one that asks another basis about the same input(s), right afterwards"""
        r = self.r
        b = dict(c["b"])
        if r.random() >= p:
            return [self.scaled(c)]
        if "lim" in b:
            b["lim"] = [[num(float(l) - r.choice([0, .5, 1, 3])), num(float(h) + r.choice([.25, 1, 2]))] for l, h in b["lim"]]
        elif "parts" in b:
            b["parts"] = [{**q, "lo": num(float(q["lo"]) - (float(q["hi"]) - float(q["lo"])) / q["n"]), "n": q["n"] + 1} if r.random() < .6 and q["n"] < 1000 else q for q in b["parts"]]
            xs = [i["x"] for i in [c["in"]] + c.get("more", [])]
            if any(v.strip("-") in ("inf", "NaN") or abs(float(v)) > 1e6 or not self.clear(q, v) for x in xs for q, v in zip(b["parts"], x)) or math.prod(q["n"] for q in b["parts"]) > 2 ** 30:
                return [c]
        elif "kern" in b:
            k = b["kern"]
            b["kern"] = {**k, "ls": [num(float(v) * r.choice([1, 2, 1.25])) for v in k["ls"]], "var": num(float(k["var"]) + r.choice([0, 1]))}
            if r.random() < .4 and b["cent"]:
                b["cent"] = b["cent"][::-1] if r.random() < .5 else b["cent"][1:]
        elif "d" in b and b["k"] == "poly":
            b["z"] = not b.get("z")
        d = {**c, "b": b}
        return [c, d] if r.random() < .5 else [d, c]

    def vary(self, c, again, p=.35):
        """give a project command further inputs, for the same basis object before and after"""
        r = self.r
        if r.random() >= p:
            return c
        c["more"] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            i, j = c["in"], again()
            k = r.random()
            if i["x"]:
                if k < .35:         # a single coordinate apart
                    q = r.randrange(len(i["x"]))
                    j = {**j, "x": [b if a == q else v for a, (v, b) in enumerate(zip(i["x"], j["x"]))]}
                elif k < .45:
                    j = {**j, "x": list(i["x"])}
                elif k < .65 and not any("parts" in l or l["k"] == "tile" for l in self.leaves(c["b"])):
                    z = 10 ** r.uniform(-8, -3)     # next to each other
                    j = {**j, "x": [num(float(v) * (1 + z)) if r.random() < .7 else v for v in i["x"]]}
            leaves = self.leaves(c["b"])
            ns = {l["n"] for l in leaves if l["k"] == "phi"}
            if len(ns) == 1 and k < .7:
                m = ns.pop()
                j = {**j, "phi": self.feats(m, "s" if m > 1500 else None)}
            cs = [l["c"] for l in leaves if l["k"] == "fail"]
            if cs and r.random() < .7:
                j = {**j, "fail": [x for x in cs if r.random() < r.choice([0, .1, .4])]}
            c["more"].append(j)
        return c

    def project(self, n, kinds=None, depth=3, only=None):
        r = self.r
        out = []
        while len(out) < self.n(n):
            d = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4])
            st = {}
            b = self.ast(d, st, r.randint(0, depth))
            self.renumber(b)
            if only and not only(self, b):
                continue
            for _ in range(r.choice([1, 1, 2])):
                out.append(self.scaled(self.vary({"op": "project", "b": b, "in": self.inputs(b, d, st)}, lambda: self.inputs(b, d, st))))
        return self.single(out)

    def bigs(self, n):
        """bases with many features, active ones and parts; ith at a sample of indices and wherever active"""
        r = self.r
        out = []
        for _ in range(self.n(n)):
            d = r.choice([1, 1, 2, 3, 5, 8, 9, 12])
            k = r.choice(["tile", "tile", "tile", "fixs", "fixd", "kern", "grid", "phi", "wide", "deep"])
            st = {}
            if k == "tile":
                b = {"k": k, "n": r.choice([r.randint(1, 40), r.randint(9, 140), r.randint(250, 300)]), "id": 1, "h": r.choice(["sip", "mix"]),
                     "m": r.choice([r.randint(1, 2000), 1000, 4096, 65536, 10 ** 6, 2 ** 30, r.randint(2000, 2 ** 30)])}
            elif k == "fixs":
                m = r.choice([r.randint(1, 2000), r.randint(1, 2 ** 30)])
                b = {"k": k, "n": m, "i": sorted({m - 1, 0} | {r.randrange(m) for _ in range(r.randint(0, 60))})}
            elif k == "fixd":
                b = {"k": k, "v": self.vals(r.choice([r.randint(20, 300), r.randint(250, 1100)]))}
            elif k == "kern":
                K = self.kern(d)
                K["ls"] = [num(max(float(v), 2.0)) for v in K["ls"]]
                b = {"k": k, "kern": K, "cent": [self.point(d) for _ in range(r.randint(20, 300))], "homog": r.random() < .5}
            elif k == "grid":
                b = {"k": k, "parts": self.parts(d, r.choice([300, 4000, 2 ** 30]))}
            elif k == "phi":
                st["phi"] = self.feats(r.choice([r.randint(20, 300), r.randint(250, 1100)]))
                b = {"k": k, "n": self.size(st["phi"])}
            elif k == "wide":       # many parts side by side
                b = self.leaf(d, st)
                for _ in range(r.randint(5, 30)):
                    l = self.leaf(d, st) if r.random() < .3 else r.choice([{"k": "bias", "c": self.val(zero=False)}, {"k": "fixs", "n": 3, "i": [1]}, {"k": "fixd", "v": self.vals(2)}])
                    b = {"k": "stack", "a": b, "b": l} if r.random() < .7 else {"k": "stack", "a": l, "b": b}
            else:                   # many wrappers
                b = self.leaf(d, st)
                for _ in range(r.randint(4, 9)):
                    b = {"k": r.choice(["wb", "l1", "l2", "linf", "l0"]), "a": b}
            if k in ("tile", "fixs", "grid") and self.leafsize(b) > 1500:
                pass                # the projection is sparse: not to be expanded
            elif r.random() < .4:
                b = {"k": r.choice(["wb", "l0", "l1", "l2", "linf"]), "a": b}
            self.renumber(b)
            n_ = self.leafsize(b)
            i = self.inputs(b, d, st)
            if k == "grid":
                i["x"] = [self.in_part(p, True) for p in self.leaves(b)[0]["parts"]]
            elif k == "tile" and r.random() < .3:
                i["x"] = [num(r.uniform(-1e6, 1e6)) for _ in range(d)]
            ids = sorted({0, 1, n_ - 1, n_, n_ + 1, n_ + 7} | {r.randrange(n_ + 1) for _ in range(10)})
            out.append({"op": "project", "b": b, "in": i, "ids": [x for x in ids if x >= 0]})
        return self.single(out)

    def leafsize(self, b):
        k = b["k"]
        if k == "stack":
            return self.leafsize(b["a"]) + self.leafsize(b["b"])
        if k == "wb":
            return self.leafsize(b["a"]) + 1
        if k in ("l0", "l1", "l2", "linf"):
            return self.leafsize(b["a"])
        if k in ("polyx", "chebx", "fourx"):
            return len(b["co" if k == "fourx" else "e"])
        if k in ("grid", "kpart"):
            return math.prod(p["n"] for p in b["parts"])
        if k in ("poly", "four", "cheb"):
            return (b["o"] + 1) ** (b["d"] if k == "poly" else len(b["lim"])) - 1 + bool(b.get("z"))
        return {"bias": 1, "tile": b.get("m"), "fixs": b.get("n"), "phi": b.get("n"), "fail": b.get("n"),
                "fixd": len(b.get("v", [])), "kern": len(b.get("cent", []))}[k]

    def normed(self, n):
        """normalisers over projections given outright (sparse and dense, also all zero)"""
        r = self.r
        out = []
        for _ in range(self.n(n)):
            f = self.feats(huge=.005)
            if "v" in f and r.random() < .15:           # as a whole tiny or huge
                z = 10 ** r.uniform(-110, 110)
                f["v"] = [num(float(v) * z) for v in f["v"]]
            b = {"k": "phi", "n": self.size(f)}
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                b = {"k": r.choice(["l0", "l1", "l2", "linf"]), "a": b}
                if r.random() < .15:
                    b = {"k": "wb", "a": b}
            i = {"x": [], "phi": f, "fail": []}
            out.append(self.vary({"op": "project", "b": b, "in": i}, lambda: dict(i), .2))
        return self.single(out)

    def composed(self, n):
        """builder programs over user-defined leaves, fallible ones among them"""
        r = self.r
        out = []
        for _ in range(self.n(n)):
            f = self.feats(huge=0, big=.02)
            c = [0]

            def build(depth):
                if depth == 0 or r.random() < .15:
                    if r.random() < .45:
                        c[0] += 1
                        return {"k": "fail", "n": r.choice([0, 1, 2, 3]), "c": c[0]}
                    return r.choice([{"k": "phi", "n": self.size(f)}, {"k": "bias", "c": self.val()}, {"k": "fixd", "v": self.vals(r.randint(0, 3))},
                                     {"k": "fixs", "n": 3, "i": [1]}])
                k = r.choice(["stack"] * 5 + ["wb"] * 2 + ["l0", "l1", "l2", "linf"])
                return {"k": k, "a": build(depth - 1), "b": build(depth - 1)} if k == "stack" else {"k": k, "a": build(depth - 1)}
            b = build(r.choice([1, 2, 3, 4, 5]))
            cs = list(range(1, c[0] + 1))
            for _ in range(2):
                p = r.choice([0, .1, .4, 1])
                i = {"x": [], "phi": f, "fail": [x for x in cs if r.random() < p]}
                out.append(self.vary({"op": "project", "b": b, "in": i}, lambda: dict(i), .2))
        return self.single(out)

    def terms(self, n):
        """polynomial, Fourier and Chebyshev bases over wide ranges of order and dimension"""
        r = self.r
        out = []
        while len(out) < self.n(n):
            k = r.choice(["poly", "four", "cheb"])
            d = r.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
            o = r.randint(0, 11 if k == "cheb" else 12) if r.random() < .6 else r.randint(0, 4)
            if d == 1 and r.random() < .3:
                o = r.randint(0, 11) if k == "cheb" else r.choice([r.randint(13, 60), r.randint(60, 255)])
            elif d == 2 and r.random() < .25:
                o = r.randint(9, 24 if k != "cheb" else 11)
            elif d >= 7:
                o = 1
            if (o + 1) ** d > 700 or ((o + 1) ** d > 300 and r.random() < .8):
                continue
            b = {"k": k, "d": d, "o": o, "z": r.random() < .5} if k == "poly" else {"k": k, "o": o, "lim": self.limits(d), "sp": r.random() < .5, "z": k == "cheb" and r.random() < .5}
            st = {}
            i = self.inputs(b, d, st)
            if k == "poly":
                i["x"] = [r.choice(["0", "1", "-1", "2", num(r.uniform(-2, 2)), num(r.uniform(-1, 1))]) for _ in range(d)]
                if o < 5 and r.random() < .15:
                    i["x"] = [num(r.choice([-1, 1]) * 10 ** r.uniform(-4, 4)) for _ in range(d)]
            elif k == "four" and r.random() < .35:      # beyond the limits, some far
                i["x"] = [num(float(a) + (float(z) - float(a)) * r.choice([-1, 1]) * 10 ** r.uniform(-.5, 6)) if r.random() < .6 else x for (a, z), x in zip(b["lim"], i["x"])]
            if r.random() < .35:
                b = self.edited(b, d, st)
            if k == "poly" and r.random() < .2:         # as far as the highest product of powers stays in range
                top = d * o if "o" in b else max([sum(t) for t in b["e"]] + [0])
                u = min(30, 280 / max(1, top))
                i["x"] = [num(r.choice([-1, 1]) * 10 ** r.choice([u, -u, r.uniform(-u, u), r.uniform(0, u)])) for _ in range(d)]
            nf = self.leafsize(b)
            ids = sorted({0, nf // 2, nf - 1, nf, nf + 1, r.randint(0, nf)} & set(range(nf + 5)))
            c = {"op": "project", "b": b, "in": i, "ids": ids}
            out += self.beside(self.vary(c, lambda: self.inputs(b, d, st), .3 if nf < 60 else 0))
        return self.single(out)

    def tables(self, n):
        """tables of terms over many inputs"""
        r = self.r
        out = []
        for _ in range(self.n(n)):
            d = r.choice([1, 2, 3, 5, 6, 7, 8, 9, 9, 10, 12, 16, 17, 20]) if r.random() < .9 else r.choice([32, 33, 64, 65, 70, 129])
            k = r.choice(["polyx", "fourx", "chebx"])
            ts = []
            for _ in range(r.choice([1, 2, 3, 6])):
                t = [r.choice([0, 0, 1, 1, 2, 3]) for _ in range(d)]
                t[r.choice([0, d - 1])] = r.choice([0, 1, 2])
                ts.append(t)
            b = {"k": k, "e": ts}
            if k == "fourx":
                b = {"k": k, "co": [[str(x) for x in t] for t in ts]}
            if k != "polyx":
                b["lim"] = self.limits(d)
            i = self.inputs(b, d, {})
            if k == "polyx":
                i["x"] = [num(r.choice([-1, 1]) * r.uniform(.5, 1.7)) for _ in range(d)]
            out += self.beside(self.vary({"op": "project", "b": b, "in": i}, lambda: self.inputs(b, d, {}), .2))
        return self.single(out)

    def deep(self, n, only=None):
        """bases with up to a million features, looked at in places"""
        r = self.r
        out = []
        while len(out) < self.n(n):
            k = r.choice(only or ["poly", "four", "cheb", "kpart", "grid"])
            d = r.choice([1, 2, 2, 2, 3, 3, 4, 5, 6, 8])

            def terms():
                o = min(int(10 ** (r.uniform(2.5, 5.6 if r.random() < .2 else 4.9) / d)), 11 if k == "cheb" else 255)
                if d == 2 and r.random() < .3 and k != "cheb":
                    o = 255
                lim = self.limits(d)
                if k == "poly":
                    return {"k": k, "d": d, "o": o, "z": r.random() < .5}, [num(r.choice([-1, 1]) * r.uniform(.97, 1.03) if o > 20 else r.uniform(-2, 2)) for _ in range(d)], o + 1
                b = {"k": k, "o": o, "lim": lim, "sp": r.random() < .5}
                if k == "cheb":
                    b["z"] = r.random() < .5
                return b, [num(float(a) + (float(z) - float(a)) * r.uniform(0, 1)) for a, z in lim], o + 1
            if k in ("poly", "four", "cheb"):
                b, x, base = terms()
                if base ** d > 600000:
                    continue
            else:
                ps = self.parts(d, r.choice([3000, 70000, 70000, 300000]) if k == "kpart" else 10 ** 7)
                b, base = ({"k": k, "kk": r.choice(["eq", "m32", "m52"]), "parts": ps} if k == "kpart" else {"k": k, "parts": ps}), ps[-1]["n"]
                x = [self.in_part(p) for p in ps]
                if k == "kpart":
                    x = [num(min(max(float(v), float(p["lo"])), float(p["hi"]))) for v, p in zip(x, ps)]
            n0 = self.leafsize(b)
            off = 0
            u = r.random()
            if u < .2:
                b = {"k": "wb", "a": b}
            elif u < .4:
                v = self.vals(r.choice([1, 3, 300]), big=False)
                b, off = ({"k": "stack", "a": {"k": "fixd", "v": v}, "b": b}, len(v)) if r.random() < .5 else ({"k": "stack", "a": b, "b": {"k": "fixd", "v": v}}, 0)
            nf = self.leafsize(b)
            at = {0, 1, base - 2, base - 1, base, n0 - 2, n0 - 1, nf - 1, nf, nf + 1, nf - 2, 255, 256, 257, 65535, 65536} | {r.randrange(nf) for _ in range(12)}
            at = [i + (off if i < n0 and r.random() < .8 else 0) for i in sorted(at)]
            out.append({"op": "deep", "b": b, "x": x, "at": [i for i in at if 0 <= i < nf + 9]})
        return self.single(out)

    def deep_grids(self, n):
        return self.deep(n, ["grid"])

    def deep_kernels(self, n):
        return self.deep(n, ["kpart"])

    def deep_terms(self, n):
        return self.deep(n, ["poly", "four", "cheb"])

    def term_corners(self, n):
        """orders and dimensions around powers of two, every combination"""
        r = self.r
        out = []
        for _ in range(self.n(n)):
            for d, orders in ((1, [31, 32, 63, 64, 100, 127, 128, 129, 200, 254, 255]), (2, [7, 8, 15, 16, 17, 18, 20, 31]), (3, [6, 7, 8]),
                              (4, [3, 4]), (5, [2, 3]), (6, [1, 2]), (7, [1]), (8, [1]), (9, [1]), (10, [1])):
                for o in orders:
                    for k in ("poly", "four", "cheb"):
                        if k == "cheb" and o > 11 or k == "four" and (o + 1) ** d > 450:        # precondition: order of a Chebyshev basis
                            continue
                        b = {"k": k, "d": d, "o": o, "z": r.random() < .5} if k == "poly" else \
                            {"k": k, "o": o, "lim": self.limits(d), "sp": r.random() < .5, "z": k == "cheb" and r.random() < .5}
                        i = self.inputs(b, d, {})
                        if k == "poly":
                            i["x"] = [num(r.choice([-1, 1]) * r.uniform(.9, 1.15)) for _ in range(d)]
                        out.append({"op": "project", "b": b, "in": i, "ids": [(o + 1) ** d - 2]})
                        if k == "poly" and d < 3:       # the range of floats used up
                            u = 300 / (o * d)
                            out.append({"op": "project", "b": b, "in": {**i, "x": [num(r.choice([-1, 1]) * 10 ** r.uniform(u / 2, u)) for _ in range(d)]}, "ids": [(o + 1) ** d - 2]})
        return self.single(out)

    def grids(self, n):
        r = self.r
        out = []
        while len(out) < self.n(n):
            d = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8]) if r.random() < .94 else r.choice([9, 10, 12, 16, 17, 20, 33, 40, 65])
            ps = self.parts(d, r.choice([40, 40, 300, 300, 4000, 100000, 2 ** 30]) if d < 16 else 2 ** 30)
            b = {"k": "grid", "parts": ps}
            cells = math.prod(p["n"] for p in ps)
            for _ in range(3):
                x = [self.in_part(p, True) for p in ps]
                ids = list(range(cells + 3)) if cells < 60 else sorted({0, cells - 1, cells, cells + 5} | {r.randrange(cells) for _ in range(6)})
                phi = {"c": "dense", "v": []}
                c = self.vary({"op": "project", "b": b, "in": {"x": x, "phi": phi, "fail": []}, "ids": ids},
                              lambda: {"x": [self.in_part(p, True) for p in ps], "phi": phi, "fail": []})
                out += self.beside(c) if r.random() < .7 else [self.scaled(c, 1)]
        return self.single(out)

    def tiles(self, n):
        r = self.r
        out = []
        BIG = 2 ** 34 * 3 ** 5 * 5 ** 3 * 7 ** 2 * 11 * 13            # below 2^63; every m below divides it
        for _ in range(self.n(n)):
            d = r.choice([1, 1, 2, 2, 3, 4, 6, 5, 7, 8, 9, 12, 16, 0]) if r.random() < .94 else r.choice([17, 20, 32, 33, 40, 64, 65, 70])
            nt = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 32, 64, r.randint(1, 64), r.randint(65, 140), r.choice([r.randint(65, 140), r.randint(250, 300)])])
            base = [r.randint(-3, 2) if r.random() < .7 else r.choice([r.randint(-200, 200), r.randint(-2 ** 33, 2 ** 33)]) for _ in range(d)]
            den = r.choice([1, 2, 4, 8, 16, 64, 1024])

            def pt(c, spread):
                return [num(c[k] + r.randint(-spread * den, spread * den) / den) for k in range(d)]
            c = [b + r.randint(0, den) / den for b in base]
            xs = [[num(v) for v in c]]
            for _ in range(r.randint(2, 6)):
                m = r.random()
                if m < .6:      # nearby: move by less than a tile, in some dimensions
                    y = list(c)
                    for k in range(d):
                        if r.random() < .6:
                            y[k] = y[k] + r.randint(-den, den) / den * r.choice([.25, .5, 1])
                    xs.append([num(v) for v in y])
                elif m < .74:
                    xs.append([num(-v) for v in c])
                elif m < .86 and d and max(map(abs, base)) <= 200:     # as far as the tile numbers' bytes go
                    y = list(r.choice([c, [float(v) for v in xs[-1]]]))
                    if max(map(abs, y)) > 2 ** 33:
                        y = list(c)
                    y[r.choice([0, d - 1, r.randrange(d)])] += r.choice([1, -1]) * 2.0 ** r.choice([1, 4, 7, 8, 8, 15, 16, 16, 24, 31, 32, 32, 33])
                    xs.append([num(v) for v in y])
                else:
                    xs.append(pt(base, 2))
            ms = r.sample([1, 2, 3, 5, 8, 10, 16, 36, 64, 100, 1000, 1024, 4096, 5005, 65536, 2 ** 31, 2 ** 34 * 3 ** 5, 2 ** 33 * 5 ** 3 * 7], 3)
            out.append({"op": "tile", "n": nt, "m": str(BIG), "xs": xs, "ms": [str(m) for m in ms], "h": r.choice(["sip", "mix"])})
        return self.single(out)

    def kernels(self, n):
        r = self.r
        out = []
        for _ in range(self.n(n)):
            d = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 10, 17, 33]) if r.random() < .95 else r.choice([32, 34, 64, 65, 70, 128, 129, 257])
            K = self.kern(max(d, 1))
            if d == 0:
                K["ls"] = K["ls"][:1]
            x, y = self.point(d), self.point(d)
            u = r.random()
            if u < .2:
                y = list(x)
            elif u < .35 and d:
                far = {"exp": 100, "m32": 60, "m52": 50, "eq": 8, "cos": 40, "rq": 3000}[K["k"]]
                x, y = ([num(r.uniform(-far, far)) for _ in range(d)] for _ in "xy")
            elif u < .4 and d:          # far in one dimension only
                y = list(x)
                k = r.randrange(d)
                y[k] = num(float(x[k]) + r.uniform(-8, 8))
            elif u < .5:
                y = [num(float(v) + r.choice([-1, 1]) * 10 ** r.uniform(-3, -1)) for v in x]
            elif u < .6 and d and K["k"] != "cos":     # all magnitudes
                z = r.choice([12, 40, 100])
                x, y = ([r.choice(["0", "1", num(r.choice([-1, 1]) * 10 ** r.uniform(-z, z))]) for _ in range(d)] for _ in "xy")
                if r.random() < .5:
                    K["k"] = "rq"
                    K["pow"] = num(r.choice([.5, .1, r.uniform(.05, 1)]))
            ctor = "new"
            if len(K["ls"]) == 1 and d != 1:
                ctor = "non_ard"
            elif len(K["ls"]) == 1:
                ctor = r.choice(["new", "non_ard"])
            if r.random() < .08 and K["k"] != "rq":     # (what parameters the default rational quadratic has is not specified)
                ctor = "default"
                K.update({"var": "1", "ls": ["1"]})
            elif d and r.random() < .15:                # in another unit of length
                z = 10 ** r.uniform(-60, 60)
                K["ls"], x, y = ([num(float(v) * z) for v in a] for a in (K["ls"], x, y))
            out.append({"op": "kern", "kern": K, "ctor": ctor, "x": x, "y": y})
        return self.single(out)

    def rays(self, n):
        r = self.r
        out = []
        for _ in range(self.n(n)):
            d = r.choice([1, 2, 3, 4])
            K = self.kern(1)
            K["ls"] = [str(d)]
            ts, t = [0.0], r.choice([.001, .01, .1, 1, 5])
            end = {"exp": 600, "m32": 330, "m52": 250, "eq": 33, "cos": 100, "rq": 1e6}[K["k"]] if r.random() < .6 else 12
            while len(ts) < 30 and t < end:
                ts.append(t)
                t *= r.uniform(1.02, 1.6) if r.random() < .8 else r.uniform(1.6, 5)
            out.append({"op": "kray", "kern": K, "d": d, "ts": [num(v) for v in ts]})
        return self.single(out)

    def kbases(self, n):
        r = self.r
        out = []
        for _ in range(self.n(n)):
            d = r.choice([1, 1, 2, 2, 3, 4]) if r.random() < .95 else r.choice([5, 8, 12, 17, 33, 65])
            if d > 4 or r.random() < .5:
                b = {"k": "kern", "kern": self.kern(d), "cent": [self.point(d) for _ in range(r.choice([0, 1, 2, 5, 12]) if len(out) > 8 else r.randint(257, 400))], "homog": r.random() < .5}
            else:
                b = {"k": "kpart", "kk": r.choice(["eq", "m32", "m52"]), "parts": self.parts(d, 80)}
            st = {}
            i = self.inputs(b, d, st)
            if b["k"] == "kpart":           # not so far outside that the kernel underflows
                i["x"] = [num(min(max(float(v), float(p["lo"]) - 1), float(p["hi"]) + 1)) for v, p in zip(i["x"], b["parts"])]
            out += self.beside(self.vary({"op": "project", "b": b, "in": i}, lambda: {**i, "x": self.point(d)} if b["k"] == "kern" else dict(i)))
        return self.single(out)

    # ---- saving --------------------------------------------------------------------
    FMTS = ["json", "bin", "clone", "json", "bin", "clone", "stream", "value", "pretty", "binstream"]

    def saves(self, n):
        r = self.r
        out = []
        for _ in range(self.n(n)):
            if r.random() < .4:
                out.append({"op": "fsave", "f": self.feats(), "fmt": r.choice(self.FMTS)})
                continue
            d = r.choice([1, 1, 2, 3])
            st = {}
            self.saving = True
            b = self.ast(d, st, r.randint(0, 2))
            self.saving = False
            self.renumber(b)
            out.append({"op": "bsave", "b": b, "in": self.inputs(b, d, st), "fmt": r.choice(self.FMTS)})
        return self.single(out)

    # ---- learners --------------------------------------------------------------------
    OPTS = ["sgd", "isgd", "mom", "nag", "adagrad", "adam", "adamax"]

    def opt(self, k=None):
        r = self.r
        k = k or r.choice(self.OPTS)
        o = {"k": k, "lr": num(r.choice([1.0, .1, .01, .5, 10 ** r.uniform(-3, .3)]))}
        if k == "isgd" and r.random() < .5:
            o["lr"] = num(10 ** r.uniform(0, 9))
        if k in ("mom", "nag"):
            o["mu"] = num(r.choice([.9, .5, 0.0, .99, r.uniform(0, 1)]))
        if k in ("adam", "adamax"):
            o["b1"] = num(r.choice([.9, .9, .5, 0.0, .99, r.uniform(.1, .95)]))
            o["b2"] = num(r.choice([.999, .99, .9, .5, r.uniform(.5, .999), r.choice([0.0, .1, .25, r.uniform(.02, .5)])]))
        if k == "flaky":
            o["lim"] = "1"
        return o

    def lbasis(self, fails=False, cheb=True):
        """a basis for a learner, with a function giving inputs for it"""
        r = self.r
        u = r.random()
        if u < .6 or self.force:
            n = self.force if self.force else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) if r.random() < .93 else r.choice([r.randint(8, 30), r.randint(8, 30), r.randint(60, 140)])
            b = {"k": "phi", "n": n}
            if fails:
                b = r.choice([{"k": "stack", "a": b, "b": {"k": "fail", "n": 1, "c": 1}}, {"k": "stack", "a": {"k": "fail", "n": 1, "c": 2}, "b": b},
                              {"k": "wb", "a": {"k": "stack", "a": {"k": "fail", "n": 1, "c": 2}, "b": {"k": "fail", "n": 0, "c": 3}}},
                              {"k": "l2", "a": {"k": "wb", "a": {"k": "fail", "n": 2, "c": 1}}}])
            cs = [l["c"] for l in self.leaves(b) if l["k"] == "fail"]

            def make(fail=False):
                f = self.feats(n)
                fl = []
                if fail and cs:
                    fl = [c for c in cs if r.random() < .5] or [cs[-1]]
                return {"x": [], "phi": f, "fail": fl}
            return b, make
        while True:
            d = r.choice([1, 1, 2])
            b = r.choice([
                {"k": "poly", "d": d, "o": r.randint(1, 3), "z": r.random() < .5},
                {"k": "four", "o": r.randint(1, 3), "lim": self.limits(d), "sp": False},
                {"k": "cheb", "o": r.randint(1, 3), "lim": self.limits(d), "z": False, "sp": False},
                {"k": "grid", "parts": self.parts(d, 20)},
                {"k": "tile", "n": r.choice([1, 2, 4]), "m": r.choice([4, 16]), "id": 1, "h": "sip"},
                {"k": "kpart", "kk": "eq", "parts": self.parts(d, 12)},
                {"k": "fixd", "v": self.vals(3)}, {"k": "bias", "c": "1"}])
            if r.random() < .3:
                b = {"k": "wb", "a": b}
            if r.random() < .15 and b["k"] not in ("fixd", "bias", "wb") and b["k"] != "poly":
                b = {"k": "l2", "a": b} if b["k"] in ("tile", "grid", "kpart") else b
            if fails:
                b = {"k": "stack", "a": b, "b": {"k": "fail", "n": 1, "c": 1}}

            def make(fail=False, b=b, d=d):
                i = self.inputs(b, d, {}, fails=False)
                if b["k"] == "poly" or (b.get("a") or {}).get("k") == "poly":
                    i["x"] = [num(r.uniform(-1.5, 1.5)) for _ in range(d)]
                if any(l["k"] == "kpart" for l in self.leaves(b)):
                    ps = [l["parts"] for l in self.leaves(b) if l["k"] == "kpart"][0]
                    i["x"] = [num(min(max(float(v), float(p["lo"]) - 1), float(p["hi"]) + 1)) for v, p in zip(i["x"], ps)]
                i["fail"] = [1] if fail and fails else []
                return i
            return b, make

    def ndim(self, b):
        return self.leafsize(b)

    unit = 1.0          # what errors are measured in

    def units(self, p=.15):
        """for an episode: errors that are all very small or very large"""
        r = self.r
        self.unit = 1.0 if r.random() >= p else 10 ** (r.uniform(-11, -3) if r.random() < .7 else r.uniform(2, 7))

    def err(self):
        e = self.err1()
        return e if self.unit == 1.0 else num(float(e) * self.unit)

    def err1(self):
        r = self.r
        if r.random() < .06:
            return num(r.choice([-1, 1]) * 10 ** r.uniform(-9, 5))
        return r.choice(["1", "-1", "0.5", "0", "2", num(r.gauss(0, 1)), num(r.gauss(0, 5)), num(r.gauss(0, .05))])

    def closure(self, kind, m, o, safe_target):
        r = self.r
        if r.random() < (.7 if safe_target else 0):
            k = m if kind == "s" else r.choice([m, m, m, max(0, m - 1)])
            return {"k": "to", "y": [self.err() for _ in range(k)], "lay": r.choice(["std", "rev", "stride", "slice"])}
        k = 1 if kind == "s" else r.choice([m, m, m, m, m - 1, m + 1, 0])
        return {"k": "fix", "e": [self.err() for _ in range(max(0, k))], "lay": r.choice(["std", "rev", "stride", "slice"])}

    def history(self, id, kind, m, o, make, length, fails=False, panics=False, extras=True):
        """commands for one learner"""
        r = self.r
        out = []
        for _ in range(length):
            u = r.random()
            i = make(fails and r.random() < .35)
            bad = bool(i["fail"])
            if u < .15:
                out.append({"op": "leval", "id": id, "in": i})
            elif u < .55:
                k = 1 if kind == "s" else r.choice([m, m, m, m, max(0, m - 1), m + 2, 0])
                out.append({"op": "lupd", "id": id, "in": i, "e": [self.err() for _ in range(k)],
                            "ei": r.choice(["vec", "vec", "lazy", "chain", "fn", "array"])})
            elif u < .7 and kind == "v" and m > 0:
                out.append({"op": "lupdi", "id": id, "in": i, "j": r.randint(1, m), "e": self.err()})
            elif u < .9:
                if panics and r.random() < .4:
                    out.append({"op": "lupdw", "id": id, "in": i, "cl": {"k": "panic", "lay": "std"}})
                else:
                    out.append({"op": "lupdw", "id": id, "in": i, "cl": self.closure(kind, m, o, o["k"] in ("isgd", "adagrad", "adam", "adamax"))})
            elif extras and kind == "s" and not fails:
                f = i["phi"] if i["phi"].get("v") != [] else None
                out.append({"op": "leval", "id": id, "in": i})
            else:
                out.append({"op": "leval", "id": id, "in": i})
        return out

    def meddle(self, ep, id, m, nf, p=.25):
        """the public fields of a learner assigned in the middle of its history"""
        r = self.r
        if r.random() < p and len(ep) > 4:
            for _ in range(r.choice([1, 1, 2])):
                c = self.setw(id, nf, m) if r.random() < .4 else {"op": "lswap", "id": id, "o": self.opt()}
                ep.insert(r.randint(3, len(ep)), c)
        return ep

    def new(self, id, b, o, kind, m):
        return {"op": "lnew", "id": id, "b": b, "o": o, "kind": kind, "m": m,
                "ctor": self.r.choice(["short", "new"] if kind == "s" else ["short", "short", "new", "new", "f", "wide", "flip", "tall"])}

    def setw(self, id, n, m, big=False):
        return {"op": "lset", "id": id, "W": [self.vals(n, big=big) for _ in range(m)], "lay": self.r.choice(["c", "f", "wide", "flip", "tall", "rrev", "crev", "fcrev", "frrev"])}

    def scalar(self, n, length=10):
        """C15"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            bulk = self.bulk(q, 7, hi=400)
            self.units()
            b, make = self.lbasis(fails=r.random() < .15)
            o = self.opt(r.choice(["sgd", "isgd"] + self.OPTS) if not bulk else self.OPTS[q])
            ep = [BEGIN, self.new("a", b, o, "s", 1), {"op": "leval", "id": "a", "in": make()}]
            if r.random() < .4:
                ep.append(self.setw("a", self.ndim(b), 1))
            ep += self.history("a", "s", 1, o, make, r.randint(2, length) if bulk or r.random() < .93 else r.randint(20, 60))
            eps.append(self.meddle(ep, "a", 1, self.ndim(b)))
        return eps

    def stepping(self, n, length=12, long=0):
        """C16: the optimiser itself, on weights"""
        r = self.r
        eps = []
        for q in range(self.n(n) + long):
            islong = q >= self.n(n)
            bulk = self.bulk(q, 7, hi=400) and not islong
            self.units(.3)
            nf = self.force if bulk else r.choice([1, 2, 3, 3, 4, 5]) if r.random() < .93 or islong else r.choice([0, 12, 40, 130])
            o = self.opt(self.OPTS[q] if bulk else None)
            ep = [BEGIN, self.new("a", {"k": "phi", "n": nf}, o, "s", 1)]
            if r.random() < (.5 if self.unit > 1e-3 else .15):      # next to ordinary weights small steps are hard to see
                ep.append(self.setw("a", nf, 1))
            if r.random() < .2:
                ep.append({"op": "lstep", "id": "a", "f": self.feats(nf), "plain": False, "e": "0"})
            mix = r.choice(["d", "s", "ds", "ds"])
            fixed = [self.feats(nf, r.choice(mix)) for _ in range(3)] if r.random() < .3 else None
            for _ in range(r.randint(1, length) if not islong else r.randint(150, 400) if q % 4 else r.randint(1030, 1150)):
                plain = r.random() < .2
                f = r.choice(fixed) if fixed else self.feats(nf, r.choice(mix))
                ep.append({"op": "lstep", "id": "a", "f": f, "plain": plain, "e": self.err()})
                if r.random() < .03:
                    ep.append({"op": "lreset", "id": "a"})
                    if r.random() < .5:
                        ep.append({"op": "lstep", "id": "a", "f": self.feats(nf), "plain": False, "e": "0"})
            eps.append(ep if islong else self.meddle(ep, "a", 1, nf, .15))
        return eps

    def burns(self, n, long=66000):
        """C16: very long histories of direct steps, with an ordinary one before and after"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            o = self.opt(["adam", "adamax", "adam", "nag", "mom", "adagrad", "sgd"][q % 7])
            nf = 1 if q % 84 < 2 else r.choice([1, 1, 2, 3])
            ep = [BEGIN, self.new("a", {"k": "phi", "n": nf}, o, "s", 1)]
            if r.random() < .5:
                ep.append(self.setw("a", nf, 1))

            def step():
                return {"f": self.feats(nf, r.choice("ds")), "e": self.err()}
            for _ in range(r.choice([0, 1, 3])):
                ep.append({"op": "lstep", "id": "a", "plain": False, **step()})
            cyc = [step() for _ in range(r.choice([1, 1, 2, 3]))]
            if q % 84 < 2:
                cyc = [{"f": {"c": r.choice(["dense", "iter"]), "v": [self.val(zero=False, big=False)]}, "e": r.choice(["1", "-1", "0.5"])}]
            ep.append({"op": "lburn", "id": "a", "cyc": cyc, "n": (long if q % 84 < 2 else r.choice([254, 300, 1100, 3000])) // len(cyc) + r.randint(0, 3)})
            for _ in range(r.randint(1, 5)):
                ep.append({"op": "lstep", "id": "a", "plain": False, **step()})
                if r.random() < .15:
                    ep.append({"op": "lreset", "id": "a"})
            eps.append(ep)
        return eps

    def worn(self, n, then="reset"):
        """C17, C20: an optimiser after a very long history is reset, or saved and restored"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            o = self.opt(self.OPTS[-1 - q % 7])
            self.units(.35)
            nf = r.choice([1, 1, 2])
            b = {"k": "phi", "n": nf}

            def step(id):
                return {"op": "lstep", "id": id, "plain": r.random() < .2, "f": self.feats(nf, r.choice("ds")), "e": self.err()}
            ep = [BEGIN, self.new("a", b, o, "s", 1)]
            cyc = [{"f": self.feats(nf, r.choice("ds")), "e": self.err()} for _ in range(r.choice([1, 1, 2]))]
            ep.append({"op": "lburn", "id": "a", "cyc": cyc, "n": r.choice([260, 1000, r.randint(3000, 8000)]) // len(cyc)})
            if then == "reset":
                W = [self.vals(nf, big=False)]
                ep += [{"op": "lreset", "id": "a"}, self.new("b", b, o, "s", 1), {"op": "lset", "id": "a", "W": W, "lay": "c"}, {"op": "lset", "id": "b", "W": W, "lay": "c"}]
            else:
                ep += [{"op": "lsave", "id": "a", "slot": "x", "fmt": r.choice(self.FMTS)}, {"op": "lload", "id": "b", "slot": "x"}]
            for _ in range(r.randint(1, 4)):
                c = step("a")
                ep += [c, dict(c, id="b"), {"op": "ltwin", "a": "a", "b": "b", "where": list(range(nf))}]
            if r.random() < .3:
                cyc = [{"f": self.feats(nf, r.choice("ds")), "e": self.err()} for _ in range(r.choice([1, 1, 2]))]
                c = {"op": "lburn", "id": "a", "cyc": cyc, "n": r.randint(2, 300)}
                ep += [c, dict(c, id="b"), {"op": "ltwin", "a": "a", "b": "b", "where": list(range(nf))}]
            eps.append(ep)
        return eps

    def oddweights(self, n, kinds="ssv"):
        """C15, C19: weights that are infinite or not numbers at all; every feature is non-zero, so that they count"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            nf = r.choice([1, 1, 2, 3, 5, 9])
            kind = r.choice(kinds)
            m = 1 if kind == "s" else r.choice([1, 2, 3])
            o = self.opt(self.OPTS[-1 - q % 7])

            def odd():
                c = self.setw("a", nf, m)
                p = r.choice([.2, .5, 1])
                c["W"] = [[r.choice(["NaN", "NaN", "inf", "-inf"]) if r.random() < p else v for v in w] for w in c["W"]]
                return c

            def make():
                v = self.vals(nf, zero=False, big=False)
                ix = list(range(nf))
                r.shuffle(ix)
                return {"x": [], "phi": self.dense(nf, v) if r.random() < .5 else {"c": "sparse", "n": nf, "i": ix, "v": v}, "fail": []}
            ep = [BEGIN, self.new("a", {"k": "phi", "n": nf}, o, kind, m), odd()]
            for _ in range(r.randint(2, 7)):
                u = r.random()
                i = make()
                es = [self.err() for _ in range(m if kind == "s" else r.choice([m, m, m - 1, m + 1]))]
                if u < .2:
                    ep.append({"op": "leval", "id": "a", "in": i})
                elif u < .45:
                    ep.append({"op": "lupd", "id": "a", "in": i, "e": es, "ei": r.choice(["vec", "lazy", "chain", "fn", "array"])})
                elif u < .6 and kind == "v":
                    ep.append({"op": "lupdi", "id": "a", "in": i, "j": r.randint(1, m), "e": self.err()})
                elif u < .85:
                    ep.append({"op": "lupdw", "id": "a", "in": i, "cl": {"k": "fix", "e": es, "lay": r.choice(["std", "rev", "stride", "slice"])}})
                else:
                    ep.append(odd() if r.random() < .5 else self.setw("a", nf, m))
            ep += [self.setw("a", nf, m), {"op": "lupd", "id": "a", "in": make(), "e": [self.err() for _ in range(m)], "ei": "vec"}, {"op": "leval", "id": "a", "in": make()}]
            eps.append(ep)
        return eps

    def wrecks(self, n):
        """C17: a reset after steps beyond the range of floats"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            nf = r.choice([1, 2, 3, 5])
            kind = r.choice("ssv")
            m = 1 if kind == "s" else r.choice([1, 2])
            o = self.opt(self.OPTS[-1 - q % 7])
            b = {"k": "phi", "n": nf}
            ep = [BEGIN, self.new("a", b, o, kind, m), self.new("b", b, o, kind, m)]

            def upd(id):
                return {"op": "lupd", "id": id, "in": {"x": [], "phi": self.feats(nf), "fail": []}, "e": [self.err() for _ in range(m)]}
            for _ in range(r.randint(0, 2)):
                ep.append(upd("a"))
            top = r.choice([100, 160, 300])
            cyc = [{"f": self.dense(nf, [num(r.choice([-1, 1]) * 10 ** r.uniform(top - 40, top + 5)) if r.random() < .7 else self.val() for _ in range(nf)]),
                    "e": num(r.choice([-1, 1]) * 10 ** r.uniform(top - 40, top + 5))} for _ in range(r.randint(1, 4))]
            W = [self.vals(nf, big=False) for _ in range(m)]
            ep += [{"op": "lwreck", "id": "a", "cyc": cyc, "W": W}, {"op": "lset", "id": "b", "W": W, "lay": "c"}]
            for _ in range(r.randint(1, 3)):
                c = upd("a")
                ep += [c, dict(c, id="b"), {"op": "ltwin", "a": "a", "b": "b", "where": list(range(nf))}]
            eps.append(ep)
        return eps

    def wornsaves(self, n):
        return self.worn(n, "save")

    def pattern(self, n):
        """a vector whose sum, or first, or last, or most components are zero"""
        r = self.r
        v = ["0"] * n
        k = r.choice(["pair", "pair", "first", "last", "const", "one", "zero"])
        a = r.choice(["1", "2", "0.5", self.val(zero=False, big=False)])
        if k == "pair" and n > 1:
            i, j = r.sample(range(n), 2)
            v[i], v[j] = a, num(-float(a))
        elif k == "const":
            v = [a] * n
        elif k != "zero":
            i = 0 if k == "first" else n - 1 if k == "last" else r.randrange(n)
            v[i] = a
        if r.random() < .5:
            return {"c": "dense", "v": v}
        ix = [i for i in range(n) if v[i] != "0" or r.random() < .3]
        return {"c": "sparse", "n": n, "i": ix, "v": [v[i] for i in ix]}

    def resets(self, n, length=8):
        """C17: after a reset as a new one"""
        r = self.r
        eps = []
        long = max(1, self.n(n) // 60)
        for q in range(self.n(n)):
            bulk = long <= q < long + 7
            self.units(.2)
            nf = r.randint(257, 300) if bulk else r.choice([1, 2, 3, 4]) if q < long or r.random() < .95 else r.randint(8, 40)
            kind = r.choice(["s", "s", "v"])
            m = 1 if kind == "s" else r.choice([1, 2, 3, 9]) if q >= long and not bulk else 2
            o = self.opt(self.OPTS[q - long] if bulk else None)
            b = {"k": "phi", "n": nf}
            ep = [BEGIN, self.new("a", b, o, kind, m)]

            plain = r.random() < .3 and q >= long
            if plain and r.random() < .5:
                o["mu"] = "1.0" if "mu" in o else ""
                o = {k: v for k, v in o.items() if v}

            def upd(id):
                f = self.pattern(nf) if plain and r.random() < .9 else self.feats(nf)
                e = [r.choice(["1", "1", "-1", "2"]) if plain else self.err() for _ in range(m)]
                return {"op": "lupd", "id": id, "in": {"x": [], "phi": f, "fail": []}, "e": e}
            if q < long:
                m = min(m, 2)
            for _ in range(r.randint(1, 2) if plain and r.random() < .7 else r.randint(257, 300) if q < long else r.randint(1, 3) if bulk else r.randint(0, length) if r.random() < .93 else r.randint(20, 60)):
                ep.append(upd("a"))
                if r.random() < (.1 if q >= long else 0):
                    ep.append({"op": "lreset", "id": "a"})
            ep.append({"op": "lreset", "id": "a"})
            if r.random() < .4:
                ep.append({"op": "lreset", "id": "a"})
            W = [self.vals(nf, big=False) for _ in range(m)]
            ep += [self.new("f", b, o, kind, m), {"op": "lset", "id": "a", "W": W, "lay": "c"}, {"op": "lset", "id": "f", "W": W, "lay": "c"}]
            for _ in range(r.randint(1, 5 if not bulk else 2)):
                c = upd("a")
                ep += [c, dict(c, id="f"), {"op": "ltwin", "a": "a", "b": "f", "where": list(range(nf))}]
            eps.append(ep)
        return eps

    def failing(self, n, length=10):
        """C18"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            kind = r.choice("sv")
            bulk = self.bulk(q, 4, hi=300)
            m = 1 if kind == "s" else r.choice([0, 1, 2, 3, 9]) if not bulk else 2
            if q % 6 == 5:              # an optimiser that refuses
                o = self.opt("flaky")
                b, make = self.lbasis(fails=True)
            else:
                o = self.opt()
                b, make = self.lbasis(fails=True)
            ep = [BEGIN, self.new("a", b, o, kind, m)]
            if r.random() < .5:
                ep.append(self.setw("a", self.ndim(b), m))
            ep += self.history("a", kind, m, o, make, r.randint(3, length if not bulk else 5), fails=True, panics=True)
            ep.append({"op": "leval", "id": "a", "in": make()})
            ep.append({"op": "lupd", "id": "a", "in": make(), "e": ["1"] * m})
            eps.append(ep)
        return eps

    def vectors(self, n, length=9):
        """C19"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            bulk = self.bulk(q, 3, hi=300)              # many features
            if 3 <= q < 8:                              # many outputs
                bulk, self.force = True, r.choice([1, 2])
            m = r.randint(257, 300) if 3 <= q < 8 else 2 if bulk else r.choice([0, 1, 1, 2, 2, 3, 4, 7, 8, 9, 12]) if r.random() < .95 else r.randint(13, 40)
            o = self.opt(r.choice(["sgd", "sgd", "isgd"] + self.OPTS))
            b, make = self.lbasis(fails=r.random() < .15)
            ep = [BEGIN, self.new("a", b, o, "v", m)]
            if r.random() < .6:
                ep.append(self.setw("a", self.ndim(b), m))
            ep.append({"op": "leval", "id": "a", "in": make()})
            ep += self.history("a", "v", m, o, make, r.randint(2, length if not bulk else 4) if bulk or r.random() < .93 or m > 9 else r.randint(20, 45))
            ep.append({"op": "leval", "id": "a", "in": make()})
            eps.append(self.meddle(ep, "a", m, self.ndim(b)))
        return eps

    def vtwins(self, n):
        """C19: a vector learner next to scalar learners, one per output (stateless optimisers and single outputs)"""
        r = self.r
        eps = []
        for _ in range(self.n(n)):
            o = self.opt()
            m = r.choice([1, 2, 3]) if o["k"] in ("sgd", "isgd") else 1
            b, make = self.lbasis()
            nf = self.ndim(b)
            ep = [BEGIN, self.new("v", b, o, "v", m), self.new("s", b, o, "s", 1)]
            for _ in range(r.randint(1, 8)):
                i = make()
                es = [self.err() for _ in range(m)]
                u = r.random()
                if u < .5:
                    ep.append({"op": "lupd", "id": "v", "in": i, "e": es})
                elif u < .75:
                    ep.append({"op": "lupdi", "id": "v", "in": i, "j": 1, "e": es[0]})
                else:
                    ep.append({"op": "lupdw", "id": "v", "in": i, "cl": {"k": "fix", "e": es, "lay": r.choice(["std", "rev", "stride"])}})
                ep.append({"op": "lupd", "id": "s", "in": i, "e": es[:1]})
                if m == 1:
                    ep.append({"op": "ltwin", "a": "v", "b": "s", "where": list(range(nf))})
            eps.append(ep)
        return eps

    def restores(self, n, length=8):
        """C20: training, saving at any point, and training on with both"""
        r = self.r
        eps = []
        long = max(1, self.n(n) // 60)
        for q in range(self.n(n)):
            kind = r.choice(["s", "s", "v"])
            m = 1 if kind == "s" else r.choice([0, 1, 2, 3, 9])
            bulk = long <= q < long + 7
            self.force = r.randint(257, 300) if bulk else None
            self.units(.25)
            o = self.opt(self.OPTS[q - long] if bulk else None)
            b, make = self.lbasis(fails=False)
            ep = [BEGIN, self.new("a", b, o, kind, m)]
            if r.random() < .3:
                ep.append(self.setw("a", self.ndim(b), m))
            nf = self.ndim(b)

            def upd():
                return {"op": "lupd", "id": "a", "in": make(), "e": [self.err() for _ in range(m)]}
            if q < long:
                kind, m, nf = "s", 1, 2
                b, make = {"k": "phi", "n": nf}, lambda: {"x": [], "phi": self.feats(2), "fail": []}
                ep = [BEGIN, self.new("a", b, o, kind, m)]
            for _ in range(r.randint(257, 300) if q < long else r.randint(1, 3) if bulk else r.randint(0, length) if r.random() < .95 else r.randint(15, 50)):
                ep.append(upd())
                if r.random() < .06:
                    ep.append({"op": "lreset", "id": "a"})
            fmt = r.choice(self.FMTS)
            ep.append({"op": "lsave", "id": "a", "slot": "x", "fmt": fmt})
            if r.random() < .3:
                ep.append(upd())       # the saved one is not affected
                ep.append({"op": "lload", "id": "a", "slot": "x"})
                ep.append(upd())
            else:
                ep.append({"op": "lload", "id": "b", "slot": "x"})
                for _ in range(r.randint(1, 5)):
                    c = upd()
                    ep += [c, dict(c, id="b"), {"op": "ltwin", "a": "a", "b": "b", "where": list(range(nf))}]
                if r.random() < .4:
                    ep += [upd(), {"op": "leval", "id": "b", "in": make()}, {"op": "lreset", "id": "a"}, dict(upd(), id="b")]
            eps.append(ep)
        return eps

    def reptwins(self, n, length=10):
        """C21: the same history in two representations"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            large = q % 60 < 7          # every optimiser also on many features
            self.units(.2)
            o = self.opt(self.OPTS[q % 60] if large else None)
            nf = r.choice([1, 2, 3, 4, 6]) if not large else r.choice([r.randint(65, 70), r.randint(70, 140), r.randint(130, 270)])
            b = {"k": "phi", "n": nf}
            kind = r.choice(["s", "s", "v"])
            m = 1 if kind == "s" else 2 if o["k"] in ("sgd", "isgd") else 1
            ep = [BEGIN, self.new("p", b, o, kind, m), self.new("q", b, o, kind, m)]
            where = set(range(nf))
            masked = o["k"] in ("adam", "adamax")
            for _ in range(r.randint(1, 3) if nf > 40 else r.randint(1, length) if r.random() < .93 or nf > 6 else r.randint(20, 45)):
                while True:
                    f = {"c": "sparse", "n": nf, "i": self.subset(nf, r.choice([.5, .8, 1]) if not large else r.choice([.9, 1, 1, 1]))}
                    f["v"] = self.vals(len(f["i"]))
                    if not masked or where & set(f["i"]):
                        break
                if masked:
                    where &= set(f["i"])
                dn = {"c": "dense", "v": [s(x) for x in self.denote(f)]}
                es = [self.err() for _ in range(m)]
                a, c = (f, dn) if r.random() < .7 else (dn, f)
                ep += [{"op": "lupd", "id": "p", "in": {"x": [], "phi": a, "fail": []}, "e": es},
                       {"op": "lupd", "id": "q", "in": {"x": [], "phi": c, "fail": []}, "e": es},
                       {"op": "ltwin", "a": "p", "b": "q", "where": sorted(where)}]
                if r.random() < .06:
                    ep += [{"op": "lreset", "id": "p"}, {"op": "lreset", "id": "q"}]
            eps.append(ep)
        return eps

    def contract(self, n, length=6):
        """C22"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            k = "isgd" if r.random() < .65 else "sgd"
            nf = r.choice([1, 2, 3, 5, 20]) if r.random() < .96 else r.randint(40, 300)
            o = {"k": k, "lr": num(10 ** r.uniform(-6, 12)) if k == "isgd" else num(10 ** r.uniform(-3, .7))}
            b = {"k": "phi", "n": nf}
            ep = [BEGIN, self.new("a", b, o, "s", 1)]
            if r.random() < .6:
                ep.append(self.setw("a", nf, 1))
            def feats():
                f = self.feats(nf)
                if tiny and "v" in f:
                    f["v"] = [num(float(v) * tiny) for v in f["v"]]
                return f
            tiny = 0
            if r.random() < .12:            # however large the rate or the features
                tiny = 10 ** r.choice([r.uniform(-12, -6), r.uniform(3, 6)])
                o["lr"] = num(10 ** r.uniform(-2, 3) / tiny / tiny)
                if k == "sgd":
                    o["lr"] = num(r.uniform(.01, 1) / tiny / tiny)
            f = feats()
            for _ in range(r.randint(1, length)):
                if r.random() < .3:
                    f = feats()
                ep.append({"op": "lupdw", "id": "a", "in": {"x": [], "phi": f, "fail": []}, "cl": {"k": "to", "y": [self.err()], "lay": "std"}})
            eps.append(ep)
        return eps

    def converge(self, n):
        """C22: one input, one target, many repetitions"""
        r = self.r
        eps = []
        for q in range(self.n(n)):
            k = r.choice(["isgd", "isgd", "sgd"])
            nf = r.choice([1, 2, 3, 6])
            f = self.feats(nf)
            while not any(self.denote(f)) or max(abs(x) for x in self.denote(f)) > 100:
                f = self.feats(nf)
            q = sum(x * x for x in self.denote(f))
            o = {"k": k, "lr": num(10 ** r.uniform(-1, 6) / q) if k == "isgd" else num(r.uniform(.1, 1.9) / q)}
            ep = [BEGIN, self.new("a", {"k": "phi", "n": nf}, o, "s", 1), self.setw("a", nf, 1)]
            y = self.err()
            c = {"op": "lupdw", "id": "a", "in": {"x": [], "phi": f, "fail": []}, "cl": {"k": "to", "y": [y], "lay": "std"}}
            left = 1 / (1 + float(o["lr"]) * q) if k == "isgd" else abs(1 - float(o["lr"]) * q)
            reps = min(60, 2 + int(-9 / math.log10(max(left, 1e-9))))
            ep += [c] * reps
            eps.append(ep)
        return eps

    # ---- vectors of very many components --------------------------------------------------
    def shape(self, segs=1, small=False):
        """cells of a long vector: see spec/Vast.tla.  The last index of a segment is a cell of its own,
        so that what lists it has the dimension it should."""
        r = self.r
        n = r.randint(3, 40) if small else r.choice([65535, 65536, 65537, 65538, r.randint(65539, 80000), r.randint(65539, 140000), r.choice([131071, 131072, 131073])])
        cuts = sorted(set([n] + [r.choice([1, 2, 256, 257, 32768, n - 1, n // 2, r.randint(1, n), 65535, 65536, 65537]) for _ in range(segs - 1)]))
        cuts = [c for c in cuts if 0 < c <= n]
        at = {c - 1 for c in cuts} | {r.choice([0, 1, 255, 256, 32767, 65534, 65535, 65536, 65537, n - 2, r.randrange(n), r.randrange(n)]) for _ in range(r.randint(0, 6))}
        return {"p": r.choice([1, 1, 2, 2, 3, 5, 7]), "cuts": cuts, "at": sorted(i for i in at if 0 <= i < n)}

    @staticmethod
    def ncells(sh, q=None):
        q = len(sh["cuts"]) if q is None else q
        return q * sh["p"] + sum(i < sh["cuts"][q - 1] for i in sh["at"])

    @staticmethod
    def cell(sh, i):
        q = next(q for q, c in enumerate(sh["cuts"]) if i < c)
        lo = sh["cuts"][q - 1] if q else 0
        before = q * sh["p"] + sum(j < lo for j in sh["at"])
        return before + (sh["p"] + sum(lo <= j < i for j in sh["at"]) if i in sh["at"] else i % sh["p"])

    def cells_of(self, sh, k, rep=None):
        """a literal over k cells; sparse ones list few, some or all of them"""
        f = self.feats(k, rep)
        if "v" in f:
            f["v"] = [v if abs(float(v)) < 1e9 else "3" for v in f["v"]]
        return f

    def probes(self, sh, n):
        """single indices, and some beyond the end"""
        r = self.r
        return r.sample([i for i in sh["at"] if i < n], min(3, sum(i < n for i in sh["at"]))) + [n, n + r.choice([1, 65536, 2 ** 30])]

    def vast(self, n, *ask):
        """vectors of 65535 components and more"""
        r = self.r
        out = []
        for q in range(self.n(n)):
            sh = self.shape(r.choice([1, 1, 2, 3]), small=q % 6 == 5)
            K, S = self.ncells(sh), len(sh["cuts"])

            def size():
                return self.ncells(sh, S if r.random() < .7 else r.randint(1, S))
            k = size()
            rep = r.choice("dss" if q % 2 else "dds")
            f = self.cells_of(sh, k, rep)
            c = {"op": "vast", "sh": sh, "f": f, "ask": list(ask)}
            nf = sh["cuts"][next(s for s in range(1, S + 1) if self.ncells(sh, s) == k) - 1]
            if {"map", "inject"} & set(ask):
                c["fn"] = self.fn1_single(f) if "map" in ask else self.fn1(tame=True)
            if {"merge", "inject"} & set(ask):
                other = r.choice("ds")
                c["g"] = self.cells_of(sh, k if other == rep == "d" else size(), other)
                c["fn2"] = self.fn2_single() if "merge" in ask else self.fn2(tame=True)
            if "inject" in ask:
                c["k"] = r.choice([1, 2, 255, 256, 257, 65535, 65536, 65537, nf - 1, nf, nf + 1, r.randint(1, nf), 10 ** 9])
            if "lin" in ask:
                c.update(g=self.cells_of(sh, k), w=[self.val(big=False) for _ in range(k)], lay=r.choice(["std", "rev", "stride", "slice", "col"]),
                         m=[[self.val(big=False) for _ in range(k)] for _ in range(r.choice([1, 2, 3]))],
                         mlay=r.choice(["c", "f", "wide", "flip", "tall", "rrev", "crev", "fcrev", "frrev"]), alpha=self.val(big=False))
            if "stack" in ask:
                c.update(g=self.cells_of(sh, size(), r.choice([rep, rep, "d", "s"])), h=self.cells_of(sh, size(), r.choice([rep, rep, "d", "s"])))
            if "eq" in ask:
                g = dict(f)
                u = r.random()
                if "v" in g and g["v"] and u < .5:
                    v = list(g["v"])
                    at = [j for j in range(len(v)) if rep == "s" or j >= sh["p"]] or [0]
                    j = r.choice(at)
                    v[j] = num(r.choice([-float(v[j]), float(v[j]) + 1, math.nextafter(float(v[j]), math.inf)]))
                    g["v"] = v
                elif u < .75:
                    g = self.cells_of(sh, size(), rep)
                elif rep == "s" and len(g["i"]) > 1:
                    g = {"c": "record", "n": k, "i": g["i"][1:], "v": (g["v"] if "v" in g else ["1"] * len(g["i"]))[1:]}
                c["g"] = g
            if {"edit", "base"} & set(ask):
                c["rem"] = self.probes(sh, nf)
            if "save" in ask:
                c["fmt"] = r.choice(self.FMTS)
            out.append(c)
        return self.single(out)

    def vlearn(self, n, kinds=None, vector=None, want=(), dense=.3):
        """learners over very many features"""
        r = self.r
        out = []
        for q in range(self.n(n)):
            sh = self.shape(r.choice([1, 1, 2]), small=q % 7 == 6)
            k, nf = self.ncells(sh), sh["cuts"][-1]
            vec = r.random() < .35 if vector is None else vector
            o = self.opt(r.choice(["sgd", "isgd"]) if vec else (kinds or self.OPTS)[q % len(kinds or self.OPTS)])
            if o["k"] == "sgd" and r.random() < .7:
                o["lr"] = num(10 ** r.uniform(-1, .2) / nf)
            m = r.choice([1, 2, 3]) if vec else 1
            steps = []

            full = r.random() < dense

            def feats(full=full):
                while True:
                    f = self.cells_of(sh, k) if not full else self.dense(k, [self.val(zero=False, big=False) for _ in range(k)])
                    if all(abs(float(v)) < 1e3 for v in f.get("v", [])):
                        return f

            def amount(big=False):
                return self.val(zero=not full, big=False) if not want or not full else num(r.choice([-1, 1]) * (r.uniform(20, 90) if big else r.uniform(.1, .9)))
            f = feats()
            for j in range(r.randint(3, 6)):
                if r.random() < .5:
                    f = feats()
                do = r.choice(["eval", "upd", "upd", "with", "with"] + (["updi"] if vec else ["step"]) + list(want) * 2)
                if full and j < 3:
                    do = ["upd", "with", do][j]
                if j == 1 and want:
                    do = r.choice(want)
                st = {"do": do}
                if do not in ("reset", "save"):
                    st["f"] = f
                if do in ("upd", "step", "updi"):
                    st["e"] = [amount(big=j == 0) for _ in range(m if do == "upd" else 1)]
                if do == "updi":
                    st["j"] = r.randint(1, m)
                if do == "with":
                    st["y"] = [self.val(big=False) for _ in range(m)]
                if do == "save":
                    st["fmt"] = r.choice(self.FMTS)
                steps.append(st)
            steps += [{"do": "upd", "f": f, "e": [amount() for _ in range(m)]}, {"do": "eval", "f": feats()}]
            out.append({"op": "vlearn", "sh": sh, "o": o, "kind": "v" if vec else "s", "m": m, "steps": steps})
        return self.single(out)

    def vouts(self, n, want=(), fail=False):
        """learners with very many outputs"""
        r = self.r
        out = []
        for q in range(self.n(n)):
            nf = r.choice([1, 1, 2, 3])
            sh = self.shape(r.choice([1, 2]), small=q % 7 == 6)
            o = self.opt("flaky" if fail else r.choice(["sgd", "isgd"]))
            if fail:            # the segment after the last cut begins with the output that fails
                m = sh["cuts"][-1]
                c = r.choice([65536, 65537, 256, m - 1, r.randint(1, m - 1)])
                c = c if 0 < c < m else 1
                sh = {"p": sh["p"], "cuts": [c, m], "at": sorted(set(sh["at"]) | {c - 1, c})}
            k, m, S = self.ncells(sh), sh["cuts"][-1], len(sh["cuts"])

            def errs(all_=False):
                return [self.val(big=False) for _ in range(k if all_ or r.random() < .7 else self.ncells(sh, r.randint(1, S)))]
            steps = []
            for j in range(r.randint(2, 4)):
                do = r.choice(["eval", "upd", "updi", "with"] + list(want))
                if j == 1 and want:
                    do = r.choice(want)
                st = {"do": do}
                if do not in ("reset", "save"):
                    st["phi"] = self.feats(nf)
                    if "v" in st["phi"]:
                        st["phi"]["v"] = [v if abs(float(v)) < 1e4 else "2" for v in st["phi"]["v"]]
                if do == "eval":
                    st["j"] = r.choice(sh["at"] + [m, m + 3])
                if do == "updi":
                    st["j"] = r.choice(sh["at"])
                    st["e"] = [self.val(big=False)]
                if do == "upd":
                    st["e"], st["lazy"] = errs(), r.random() < .3
                if do == "with":
                    st["e"] = errs()
                if do == "save":
                    st["fmt"] = r.choice(self.FMTS)
                if fail and "e" in st:
                    st["e"] = [num(-abs(float(e))) for e in st["e"]]
                steps.append(st)
            if fail:
                e = [num(r.uniform(-2, .9)) for _ in range(k)]
                c = self.cell(sh, sh["cuts"][0])
                e[c] = "1.5"
                if r.random() < .4:
                    e[r.randrange(self.ncells(sh, 1), k)] = "7"
                steps.append({"do": "fail", "j": sh["cuts"][0], "phi": self.feats(nf), "e": e, "lazy": r.random() < .3})
            else:
                steps.append({"do": "eval", "phi": self.dense(nf, [r.choice(["1", "-2", "0.5"]) for _ in range(nf)]), "j": r.choice(sh["at"])})
            out.append({"op": "vouts", "sh": sh, "n": nf, "o": o, "lay": r.choice(["short", "c", "f", "wide", "flip"]), "steps": steps})
        return self.single(out)

    def vouts_fail(self, n):
        return self.vouts(n, fail=True)

    def vouts_save(self, n):
        return self.vouts(n, want=("save",))

    def vlearn_save(self, n):
        return self.vlearn(n, want=("save",))

    def vlearn_reset(self, n):
        return self.vlearn(n, ["mom", "nag", "adagrad", "adam", "adamax"], vector=False, want=("reset",), dense=.8)

    def vlearn_scalar(self, n):
        return self.vlearn(n, vector=False)

    def vlearn_vector(self, n):
        return self.vlearn(n, vector=True)

    def vlearn_contract(self, n):
        return self.vlearn(n, ["isgd", "isgd", "sgd"], vector=False, want=("with",))


Gen.oddweights_s = lambda self, n: self.oddweights(n, "s")
Gen.oddweights_v = lambda self, n: self.oddweights(n, "v")
for _a in ("read", "lin", "map", "merge", "stack", "edit", "inject", "eq", "save", "base"):
    setattr(Gen, "vast_" + _a, lambda self, n, a=_a: self.vast(n, a))

QUICK = {
    "C01": [("read", 1500), ("huge_feats", 80), ("vast_read", 12)],
    "C02": [("lin", 1200), ("huge_feats", 120), ("vast_lin", 12)],
    "C03": [("map", 1500), ("huge_feats", 100), ("vast_map", 12)],
    "C04": [("merge", 1500), ("huge_feats", 150), ("vast_merge", 12)],
    "C05": [("stack", 1200), ("huge_feats", 200), ("vast_stack", 12)],
    "C06": [("edits", 260), ("plain_edits", 150), ("huge_feats", 80), ("vast_edit", 12)],
    "C07": [("panics", 700), ("panic_sweep", 60), ("vast_inject", 12)],
    "C08": [("project", 900), ("deep", 12), ("terms", 60), ("tables", 80), ("grids", 60), ("kbases", 60), ("normed", 200), ("bigs", 250), ("huge_bases", 80), ("vast_base", 4)],
    "C09": [("terms", 420), ("tables", 150), ("term_corners", 1), ("deep_terms", 24)],
    "C10": [("grids", 900), ("deep_grids", 30), ("huge_bases", 250)],
    "C11": [("tiles", 500), ("bigs", 60)],
    "C12": [("kernels", 900), ("rays", 150), ("kbases", 250), ("deep_kernels", 16)],
    "C13": [("normed", 1200), ("project", 200), ("bigs", 120), ("vast_base", 8)],
    "C14": [("composed", 900), ("project", 200), ("bigs", 120), ("huge_bases", 150), ("vast_base", 8)],
    "C15": [("scalar", 400), ("oddweights_s", 80), ("vlearn", 10), ("vouts", 4)],
    "C16": [("stepping", 350), ("resets", 60), ("burns", 18), ("vlearn_scalar", 14)],
    "C17": [("resets", 350), ("worn", 21), ("wrecks", 42), ("vlearn_reset", 15)],
    "C18": [("failing", 400), ("vouts_fail", 8)],
    "C19": [("vectors", 320), ("vtwins", 120), ("oddweights_v", 60), ("vouts", 8), ("vlearn_vector", 5)],
    "C20": [("restores", 250), ("wornsaves", 21), ("saves", 500), ("huge_feats", 60), ("huge_bases", 60), ("vast_save", 6), ("vlearn_save", 6), ("vouts_save", 5)],
    "C21": [("reptwins", 300), ("vlearn_scalar", 14)],
    "C23": [("equal", 1800), ("huge_feats", 80), ("vast_eq", 12)],
    "C22": [("contract", 350), ("converge", 40), ("vlearn_contract", 9)],
}


def scenarios(prop, seed, tier):
    f = {"quick": 1.0, "thorough": 12.0}[tier]
    eps = []
    for k, (name, n) in enumerate(QUICK[prop]):
        g = Gen("%s/%s/%d/%d" % (prop, tier, seed, k), f)
        eps += getattr(g, name)(n)
    if prop == "C16":
        g = Gen("%s/%s/%d/long" % (prop, tier, seed), f)
        eps += g.stepping(0, long=7 if tier == "quick" else 60)
    return eps


if __name__ == "__main__":
    import sys, json
    for ep in scenarios(sys.argv[1], int(sys.argv[2]), sys.argv[3]):
        for c in ep:
            print(json.dumps(c))
