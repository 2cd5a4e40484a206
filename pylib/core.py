"""Cases (scripts for the replay driver) and random structures."""
import math
import random


class Node:
    """vtree node"""
    __slots__ = ("var", "l", "r", "par", "pos", "vars")

    def __init__(self, var=None, l=None, r=None):
        self.var, self.l, self.r, self.par, self.pos = var, l, r, None, None
        if var is not None:
            self.vars = frozenset([var])
        else:
            l.par = r.par = self
            self.vars = l.vars | r.vars

    leaf = property(lambda s: s.var is not None)

    def nodes(self):
        if self.leaf:
            return [self]
        return self.l.nodes() + [self] + self.r.nodes()

    def leaves(self):
        return [n for n in self.nodes() if n.leaf]

    def order(self):
        return [n.var for n in self.leaves()]

    def rpn(self):
        if self.leaf:
            return [self.var]
        return self.l.rpn() + self.r.rpn() + [0]

    def number(self):
        for i, n in enumerate(self.nodes()):
            n.pos = i
        return self

    def map(self, f):
        if self.leaf:
            return Node(f(self.var))
        return Node(None, self.l.map(f), self.r.map(f))

    def proj(self, keep):
        if self.leaf:
            return Node(self.var) if self.var in keep else None
        a, b = self.l.proj(keep), self.r.proj(keep)
        if a is None:
            return b
        if b is None:
            return a
        return Node(None, a, b)

    def depth(self):
        return 0 if self.leaf else 1 + max(self.l.depth(), self.r.depth())


def tree(rng, vs, style=None):
    vs = list(vs)
    style = style or rng.choice(["rand", "rand", "rand", "bal", "right", "left"])

    def go(v):
        if len(v) == 1:
            return Node(v[0])
        if style == "bal":
            k = len(v) // 2
        elif style == "right":
            k = 1
        elif style == "left":
            k = len(v) - 1
        else:
            k = rng.randint(1, len(v) - 1)
        return Node(None, go(v[:k]), go(v[k:]))
    return go(vs).number()


def fmt(x):
    return "d%.17g" % x


class Case:
    def __init__(self, cid, prof, rng, vs, exh=True, probes=None):
        self.id, self.prof, self.rng = cid, prof, rng
        self.vars = sorted(vs)
        self.exh = exh
        self.probes = probes or []
        self.lines = []
        self.widek = False
        self.hn = 0
        self.extra = ""

    def cmd(self, *a):
        out = []
        for x in a:
            if isinstance(x, (list, tuple)):
                out += [str(y) for y in x]
            else:
                out.append(str(x))
        self.lines.append(" ".join(out))
        if a[0] == "mgr" and self.rng.random() < 0.025:
            # a manager that has been in use: indices beyond one and two bytes
            self.lines.append("burn %s %d" % (a[1], self.rng.choice([150, 300, 1100, 4200, 66000])))

    def h(self):
        self.hn += 1
        return self.hn

    def text(self):
        head = '"id":"%s","prof":"%s","vars":%s,"exh":%d,"probes":%s' % (
            self.id, self.prof, self.vars, 1 if self.exh else 0, [sorted(p) for p in self.probes])
        lines = self.lines
        mg = [j for j, x in enumerate(lines) if x.startswith("mgr ")]
        r = random.Random(self.id + str(len(lines)) + "".join(lines[-3:]))
        if mg and r.random() < (0.1 if self.prof in ("C02", "C05") else 0.03):
            # in the middle: indices that agree with earlier ones in their lower bytes
            j = r.choice(mg)
            m = lines[j].split()[1]
            end = next((i for i, x in enumerate(lines) if x.split()[:2] == ["mgrfree", m]), len(lines))
            i = r.randint(j + 1, end)
            lines = lines[:i] + ["burn %s %d" % (m, r.choice([65536, 65536, 256]) - r.randint(0, 40))] + lines[i:]
        return "case " + head + self.extra + "\n" + "\n".join(lines) + "\nend\n"


def hexs(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return s.hex() if s else "-"


def formula(rng, vs, size, consts=0.03):
    """random RPN formula over vs"""
    vs = list(vs)
    if size <= 1:
        if rng.random() < consts:
            return [rng.choice([1000004, 1000005])]
        return [rng.choice(vs) * rng.choice([1, -1])]
    if rng.random() < 0.1:
        return formula(rng, vs, size - 1, consts) + [1000003]
    k = rng.randint(1, size - 1)
    return formula(rng, vs, k, consts) + formula(rng, vs, size - k, consts) + [rng.choice([1000001, 1000002, 1000006, 1000001, 1000002])]


def weights(rng, k, mode):
    """k weight tokens"""
    if mode == "mix":
        mode = rng.choice(["norm", "norm", "unnorm", "tie", "ext"])
    if mode == "equal":
        return [fmt(1.0 / k)] * k
    if mode == "tie":
        a = [rng.choice([1, 1, 2]) for _ in range(k)]
        s = sum(a)
        return [fmt(x / s) for x in a]
    if mode == "norm":
        a = [rng.uniform(0.05, 1) for _ in range(k)]
        s = sum(a)
        return [fmt(x / s) for x in a]
    if mode == "ext":
        a = [10.0 ** rng.choice([-12, -9, -6, -3, 0, -0.1, -30]) * rng.uniform(0.5, 1) for _ in range(k)]
        s = sum(a)
        return [fmt(x / s) for x in a]
    if mode == "log":  # normalised, far below what a plain number holds
        a = [rng.choice([0, -1, rng.uniform(-900, 0), rng.uniform(-900, -700), -800]) for _ in range(k)]
        m = max(a)
        z = m + math.log(sum(math.exp(x - m) for x in a))
        return ["l%.17g" % (x - z) for x in a]
    if mode == "far":  # like log, but not normalised
        return ["l%.17g" % rng.uniform(-1000, 900) for _ in range(k)]
    if mode == "unnorm":
        return [rng.choice([fmt(rng.uniform(0.01, 5)), "l%.17g" % rng.uniform(-60, 30), fmt(1.0)]) for _ in range(k)]
    if mode == "dun":  # not normalised, often exactly one
        return [rng.choice([fmt(1.0), fmt(1.0), fmt(0.5), fmt(rng.uniform(0.01, 3))]) for _ in range(k)]
    if mode == "near":  # normalised, close to each other
        a = [math.exp(rng.choice([1, -1]) * 10 ** rng.uniform(-4.5, -3)) for _ in range(k)]
        s = sum(a)
        return [fmt(x / s) for x in a]
    if mode == "zero":  # normalised with some zeros
        a = [rng.choice([0, 1, 1, 2]) * 1.0 for _ in range(k)]
        if sum(a) == 0:
            a[rng.randrange(k)] = 1.0
        s = sum(a)
        return [fmt(x / s) for x in a]
    if mode.startswith("grid"):  # multiples of 1/G, positive
        g = int(mode[4:])
        if k > g:
            k0 = k
            raise ValueError("too many elements for grid %d" % k0)
        cuts = sorted(rng.sample(range(1, g), k - 1))
        c = [0] + cuts + [g]
        return [fmt((c[i + 1] - c[i]) / g) for i in range(k)]
    if mode == "one":
        return [fmt(1.0)] * k
    raise ValueError(mode)


class Builder:
    """random deterministic structures over a vtree, issued as commands"""

    def __init__(self, case, mgr, vt, flag=0, wmode="norm", share=0.5, maxk=4, conv=False, deep=0.0, topp=0.45, rootk=0, fmix=0.0, raw=False):
        self.rootk, self.fmix, self.raw = rootk, fmix, raw
        self.c, self.m, self.vt, self.flag = case, mgr, vt, flag
        self.rng = case.rng
        self.wmode, self.share, self.maxk, self.conv, self.deep, self.topp = wmode, share, maxk, conv, deep, topp
        self.memo = {}
        self.terms = {}
        self.log = []   # (handle, command tail) for re-requests

    def w(self, k):
        return weights(self.rng, k, self.wmode)

    def emit(self, name, *tail):
        h = self.c.h()
        self.c.cmd("u" + name if self.raw else name, h, self.m, *tail)
        self.log.append((h, name, tail))
        return h

    def lit(self, l):
        return self.emit("lit", l, self.fl())

    def fl(self):
        """now and then the flag of something else"""
        return self.rng.choice([0, 1, 7]) if self.fmix and self.rng.random() < self.fmix else self.flag

    def top(self, v):
        a = self.w(2) if self.wmode != "dun" else weights(self.rng, 2, "norm")
        return self.emit("top", v.var, self.fl(), a[0], a[1])

    def dec(self, els, root=False):
        """els: list of (p, s); shuffled"""
        els = list(els)
        self.rng.shuffle(els)
        ws = self.w(len(els))
        if root and len(els) > 256:
            # the heaviest element is among the last ones
            m = self.rng.choice(sorted(p for p, _ in els)[256:])
            ws = [fmt(float(w[1:]) * 0.6 + (0.4 if p == m else 0)) for (p, _), w in zip(els, ws)]
        t = []
        for (p, s), w in zip(els, ws):
            t += [p, s, w]
        return self.emit("dec", self.flag if root else self.fl(), len(els), t)

    def build(self, v):
        r = self.rng
        if v.pos in self.memo and r.random() < self.share:
            return r.choice(self.memo[v.pos])
        h = self._build(v)
        self.memo.setdefault(v.pos, []).append(h)
        return h

    def _build(self, v):
        r = self.rng
        if v.leaf:
            if r.random() < self.topp:
                return self.top(v)
            return self.lit(r.choice([1, -1]) * v.var)
        if self.conv and r.random() < 0.12:
            h = self.convert(v)
            if h:
                return h
        l, rt = v.l, v.r
        if r.random() < self.deep:
            l = r.choice(l.nodes())
        k = r.randint(1, self.maxk)
        if v is self.vt and self.rootk:
            k, l = self.rootk, v.l
        ps = self.partition(l, k)
        if 1 < len(ps) <= 256 and r.random() < 0.4:
            ps = r.sample(ps, r.randint(1, len(ps)))
        els = []
        for i, p in enumerate(ps):
            rr = rt
            if r.random() < self.deep:
                rr = r.choice(rt.nodes())
            els.append((p, self.build(rr)))
        return self.dec(els, v is self.vt)

    def convert(self, v):
        """a compiled formula that is certainly satisfiable: disjunction with a cube"""
        r = self.rng
        vs = sorted(v.vars)
        f = formula(r, vs, r.randint(1, 2 * len(vs)))
        f = f + [vs[0] * r.choice([1, -1])]
        for x in vs[1:]:
            f += [x * r.choice([1, -1]), 1000001]
        f += [1000002]
        return self.emit("conv", self.flag, 2, v.pos, len(vs), [y for i, x in enumerate(vs) for y in (x, i + 1)], f)

    def partition(self, v, k):
        """at most k mutually exclusive structures over v"""
        r = self.rng
        if k <= 1:
            return [self.build(v)]
        if v.leaf:
            return [self.lit(v.var), self.lit(-v.var)]
        mode = r.random()
        if k > 6 and len(v.vars) > 2:
            return self.cubes(v, k)
        if self.conv and mode < 0.15:
            vs = sorted(v.vars)
            f = formula(r, vs, r.randint(1, 2 * len(vs)), 0)
            cube = [vs[0] * r.choice([1, -1])]
            for x in vs[1:]:
                cube += [x * r.choice([1, -1]), 1000001]
            mp = [y for i, x in enumerate(vs) for y in (x, i + 1)]
            other = None
            # f1 = f or cube ; f2 = not f1 (may be empty when f1 is true: then only f1)
            # keep both satisfiable with a second cube that differs in the last variable
            l1 = cube + []
            f1 = f + l1 + [1000002]
            last = vs[-1] if len(vs) == 1 else None
            d = [-cube[0]] + cube[1:]
            f1 = f1 + d + [1000003, 1000001]
            a = self.emit("conv", self.flag, 2, v.pos, len(vs), mp, f1)
            b = self.emit("conv", self.flag, 2, v.pos, len(vs), mp, f1 + [1000003])
            return [a, b]
        if mode < 0.45:
            ps = self.partition(v.l, k)
            return [self.dec([(p, self.build(v.r))]) for p in ps]
        if mode < 0.6:
            ss = self.partition(v.r, k)
            p = self.build(v.l)
            return [self.dec([(p, s)]) for s in ss]
        # latin: every prime combined with a differently rotated partition of the sub
        kp = r.randint(1, max(1, min(3, k)))
        ps = self.partition(v.l, kp)
        ss = self.partition(v.r, k)
        n = len(ss)
        rots = [r.randrange(n) for _ in ps]
        out = []
        for i in range(n):
            out.append(self.dec([(p, ss[(i + rot) % n]) for p, rot in zip(ps, rots)]))
        return out

    def cubes(self, v, k):
        """about k mutually exclusive structures: conjunctions over some of the variables"""
        r = self.rng
        vs = sorted(v.vars)
        d = 1
        while (1 << d) < k and d < len(vs):
            d += 1
        chosen = r.sample(vs, d)
        picks = r.sample(range(1 << d), min(k, 1 << d))
        rest = {}

        def term(n, sign):
            if n.leaf:
                if n.var in sign:
                    return self.lit(n.var * sign[n.var])
                if n.var not in rest or r.random() < 0.3:
                    rest[n.var] = self.lit(n.var * r.choice([1, -1])) if r.random() < 0.3 else self.top(n)
                return rest[n.var]
            key = (n.pos, tuple(sorted((x, sign[x]) for x in n.vars if x in sign)))
            if key not in self.terms:
                self.terms[key] = self.dec([(term(n.l, sign), term(n.r, sign))])
            return self.terms[key]
        return [term(v, {x: (1 if (m >> i) & 1 else -1) for i, x in enumerate(chosen)}) for m in picks]

    def rebuild(self, upto=None):
        """issue the recorded commands again under new handles; returns handle map"""
        mp = {}
        for h, name, tail in list(self.log):
            flat = []
            for x in tail:
                flat += list(x) if isinstance(x, (list, tuple)) else [x]
            if name == "dec":
                k = int(flat[1])
                els = [flat[2 + 3 * i:5 + 3 * i] for i in range(k)]
                self.rng.shuffle(els)
                flat = flat[:2]
                for p, s, w in els:
                    flat += [mp.get(p, p), mp.get(s, s), w]
            n = self.c.h()
            self.c.cmd("u" + name if self.raw else name, n, self.m, flat)
            mp[h] = n
            if upto and len(mp) >= upto:
                break
        return mp
