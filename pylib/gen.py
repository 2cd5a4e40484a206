"""Seeded generators of cases, one per property."""
import random
from core import *

FLAGS = [0, 0, 0, 1, 2, 7, 1 << 63, (1 << 64) - 1]
BIGVARS = [1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 4095, 32767, 32768, 40000, 65534, 65535]


def pick_vars(rng, n, big=0.12):
    if rng.random() < big:
        vs = set(rng.sample(BIGVARS, min(n, len(BIGVARS))))
        while len(vs) < n:
            vs.add(rng.randint(1, 65535))
        vs = list(vs)
    else:
        vs = rng.sample(range(1, n + 1 + rng.choice([0, 0, 1, 3])), n)
    rng.shuffle(vs)
    return vs


def probes_for(rng, vs, k=40):
    vs = list(vs)
    out = [[], vs]
    for _ in range(k - 2):
        p = rng.choice([0.5, 0.5, 0.5, 0.1, 0.9])
        out.append([v for v in vs if rng.random() < p])
    seen, res = set(), []
    for x in out:
        s = tuple(sorted(x))
        if s not in seen:
            seen.add(s)
            res.append(list(s))
    return res


def start(rng, cid, prof, lo=2, hi=5, vs=None, wide=False, style=None, big=0.12, extra=0):
    vs = vs or pick_vars(rng, rng.randint(lo, hi), big)
    t = tree(rng, vs, style)
    c = Case(cid, prof, rng, list(vs), not wide, probes_for(rng, vs) if wide else [])
    c.cmd("vtree", 1, t.rpn())
    c.cmd("mgr", 1, 1)
    c.t = t
    return c, t


def lits(rng, vs, p=0.5):
    return [v * rng.choice([1, -1]) for v in vs if rng.random() < p]


def full(rng, vs):
    return [v * rng.choice([1, -1]) for v in vs]


def all_full(vs):
    vs = list(vs)
    return [[v if (i >> j) & 1 else -v for j, v in enumerate(vs)] for i in range(1 << len(vs))]


def ev_queries(c, h, vs, extra=(), k=8):
    r = c.rng
    out = []
    fs = all_full(vs) if len(vs) <= 3 else [full(r, vs) for _ in range(6)]
    qs = fs + [[]] + [lits(r, vs, r.choice([0.2, 0.5, 0.8])) for _ in range(k)]
    if extra:
        qs += [lits(r, list(vs) + list(extra)) for _ in range(3)]
    for q in qs:
        q = list(q)
        r.shuffle(q)
        on = {abs(x) for x in q}
        free = [v for v in list(vs) + list(extra) if v not in on]
        g = [v for v in free if r.random() < 0.4]
        out += q + (["g"] + g if g else []) + ["/"]
    c.cmd("evals", h, out)


def cons_queries(c, h, vs, extra=(), k=10):
    r = c.rng
    qs = [[]] + [lits(r, vs, r.choice([0.2, 0.5, 0.8, 1])) for _ in range(k)]
    if extra:
        qs += [lits(r, list(vs) + list(extra)) for _ in range(3)]
    out = []
    for q in qs:
        out += q + ["/"]
    c.cmd("cons", h, out)
    for _ in range(3):
        n = r.choice([0, 1, max(vs) if max(vs) < 200 else 5, r.randint(0, 8)])
        c.cmd("consn", h, n, [v for v in vs if r.random() < 0.5])
    for _ in range(3):
        c.cmd("act", h, [v for v in vs if r.random() < 0.5])


def tosdd(c, h, vs, k=12):
    r = c.rng
    vs = list(vs)
    perm = list(range(1, len(vs) + 1))
    r.shuffle(perm)
    m = [y for v, s in zip(vs, perm) for y in (v, s)]
    order = perm[:]
    r.shuffle(order)
    rp = tree(r, order).rpn()
    fs = all_full(vs) if len(vs) <= 4 else [full(r, vs) for _ in range(k)]
    out = ["/"]
    for f in fs:
        out += [x for x in f if x > 0] + ["/"]
    c.cmd("tosdd", h, len(vs), m, rp, out)


def conv(c, mgr, flag, t, pos=None, mode=None, f=None, size=None):
    """convert a random formula placed at vtree node pos (a Node of t)"""
    r = c.rng
    node = pos or t
    vs = sorted(node.vars)
    if mode is None:
        mode = 0 if node is t and r.random() < 0.6 else r.choice([1, 2])
    if f is None:
        f = formula(r, vs, size or r.randint(1, 2 * len(vs) + 1))
    perm = list(range(1, len(vs) + 1))
    if r.random() < 0.6:
        r.shuffle(perm)
    h = c.h()
    # an SDD manager has the variables 1..k (mode 0 goes by the shape of the vtree)
    m = [y for v, s in zip(vs, perm) for y in (v, s)]
    c.cmd("conv", h, mgr, flag, mode, node.pos, len(vs), m, f)
    return h


def sat_formula(r, vs, size):
    """certainly satisfiable"""
    vs = list(vs)
    f = formula(r, vs, size)
    cube = full(r, vs)
    f = f + [cube[0]]
    for x in cube[1:]:
        f += [x, 1000001]
    return f + [1000002]


def clauses(r, vs, k):
    out = []
    for _ in range(k):
        n = r.choice([1, 2, 2, 3, 3, len(vs)])
        cl = [r.choice(vs) * r.choice([1, -1]) for _ in range(n)]
        out.append(cl)
    return out


def cnf(c, mgr, flag, vs, k=None):
    h = c.h()
    cl = clauses(c.rng, list(vs), c.rng.randint(0, 5) if k is None else k)
    flat = []
    for x in cl:
        flat += x + [0]
    c.cmd("cnf", h, mgr, flag, flat)
    return h


def norm_build(c, t, flag=0, wmode=None, mgr=1, **kw):
    """a locally normalised structure at t"""
    r = c.rng
    wm = wmode or r.choice(["norm", "norm", "tie", "ext", "equal"])
    if not t.leaf and len(t.l.vars) > 2 and "rootk" not in kw and r.random() < WIDEP.get(c.prof, 0.12):
        c.widek = True
        kw["rootk"] = r.randint(7, 1 << min(5, len(t.l.vars)))
    if r.random() < FMIXP.get(c.prof, 0.04):
        kw.setdefault("fmix", r.choice([0.1, 0.4]))
    b = Builder(c, mgr, t, flag, wm, share=kw.pop("share", r.choice([0.2, 0.5, 0.8])), **kw)
    return b.build(t), b


WIDEP = {"C11": 0, "C12": 0.12}
FMIXP = {"C05": 0.15, "C10": 0.15, "C11": 0.15, "C13": 0.15, "C15": 0.3, "C17": 0.15}


def noise(c, hs, t, mgr=1, k=None, p=0.35):
    """operations that must not matter, between the ones of interest"""
    r = c.rng
    if r.random() >= p:
        return
    vs = sorted(t.vars)
    for _ in range(k or r.randint(1, 4)):
        h = r.choice(hs)
        q = r.randrange(15)
        if q == 0:
            c.cmd("mpe", h)
        elif q == 1:
            c.cmd("mar", h)
        elif q == 2:
            c.cmd("count", h)
        elif q == 3:
            c.cmd("size", h)
        elif q == 4:
            ev_queries(c, h, vs, k=2)
        elif q == 5:
            cons_queries(c, h, vs, k=2)
        elif q == 6:
            c.cmd("write", 9, h)
        elif q == 7:
            c.cmd("ser", h)
        elif q == 8:
            c.cmd("act", h, [v for v in vs if r.random() < 0.5])
        elif q == 9:
            c.cmd("ds", h, 0, 1, "/", [r.random() for _ in range(4)])
        elif q == 10:
            tosdd(c, h, vs)
        elif q == 11 and c.exh:
            c.cmd("learn", c.h(), mgr, h, r.choice([0, 8]), "d1", len(vs), vs, rows_for(r, vs, 5))
        elif q == 12:
            c.cmd("load", c.h(), mgr, h, -1, r.choice([0, 8]))
        elif q == 13 and c.exh and not c.widek:
            c.cmd("samp1", mgr, 8, 1, h, c.h(), sidon(r, 120))
        elif q == 14:
            c.cmd("true", c.h(), mgr, t.pos, r.choice([0, 8]))


# ------------------------------------------------------------------ C14
def g_C14(rng, cid, tier):
    wide = rng.random() < 0.12
    c, t = start(rng, cid, "C14", 2, 6) if not wide else start(rng, cid, "C14", 9, 14, wide=True)
    fl = rng.choice(FLAGS)
    b = Builder(c, 1, t, fl, rng.choice(["mix", "norm", "zero", "unnorm", "ext"]), share=0.4, maxk=rng.choice([2, 3, 5]),
                conv=rng.random() < 0.3, deep=rng.choice([0, 0.3, 0.7]))
    for _ in range(rng.randint(1, 3)):
        b.build(rng.choice([t] + [x for x in t.nodes()]))
    for _ in range(rng.randint(1, 4)):
        x = rng.choice(t.nodes())
        k = rng.random()
        if k < 0.4:
            c.cmd("true", c.h(), 1, x.pos, rng.choice(FLAGS))
        else:
            y = rng.choice(x.nodes())
            h = b.build(y)
            c.cmd("norm", c.h(), 1, x.pos, h, rng.choice([fl, fl, 5]))
    for x in rng.sample(t.leaves(), min(2, len(t.leaves()))):
        b.lit(x.var * rng.choice([1, -1]))
        b.top(x)
    b.rebuild(8)
    if rng.random() < 0.15:
        norm_build(c, t, fl)[1].rebuild()
    if rng.random() < 0.3:
        c.cmd("snap")
    return c


# ------------------------------------------------------------------ C01
def bump(tok, d):
    x = float(tok[1:])
    if tok[0] == "l":
        return "l%.17g" % (x + d)
    import math
    return "d%.17g" % (x * math.exp(d))


def g_C01(rng, cid, tier):
    if rng.random() < 0.15:
        return table_hist(rng, cid, "C01")
    c, t = start(rng, cid, "C01", 1, 5) if rng.random() < 0.93 else start(rng, cid, "C01", 5, 6, style="left")
    vs = sorted(t.vars)
    fl = rng.choice(FLAGS)
    b = Builder(c, 1, t, fl, rng.choice(["mix", "norm", "tie", "unnorm"]), share=0.5, conv=False, deep=rng.choice([0, 0, 0.3]))
    roots = [b.build(t) for _ in range(rng.randint(1, 2))]
    noise(c, roots, t)
    if rng.random() < 0.15:
        norm_build(c, t, fl)[1].rebuild()
    elif not t.leaf and len(t.l.vars) > 3:
        norm_build(c, t, fl, rootk=rng.randint(12, 1 << len(t.l.vars)))[1].rebuild()
    b.rebuild()
    # the same with other flags, and single differences
    items = list(b.log)
    rng.shuffle(items)
    for h, name, tail in items[:12]:
        flat = []
        for x in tail:
            flat += list(x) if isinstance(x, (list, tuple)) else [x]
        k = rng.random()
        fi = 1 if name in ("lit", "top") else 0
        if k < 0.2:
            flat[fi] = rng.choice([x for x in FLAGS if x != fl] or [9])
        elif name == "lit":
            flat[0] = -flat[0]
        elif name == "top":
            i = rng.choice([2, 3, 3, 2])
            flat[i] = bump(flat[i], rng.choice([1e-6, -1e-6, 5e-7, 1e-5, 0.1, 1, 0, -0.3]))
        else:
            n = int(flat[1])
            e = rng.randrange(n)
            if k < 0.7 or n < 2:
                flat[4 + 3 * e] = bump(flat[4 + 3 * e], rng.choice([1e-6, -1e-6, 5e-7, 1e-5, 0.1, 1, 0, -0.3]))
            else:
                o = rng.randrange(n)
                x = rng.choice([3, 4, 4])
                flat[x + 3 * e], flat[x + 3 * o] = flat[x + 3 * o], flat[x + 3 * e]
        c.cmd(name, c.h(), 1, flat)
    # mixed requests through the other operations
    for _ in range(rng.randint(0, 5)):
        k = rng.randrange(7)
        f2 = rng.choice([fl, fl, 3])
        if k == 0:
            c.cmd("true", c.h(), 1, rng.choice(t.nodes()).pos, f2)
        elif k == 1:
            conv(c, 1, f2, t, mode=0 if False else 2)
        elif k == 2:
            cnf(c, 1, f2, vs)
        elif k == 3:
            c.cmd("load", c.h(), 1, rng.choice(roots), t.pos, f2)
        elif k == 4:
            f = rng.randint(1, 3)
            c.cmd("write", f, rng.choice(roots))
            c.cmd("read", c.h(), 1, f, f2)
            c.cmd("read", c.h(), 1, f, f2)
        elif k == 5:
            x = rng.choice(t.nodes())
            c.cmd("norm", c.h(), 1, t.pos, b.build(x), f2)
        else:
            h1, _ = norm_build(c, t, f2, "norm")
            h2, _ = norm_build(c, t, f2, "norm")
            m = c.h()
            c.cmd("mul", m, 1, h1, h2, f2)
            c.cmd("mul", c.h(), 1, h1, h2, f2)
    if rng.random() < 0.3:
        c.cmd("gc", 1, rng.sample(roots, rng.randint(0, len(roots))))
    b.rebuild()
    c.cmd("snap")
    if rng.random() < 0.1:
        repeats(c, t, fl)
    return c


# ------------------------------------------------------------------ C02
def g_C02(rng, cid, tier):
    if rng.random() < 0.2:
        return table_hist(rng, cid, "C02")
    c, t = start(rng, cid, "C02", 2, 5)
    vs = sorted(t.vars)
    fl = rng.choice(FLAGS)
    b = Builder(c, 1, t, fl, rng.choice(["norm", "tie", "unnorm"]), share=rng.choice([0.3, 0.6]))
    live = []
    second = rng.random() < 0.3
    if second:
        c.cmd("mgr", 2, 1)
    for rnd in range(rng.randint(2, 4)):
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            x = t if k < 0.6 else rng.choice(t.nodes())
            if k < 0.8:
                live.append(b.build(x))
            elif k < 0.9:
                live.append(conv(c, 1, fl, t, mode=2, f=sat_formula(rng, vs, 3)))
            else:
                live.append(cnf(c, 1, fl, vs, 1))
        if second and rng.random() < 0.5:
            c.cmd("load", c.h(), 2, live[-1], -1, fl)
        keep = rng.sample(live, rng.choice([0, 1, 1, 2, len(live)]) if len(live) >= 2 else rng.randint(0, len(live)))
        if keep and rng.random() < 0.3:
            keep = keep + [rng.choice(keep)]
        keepk = list(keep)
        if rng.random() < 0.3:
            # inner nodes as well
            inner = [h for h, _, _ in b.log]
            keepk += rng.sample(inner, min(len(inner), 2))
        noise(c, live, t, p=0.2)
        c.cmd("gc", 1, keepk)
        if rng.random() < 0.25:
            c.cmd("gc", 1, keepk)
        live = list(dict.fromkeys(keep))
        if rng.random() < 0.5:
            c.cmd("snap")
        for h in live[:2]:
            k = rng.random()
            if k < 0.25:
                ev_queries(c, h, vs, k=4)
            elif k < 0.4:
                c.cmd("mpe", h)
            elif k < 0.5:
                c.cmd("mar", h)
            elif k < 0.6:
                c.cmd("count", h)
            elif k < 0.7:
                c.cmd("ser", h)
            elif k < 0.85:
                c.cmd("load", c.h(), 1, h, -1, fl) if False else c.cmd("size", h)
            else:
                c.cmd("write", 1, h)
        # ask for everything again: retained nodes come back, forgotten ones afresh
        mp = b.rebuild()
        b.memo = {}
        b.terms = {}
        b.log = [(mp.get(h, h), n, tail_map(n, tl, mp)) for h, n, tl in b.log]
        live += [mp[h] for h in live if h in mp][:1]
        if len(b.log) > 60:
            b.log = []
        if rng.random() < 0.25:
            live += repeats(c, t, fl)
    c.cmd("snap")
    return c


def table_hist(rng, cid, prof):
    """a unique table used without a manager: nodes of several flags, collections by roots and by flags"""
    nv = rng.randint(1, 4)
    vs = pick_vars(rng, nv, 0.1)
    t = tree(rng, vs, rng.choice(["rand", "right", "bal", "left"])).number()
    c = Case(cid, prof, rng, sorted(vs), True)
    c.cmd("vtree", 1, t.rpn())
    c.cmd("utab", 1, 1)
    other = rng.random() < 0.3
    if other:
        c.cmd("mgr", 2, 1)
    fls = rng.sample([0, 1, 2, 7, 4294967296, 18446744073709551615], rng.randint(1, 3))
    bs = {f: Builder(c, 1, t, f, rng.choice(["norm", "tie", "unnorm", "zero", "ext", "log"]), share=rng.choice([0.3, 0.6]), raw=True) for f in fls}
    mixed = rng.random() < 0.3     # parents of one flag over children of another: no collection by flags then
    live = {f: [] for f in fls}
    for rnd in range(rng.randint(2, 5)):
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(fls)
            live[f].append(bs[f].build(t if rng.random() < 0.6 else rng.choice(t.nodes())))
        if rng.random() < 0.6:     # something that differs a little
            f = rng.choice([f for f in fls if bs[f].log])
            h, name, tail = rng.choice(bs[f].log)
            flat = [y for x in tail for y in (x if isinstance(x, (list, tuple)) else [x])]
            if name == "dec":
                k = int(flat[1])
                els = [flat[2 + 3 * i:5 + 3 * i] for i in range(k)]
                how = rng.randrange(5)
                if how == 0:
                    els[rng.randrange(k)][2] = fmt(rng.uniform(0.01, 2))
                elif how == 1 and k > 1:
                    els.pop(rng.randrange(k))
                elif how == 2 and k > 1:
                    i, j = rng.sample(range(k), 2)
                    els[i][1], els[j][1] = els[j][1], els[i][1]
                elif how == 3 and k > 1:
                    i, j = rng.sample(range(k), 2)
                    els[i][2], els[j][2] = els[j][2], els[i][2]
                rng.shuffle(els)
                c.cmd("udec", c.h(), 1, rng.choice(fls) if mixed else f, k if len(els) == k else len(els), [y for e in els for y in e])
            elif name == "top":
                w = flat[2:]
                rng.shuffle(w)
                k = rng.random()
                if k < 0.3:
                    w[rng.randrange(2)] = fmt(rng.uniform(0.01, 2))
                elif k < 0.6:      # weights that differ only where they are small
                    tiny = ["d0.000000001", "d1e-12", "l-800", "d0", "d1e-09", "l-40"]
                    w[rng.randrange(2)] = rng.choice(tiny)
                    c.cmd("utop", c.h(), 1, flat[0], f, w)
                    w = [rng.choice(tiny) if x in tiny else x for x in w]
                c.cmd("utop", c.h(), 1, flat[0], f, w)
            else:
                c.cmd("ulit", c.h(), 1, flat[0] * rng.choice([1, -1]), rng.choice(fls))
        if rng.random() < 0.25:
            c.cmd("snap")
        k = rng.random()
        if k < 0.35 and not mixed:
            keep = rng.sample(fls, rng.randint(0, len(fls)))
            c.cmd("gcf", 1, keep)
            if rng.random() < 0.2:
                c.cmd("gcf", 1, keep)
            for f in fls:
                if f not in keep:
                    live[f] = []
        elif k < 0.7:
            al = [h for f in fls for h in live[f]]
            keep = rng.sample(al, rng.randint(0, min(3, len(al))))
            if rng.random() < 0.3:
                keep += [h for h, _, _ in rng.sample(bs[fls[0]].log, min(2, len(bs[fls[0]].log)))]
            c.cmd("gc", 1, keep)
            live = {f: [h for h in live[f] if h in keep] for f in fls}
        else:
            continue
        for f in fls:
            for h in live[f][:1]:
                if rng.random() < 0.5:
                    c.cmd("size", h)
                    c.cmd("count", h)
                    ev_queries(c, h, sorted(vs), k=3)
                if other and rng.random() < 0.5:
                    c.cmd("load", c.h(), 2, h, -1, f)
        for f in rng.sample(fls, len(fls)):
            b = bs[f]
            mp = b.rebuild()
            b.memo, b.terms = {}, {}
            b.log = [(mp.get(h, h), n, tail_map(n, tl, mp)) for h, n, tl in b.log]
            live[f] = [mp[h] for h in live[f] if h in mp] + [h for h, _, _ in b.log[-1:]]
            if len(b.log) > 40:
                b.log = b.log[-1:] if b.log[-1][1] != "dec" else []
                if not b.log:
                    live[f].append(b.build(t))
    c.cmd("snap")
    return c


def repeats(c, t, fl, mgr=1):
    """an operation, a collection that drops its result, and the operation again"""
    r = c.rng
    vs = sorted(t.vars)
    a, b = (norm_build(c, t, r.choice([0, fl]), r.choice(["norm", "norm", "tie"]))[0] for _ in range(2))
    k = r.randrange(8)
    perm = list(range(1, len(vs) + 1))
    f = sat_formula(r, vs, 3)
    cl = [x * r.choice([1, -1]) for x in r.sample(vs, r.randint(1, len(vs)))]
    rows = rows_for(r, vs, 4)
    n = r.choice(t.nodes())
    hn = norm_build(c, n, fl)[0] if k == 4 else None
    f2 = r.choice([fl, fl, 3])
    draws = sidon(r, 120)
    if k == 6:
        c.cmd("write", 5, a)

    def op(swap=False):
        h = c.h()
        if k < 3:
            c.cmd("mul", h, mgr, b if swap else a, a if swap else b, f2)
        elif k == 3:
            c.cmd("load", h, mgr, a, -1, f2)
        elif k == 4:
            c.cmd("norm", h, mgr, t.pos, hn, f2)
        elif k == 5:
            if swap:
                c.cmd("conv", h, mgr, f2, 2, t.pos, len(vs), [y for v, s in zip(vs, perm) for y in (v, s)], f)
            else:
                c.cmd("cnf", h, mgr, f2, cl + [0])
        elif k == 6:
            c.cmd("read", h, mgr, 5, f2)
        elif not c.exh or len(vs) > 5:
            c.cmd("true", h, mgr, t.pos, f2)
        else:
            c.cmd("learn", h, mgr, a, f2, "d1", len(vs), vs, rows)
        return h
    hs = [op() for _ in range(r.randint(1, 2))]
    keep = [a, b] + ([hn] if hn else [])
    if r.random() < 0.2:
        keep.append(hs[0])
    c.cmd("gc", mgr, keep)
    hs = [op(), op(r.random() < 0.7)]
    if k == 5 or r.random() < 0.5:
        op()
    if r.random() < 0.3:
        c.cmd("gc", mgr, keep + hs[:1])
        op()
    c.cmd("snap")
    return keep + hs[:1]


def tail_map(name, tail, mp):
    if name != "dec":
        return tail
    flat = []
    for x in tail:
        flat += list(x) if isinstance(x, (list, tuple)) else [x]
    for i in range(int(flat[1])):
        flat[2 + 3 * i] = mp.get(flat[2 + 3 * i], flat[2 + 3 * i])
        flat[3 + 3 * i] = mp.get(flat[3 + 3 * i], flat[3 + 3 * i])
    return tuple(flat)


# ------------------------------------------------------------------ C03
def g_C03(rng, cid, tier):
    wide = rng.random() < 0.1
    mode0 = rng.random() < 0.35
    if wide:
        c, t = start(rng, cid, "C03", 9, 14, wide=True)
    elif mode0:
        n = rng.randint(1, 6)
        vs = list(range(1, n + 1))
        rng.shuffle(vs)
        c, t = start(rng, cid, "C03", vs=vs)
    else:
        c, t = start(rng, cid, "C03", 1, 6)
    fl = rng.choice(FLAGS)
    vs = sorted(t.vars)
    for _ in range(rng.randint(2, 5)):
        node = t if rng.random() < 0.6 else rng.choice(t.nodes())
        nv = sorted(node.vars)
        k = rng.random()
        f = None
        if k < 0.3 and len(nv) > 1:   # ignores some variables
            f = formula(rng, rng.sample(nv, rng.randint(1, len(nv) - 1)), rng.randint(1, 5))
        elif k < 0.36:
            f = [rng.choice([1000004, 1000005])]
        elif k < 0.42:
            x = rng.choice(nv)
            f = [x, -x, 1000001]
        elif k < 0.5:   # parity: many elements
            f = [nv[0]]
            for x in nv[1:]:
                f += [x, 1000006]
        elif k < 0.6:
            f = [rng.choice(nv) * rng.choice([1, -1])]
        mode = None
        if node is t and mode0 and rng.random() < 0.7:
            mode = 0
        elif mode is None:
            mode = rng.choice([1, 2])
        h = conv(c, 1, fl, t, node, mode, f)
        if rng.random() < 0.3:
            c.cmd("count", h)
        if rng.random() < 0.15:
            tosdd(c, h, vs)
    return c


# ------------------------------------------------------------------ C04
def cnf_text(rng, vs, cl):
    lines = []
    if rng.random() < 0.6:
        lines.append("c a comment 1 2 0")
    if rng.random() < 0.7:
        lines.append("p cnf %d %d" % (max(vs), len(cl)))
    blanks = rng.random() < 0.3
    if rng.random() < 0.03:    # long lines, many lines
        k = rng.random()
        if k < 0.5 and cl:
            x = cl[rng.randrange(len(cl))]
            x[:] = [rng.choice(x) for _ in range(rng.choice([60, 150, 500, 1500]))] + x
        elif k < 0.75:
            cl = cl * (rng.choice([130, 260, 300]) // max(1, len(cl)))
        else:
            lines.insert(0, "c " + "1 " * rng.choice([200, 3000]))
    for x in cl:
        if blanks and rng.random() < 0.4:
            lines.append(rng.choice(["", " "]))
        if rng.random() < 0.15:
            lines.append("c %d -%d 0" % (vs[0], vs[-1]))
        sep = rng.choice([" ", " ", "  ", "\t"])
        s = sep.join(str(l) for l in x) + (sep + "0" if rng.random() < 0.8 else "")
        if rng.random() < 0.1:
            s = " " + s
        if rng.random() < 0.1:
            s += " "
        lines.append(s)
    if rng.random() < 0.15:
        lines.append("c end")
    if blanks and rng.random() < 0.5:
        lines.append("")
    return "\n".join(lines) + ("\n" if rng.random() < 0.8 and lines else "")


def g_C04(rng, cid, tier):
    wide = rng.random() < 0.13
    if not wide:
        c, t = start(rng, cid, "C04", 1, 6)
    elif rng.random() < 0.6:
        c, t = start(rng, cid, "C04", 9, 14, wide=True)
    else:
        c, t = start(rng, cid, "C04", 34, 72, wide=True, style=rng.choice(["right", "left", "bal", None]))
    vs = sorted(t.vars)
    far = len(vs) > 30
    fl = rng.choice(FLAGS)
    for _ in range(rng.randint(2, 4)):
        cl = clauses(rng, vs, rng.choice([0, 1, 2, 3, 4, 6, 8])) if not far else \
            [full(rng, rng.sample(vs, rng.choice([1, 1, 2, 2, 3]))) for _ in range(rng.randint(1, 7))]
        if far:
            # assignments that satisfy all clauses but (at most) one
            on = {abs(x): x > 0 for q in cl for x in q[:1]}
            for q in cl[:6]:
                m = dict(on)
                m.update({abs(x): x < 0 for x in q})
                c.probes.append(sorted([v for v in vs if m.get(v, rng.random() < 0.5)]))
        k = rng.random()
        if cl and k < 0.15:
            cl.append(cl[0][:])
        if cl and k < 0.25:
            x = rng.choice(vs)
            cl.insert(rng.randint(0, len(cl)), [x, -x] + cl[0])
        if k > 0.93:
            x = rng.choice(vs)
            cl += [[x], [-x]]
        if k > 0.98:
            cl.append([])
        if rng.random() < 0.5:
            flat = []
            for x in cl:
                flat += x + [0]
            c.cmd("cnf", c.h(), 1, fl, flat)
        else:
            cl = [x for x in cl if x]
            c.cmd("cnffile", c.h(), 1, fl, hexs(cnf_text(rng, vs, cl)))
        if rng.random() < 0.2:
            c.cmd("count", c.hn)
    return c


# ------------------------------------------------------------------ C05
def mul_operand(c, t, fl, kinds=None):
    r = c.rng
    vs = sorted(t.vars)
    k = r.random()
    if k < 0.62:
        h, b = norm_build(c, t, fl, r.choice(["norm", "tie", "ext", "unnorm", "log", "log", "far"]), maxk=r.choice([2, 3, 5]), topp=r.choice([0.2, 0.5, 0.9]),
                          conv=r.random() < 0.15, deep=r.choice([0, 0, 0, 0.3]))
        return h
    if k < 0.75:
        return conv(c, 1, fl, t, mode=2, f=sat_formula(r, vs, r.randint(1, 6)))
    if k < 0.85:
        return cnf(c, 1, fl, vs, r.randint(1, 3))
    if k < 0.92:
        h = c.h()
        c.cmd("true", h, 1, t.pos, fl)
        return h
    x = r.choice(vs)
    lf = [n for n in t.leaves() if n.var == x][0]
    b = Builder(c, 1, t, fl, "norm")
    h0 = b.lit(x * r.choice([1, -1])) if r.random() < 0.5 else b.top(lf)
    h = c.h()
    c.cmd("norm", h, 1, t.pos, h0, fl)
    return h


def twins(rng, cid):
    """products of many pairs of nodes whose indices differ in single bits: neighbours, and nodes 2^8 or 2^16 apart"""
    va, vb = pick_vars(rng, 2, 0.1)
    t = Node(None, Node(va), Node(vb)).number()
    c = Case(cid, "C05", rng, [va, vb], True)
    c.cmd("vtree", 1, t.rpn())
    c.cmd("mgr", 1, 1)
    n = rng.randint(3, 6)

    def tops(k):
        out = []
        for _ in range(k):
            p = rng.randint(1, 999) / 1000 + len(c.lines) * 1e-6
            h = c.h()
            c.cmd("top", h, 1, vb, 0, fmt(p), fmt(1 - p))
            out.append(h)
        return out

    def dec(x, y):
        els = []
        p = rng.randint(1, 9) / 10
        for l, s, w in ((va, x, p), (-va, y, 1 - p)):
            h = c.h()
            c.cmd("lit", h, 1, l, 0)
            els += [h, s, fmt(w)]
        h = c.h()
        c.cmd("dec", h, 1, 0, 2, els)
        return h
    far = rng.choice([65536, 65536, 256])
    low = tops(n)
    c.cmd("burn", 1, far - n)
    high = tops(n)
    j = rng.randrange(n)
    bs = [dec(low[j], high[j]), dec(high[rng.randrange(n)], low[rng.randrange(n)])]
    as_ = [dec(low[i], low[i + 1]) for i in range(n - 1)] + [dec(high[0], low[1])]
    rng.shuffle(as_)
    for a in as_:
        for b in bs:
            x, y = rng.choice([(a, b), (b, a)])
            c.cmd("mul", c.h(), 1, x, y, 3)
    for a in as_[:2]:
        c.cmd("mul", c.h(), 1, bs[0], a, 3)
    c.cmd("snap")
    return c


def g_C05(rng, cid, tier):
    if rng.random() < 0.02:
        return twins(rng, cid)
    wide = rng.random() < 0.08
    c, t = start(rng, cid, "C05", 1, 6) if not wide else start(rng, cid, "C05", 8, 11, wide=True)
    hs = [mul_operand(c, t, rng.choice([0, 0, 1])) for _ in range(rng.randint(2, 4))]
    res = list(hs)
    for _ in range(rng.randint(2, 4)):
        a, b = rng.choice(res), rng.choice(res)
        h = c.h()
        noise(c, [a, b], t, p=0.15)
        c.cmd("mul", h, 1, a, b, rng.choice([0, 3, rng.choice(FLAGS)]))
        if rng.random() < 0.5:
            c.cmd("mul", c.h(), 1, b, a, 3)
        res.append(h)
    # sub-vtree operands
    if rng.random() < 0.3 and not wide:
        n = rng.choice([x for x in t.nodes()])
        b1 = Builder(c, 1, t, 0, "norm")
        p, q = b1.build(n), b1._build(n)
        c.cmd("mul", c.h(), 1, p, q, 4)
    if rng.random() < 0.3:
        ev_queries(c, res[-1], sorted(t.vars), k=4)
    c.cmd("snap")
    return c


# ------------------------------------------------------------------ queries
def some_structure(c, t, normal=True):
    """a structure at t made in one of several ways"""
    r = c.rng
    vs = sorted(t.vars)
    fl = r.choice(FLAGS)
    k = r.random()
    n = len(vs)
    if not normal:
        # weights that do not sum to one: everywhere, or at decision nodes only
        m = r.choice(["unnorm", "dun", "dun"])
        return norm_build(c, t, fl, m, conv=m == "unnorm" and n <= 6, deep=r.choice([0, 0.3]), maxk=r.choice([2, 3, 5]), topp=r.choice([0.2, 0.5, 0.9]))[0]
    if c.prof == "C07" and k < 0.15:
        return norm_build(c, t, fl, "near", maxk=r.choice([2, 3, 4, 6]), topp=r.choice([0.2, 0.5, 0.9]))[0]
    if k < 0.55 or (n > 6 and k < 0.75):
        return norm_build(c, t, fl, r.choice(["norm", "norm", "tie", "ext", "zero", "equal", "log"]), maxk=r.choice([2, 3, 4, 6]),
                          topp=r.choice([0.2, 0.5, 0.9]))[0]
    if k < 0.7:
        a, b = norm_build(c, t, 0, "norm")[0], norm_build(c, t, 0, "norm")[0]
        h = c.h()
        c.cmd("mul", h, 1, a, b, fl)
        return h
    if k < 0.8 and n <= 6:
        a = conv(c, 1, 0, t, mode=2, f=sat_formula(r, vs, r.randint(1, 6)))
        h = c.h()
        rows = ["".join(r.choice("01") for _ in vs) for _ in range(r.randint(0, 6))]
        c.cmd("learn", h, 1, a, fl, fmt(r.choice([1, 0.5, 2])), n, vs, rows)
        return h
    if k < 0.9:
        a, b = norm_build(c, t, 0, "norm")[0], conv(c, 1, 0, t, mode=2, f=sat_formula(r, vs, r.randint(1, 6)))
        h = c.h()
        c.cmd("mul", h, 1, a, b, fl)
        return h
    a = norm_build(c, t, 0, "norm")[0]
    h = c.h()
    c.cmd("load", h, 1, a, t.pos, fl)
    return h


def big_structure(c, t, wmode="norm"):
    """bounded-size sharing structure for wide vtrees"""
    b = Builder(c, 1, t, 0, wmode, share=0.85, maxk=3)
    return b.build(t)


def huge_dec(rng, cid, prof, tier):
    """a decision node with more than 256 elements (rarely: it is slow to check)"""
    n = 9 if tier == "quick" or rng.random() < 0.7 else 10
    vs = pick_vars(rng, n + 1, 0.1)
    t = Node(None, tree(rng, vs[:n], rng.choice(["bal", "right", "rand"])), Node(vs[n])).number()
    c = Case(cid, prof, rng, list(vs), False, probes_for(rng, vs))
    c.cmd("vtree", 1, t.rpn())
    c.cmd("mgr", 1, 1)
    b = Builder(c, 1, t, 0, "norm", share=0.8, rootk=rng.randint(270, 320))
    return c, t, b.build(t), b


UNNP = {"C06": 0.25, "C07": 0.3, "C08": 0.03}
HUGEP = {"C06": 0.002, "C07": 0.008, "C08": 0.003, "C12": 0, "C13": 0.003}


def query_case(rng, cid, prof, tier, ask, wmax=40, nmax=6):
    k = rng.random()
    if rng.random() < HUGEP.get(prof, 0):
        c, t, h, _ = huge_dec(rng, cid, prof, tier)
        ask(c, h, sorted(t.vars), t)
        return c
    if k < 0.12:
        c, t = start(rng, cid, prof, 10, wmax, wide=True)
        h = big_structure(c, t, rng.choice(["norm", "tie", "ext", "log"] + (["dun"] if prof in ("C06", "C07") else [])))
    else:
        c, t = start(rng, cid, prof, 1, nmax)
        h = some_structure(c, t, normal=rng.random() >= UNNP.get(prof, 0.05))
    vs = sorted(t.vars)
    noise(c, [h], t, p=0.25)
    ask(c, h, vs, t)
    if k > 0.8 and len(vs) > 1:
        # a structure on a sub-vtree
        n = rng.choice(t.nodes())
        h2 = norm_build(c, n, 0)[0]
        ask(c, h2, sorted(n.vars), n, extra=[v for v in vs if v not in n.vars])
    if rng.random() < 0.3:
        noise(c, [h], t)
        ask(c, h, vs, t)
    return c


def g_C06(rng, cid, tier):
    return query_case(rng, cid, "C06", tier, lambda c, h, vs, t, extra=(): ev_queries(c, h, vs, extra, k=10))


def g_C07(rng, cid, tier):
    def ask(c, h, vs, t, extra=()):
        c.cmd("mpe", h)
    return query_case(rng, cid, "C07", tier, ask)


def g_C08(rng, cid, tier):
    def ask(c, h, vs, t, extra=()):
        c.cmd("mar", h)
    return query_case(rng, cid, "C08", tier, ask)


def g_C09(rng, cid, tier):
    def ask(c, h, vs, t, extra=()):
        ops = ["count", "cons", "tosdd", "cons"]
        c.rng.shuffle(ops)
        for o in ops[:3]:
            if o == "count":
                c.cmd("count", h)
            elif o == "cons":
                cons_queries(c, h, vs, extra)
            else:
                tosdd(c, h, vs)
    if rng.random() < 0.06:
        # counts beyond 64 bits
        n = rng.randint(65, 140)
        vs = rng.sample(range(1, 300), n)
        c, t = start(rng, cid, "C09", vs=vs, wide=True, style=rng.choice(["bal", "rand", "right"]))
        c.probes = c.probes[:4]
        k = rng.random()
        if k < 0.5:
            h = c.h()
            c.cmd("true", h, 1, -1, 0)
        else:
            h = cnf(c, 1, 0, rng.sample(vs, 6), 3)
        c.cmd("count", h)
        cons_queries(c, h, vs, k=4)
        return c
    return query_case(rng, cid, "C09", tier, ask)


# ------------------------------------------------------------------ C10
def rows_for(r, vs, k):
    base = ["".join(r.choice("01") for _ in vs) for _ in range(max(1, k // 2))]
    return [r.choice(base) if r.random() < 0.6 else "".join(r.choice("01") for _ in vs) for _ in range(k)]


def g_C10(rng, cid, tier):
    c, t = start(rng, cid, "C10", 1, 5)
    vs = sorted(t.vars)
    k = rng.random()
    if k < 0.45:
        h = norm_build(c, t, 0, maxk=rng.choice([2, 3, 5]), topp=0.6)[0]
    elif k < 0.8:
        h = conv(c, 1, 0, t, mode=2, f=sat_formula(rng, vs, rng.randint(1, 7)))
    else:
        h = some_structure(c, t)
    vo = vs[:]
    for _ in range(rng.randint(2, 3)):
        rng.shuffle(vo)
        noise(c, [h], t, p=0.25)
        n = rng.choice([0, 1, 2, 5, 12, 12, 40, 70])
        a = rng.choice(["d1", "d1", "d0.5", "d2", "d0.01", "d1e-06", "d100", "l-3"])
        rows = rows_for(rng, vo, n)
        if rng.random() < 0.08:
            # counts around the limits of small integers
            for i in range(rng.randint(1, 3)):
                x = rng.choice(rows) if rows and rng.random() < 0.7 else "".join(rng.choice("01") for _ in vo)
                rows.append("%d*%s" % (rng.choice([127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 70000]), x))
        c.cmd("learn", c.h(), 1, h, rng.choice(FLAGS), a, len(vo), vo, rows)
    if rng.random() < 0.4:
        last = c.hn
        c.cmd("learn", c.h(), 1, last, rng.choice([1, 0]), "d1", len(vo), vo, rows_for(rng, vo, 5))
    if rng.random() < 0.2:
        n = rng.choice(t.nodes())
        h2 = norm_build(c, n, 0)[0]
        c.cmd("learn", c.h(), 1, h2, 1, "d1", len(vo), vo, rows_for(rng, vo, 8))
    if rng.random() < 0.3:
        c.cmd("snap")
    return c


# ------------------------------------------------------------------ C11
def sidon(rng, n):
    import math
    p = 127
    marks = [2 * p * i + (i * i) % p for i in range(p)]
    s = rng.uniform(0.0005, 0.002)
    ms = rng.sample(marks, min(p, n))
    return ["%.17g" % math.exp(s * m - rng.uniform(0, 3) * 0) for m in ms]


def g_C11(rng, cid, tier):
    c, t = start(rng, cid, "C11", 1, 5)
    vs = sorted(t.vars)
    b = Builder(c, 1, t, 0, "norm", share=rng.choice([0.4, 0.7]), maxk=3)
    for _ in range(rng.randint(1, 2)):
        multi = rng.random() < 0.6
        if multi:
            ns = [rng.choice(t.nodes()) for _ in range(rng.randint(1, 3))]
            roots = []
            for n in ns:
                roots.append(b.build(n))
            if rng.random() < 0.4:   # nested: nodes used inside others
                roots += rng.sample([h for h, nm, _ in b.log], min(2, len(b.log)))
            if rng.random() < 0.3 and roots:
                roots.append(rng.choice(roots))
            rng.shuffle(roots)
        else:
            roots = [b.build(t) if rng.random() < 0.6 else conv(c, 1, 0, t, mode=2, f=sat_formula(rng, vs, 4))]
        hs = []
        for h in roots:
            hs += [h, c.h()]
        noise(c, [h for h in roots[:1]], t, p=0.2)
        c.cmd("samp" if multi else "samp1", 1, rng.choice(FLAGS), len(roots), hs, sidon(rng, 120))
    c.cmd("snap")
    return c


# ------------------------------------------------------------------ C12
def g_C12(rng, cid, tier):
    k = rng.random()
    if k < 0.6:
        G, hi = rng.choice([(2, 4), (3, 3), (4, 3), (4, 2), (5, 2), (6, 2)])
        c, t = start(rng, cid, "C12", 1, hi)
        b = Builder(c, 1, t, 0, "grid%d" % G, share=0.4, maxk=min(3, G), topp=0.6 if G > 2 else 0.4)
        h = b.build(t)
        mn, mx = rng.choice([(0, 1), (0, 1), (-1, 1), (0, 7), (2, 3), (-5, -4), (0, 0.5)])
        noise(c, [h], t, p=0.2)
        c.cmd("dsgrid", h, mn, mx, G, 7)
        return c
    if k < 0.92:
        c, t = start(rng, cid, "C12", 1, 6)
        vs = sorted(t.vars)
        n = t if rng.random() < 0.8 else rng.choice(t.nodes())
        zero = rng.random() < 0.3
        h = norm_build(c, n, 0, "zero", maxk=3, topp=0.7)[0] if zero else some_structure(c, t) if n is t else norm_build(c, n)[0]
        out = [v for v in vs if v not in n.vars]
        for _ in range(6):
            # a power of two, so that scaling a draw to the range and back is exact
            mn, mx = rng.choice([(0, 1), (0, 8), (0, 0.25), (0, 1024)])
            pre = [v for v in out if rng.random() < 0.5]
            if rng.random() < 0.25:
                pre += [v for v in sorted(n.vars) if rng.random() < 0.4]
            noise(c, [h], n, p=0.1)
            ds = [rng.choice(["0", "0" if zero else "0.25", "%.17g" % rng.random(), "%.17g" % (1 - 10.0 ** -rng.randint(1, 16)), "%.17g" % 10.0 ** -rng.randint(1, 30),
                              "0.5", "0.99999999999999989", "%.17g" % rng.random()]) for _ in range(rng.randint(1, 8))]
            c.cmd("ds", h, mn, mx, pre, "/", ds)
        return c
    c, t = start(rng, cid, "C12", 1, 3)
    h = norm_build(c, t, 0, rng.choice(["norm", "tie"]), topp=0.7)[0]
    mn, mx = rng.choice([(0, 1), (-1, 1), (0, 7), (2, 3)])
    c.cmd("dsrng", h, mn, mx, rng.randint(1, 99999), 4000)
    return c


# ------------------------------------------------------------------ C13
def g_C13(rng, cid, tier):
    wide = rng.random() < 0.1
    if rng.random() < 0.006:
        c, t, h, b = huge_dec(rng, cid, "C13", tier)
        c.cmd("write", 1, h)
        c.cmd("read", c.h(), 1, 1, rng.choice([0, 1]))
        return c
    c, t = start(rng, cid, "C13", 1, 5) if not wide else start(rng, cid, "C13", 10, 25, wide=True)
    vs = sorted(t.vars)
    fl = rng.choice(FLAGS)
    k = rng.random()
    if wide:
        h = big_structure(c, t)
    elif k < 0.3:
        h = norm_build(c, t, fl, "zero")[0]
    elif k < 0.5:
        h = norm_build(c, t, fl, rng.choice(["unnorm", "ext"]), conv=True, deep=0.2)[0]
    else:
        h = some_structure(c, t)
    c.cmd("mgr", 2, 1)
    noise(c, [h], t, p=0.25)
    c.cmd("write", 1, h)
    f1 = rng.choice(FLAGS)
    a = c.h()
    c.cmd("read", a, 2, 1, f1)
    c.cmd("write", 2, a)
    c.cmd("read", c.h(), 2, 2, f1)
    b = c.h()
    c.cmd("read", b, 1, 1, f1)
    if rng.random() < 0.5:
        c.cmd("write", 3, b)
        c.cmd("read", c.h(), 1, 3, f1)
        c.cmd("read", c.h(), 2, 3, f1)
    if rng.random() < 0.4:
        n = rng.choice(t.nodes())
        h2 = norm_build(c, n, 0)[0]
        c.cmd("write", 4, h2)
        c.cmd("read", c.h(), 2, 4, f1)
    if rng.random() < 0.3:
        ev_queries(c, a, vs, k=4)
    if rng.random() < 0.3:
        # the same slot again
        h3 = norm_build(c, t, fl)[0]
        c.cmd("write", 1, h3)
        c.cmd("read", c.h(), 2, 1, f1)
    return c


# ------------------------------------------------------------------ C15
def extend(rng, t, new, inside=True):
    """a vtree over the leaves of t and the variables of new whose projection is t.
    The structure must stay on one node per node of t: new variables go outside (above)
    or, with inside, between."""
    return t


def grow(rng, t, new):
    """wrap t with new variables above it; returns (tree, node that is t)"""
    def copy(n):
        if n.leaf:
            return Node(n.var)
        return Node(None, copy(n.l), copy(n.r))
    core = copy(t)
    top = core
    new = list(new)
    while new:
        k = rng.randint(1, len(new))
        part, new = new[:k], new[k:]
        side = tree(rng, part)
        top = Node(None, top, side) if rng.random() < 0.5 else Node(None, side, top)
    top.number()
    return top, core


def g_C15(rng, cid, tier):
    n = rng.randint(1, 5)
    extra = rng.randint(0, 2)
    vs = pick_vars(rng, n + extra)
    old, new = vs[:n], vs[n:]
    c = Case(cid, "C15", rng, vs, True)
    t = tree(rng, old)
    c.cmd("vtree", 1, t.rpn())
    c.cmd("mgr", 1, 1)
    t2, core = grow(rng, t, new)
    c.cmd("vtree", 2, t2.rpn())
    c.cmd("mgr", 2, 2)
    parts = []
    if rng.random() < 0.4:
        h, b = norm_build(c, t, rng.choice(FLAGS))
        parts = [x for x, _, _ in b.log]
    else:
        h = some_structure(c, t, normal=rng.random() < 0.7)
    fl = rng.choice(FLAGS)
    a = c.h()
    noise(c, [h], t)
    c.cmd("load", a, 2, h, -1, fl)
    noise(c, [h], t, p=0.2)
    c.cmd("load", c.h(), 2, h, -1, fl)
    if rng.random() < 0.5:
        c.cmd("load", c.h(), 2, h, core.pos, fl)
    if rng.random() < 0.5:
        h2 = some_structure(c, t)
        c.cmd("load", c.h(), 2, h2, -1, rng.choice([fl, 1]))
    c.cmd("load", c.h(), 1, h, -1, rng.choice([fl, 5]))
    if rng.random() < 0.35:   # within one manager, into the flag of the root
        f3 = rng.choice(FLAGS)
        h4 = norm_build(c, t, f3, fmix=rng.choice([0, 0.3, 0.6]))[0]
        c.cmd("load", c.h(), 1, h4, rng.choice([-1, t.pos]), f3)
    if rng.random() < 0.4:
        sub = rng.choice(t.nodes())
        h3 = norm_build(c, sub, 0)[0]
        c.cmd("load", c.h(), 2, h3, -1, fl)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        # collected in between: the same structure again, then its parts
        c.cmd("gc", 2, [a] if rng.random() < 0.3 else [])
        again = [h, rng.choice(parts)] if parts and rng.random() < 0.6 else [h]
        if rng.random() < 0.5:
            again.reverse()
        for x in again + [rng.choice(again)]:
            a2 = c.h()
            c.cmd("load", a2, 2, x, -1, fl)
            if x == h:
                a = a2
    c.cmd("snap")
    if rng.random() < 0.5:
        c.cmd("mgrfree", 1)
        c.cmd("snap")
        ev_queries(c, a, sorted(vs), k=4)
        c.cmd("count", a)
        c.cmd("mpe", a)
    elif rng.random() < 0.5:
        c.cmd("gc", 1)
        c.cmd("load", c.h(), 1, a, -1, fl) if not new else c.cmd("snap")
    return c


# ------------------------------------------------------------------ C16
def g_C16(rng, cid, tier):
    if rng.random() < 0.006:
        c, t, h, b = huge_dec(rng, cid, "C16", tier)
        c.cmd("ser", h)
        c.cmd("size", h)
        c.cmd("ser", [rng.choice(b.log)[0], h])
        return c
    wide = rng.random() < 0.15
    c, t = start(rng, cid, "C16", 1, 6) if not wide else start(rng, cid, "C16", 12, 40, wide=True)
    b = Builder(c, 1, t, 0, "norm", share=rng.choice([0.3, 0.6, 0.85]), maxk=3, topp=0.6)
    roots = [b.build(t)]
    if not wide:
        roots += [b.build(rng.choice(t.nodes())) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.3:
            roots.append(some_structure(c, t))
    noise(c, roots[:1], t, p=0.25)
    for h in roots:
        c.cmd("ser", h)
        c.cmd("size", h)
    inner = [h for h, _, _ in b.log]
    for _ in range(3):
        rs = rng.sample(inner, min(len(inner), rng.randint(1, 3))) + rng.sample(roots, rng.randint(0, len(roots)))
        rng.shuffle(rs)
        if rng.random() < 0.2:
            rs.append(rs[0])
        c.cmd("ser", rs)
    if rng.random() < 0.5:
        c.cmd("act", roots[0], [v for v in t.vars if rng.random() < 0.5])
        c.cmd("ser", roots[0])
    return c


# ------------------------------------------------------------------ C17
def g_C17(rng, cid, tier):
    c, t = start(rng, cid, "C17", 2, 5)
    vs = sorted(t.vars)
    second = rng.random() < 0.6
    if second:
        t2, core = grow(rng, t, []) if True else (t, t)
        c.cmd("mgr", 2, 1)
    if rng.random() < 0.3:
        perm = vs[:]
        rng.shuffle(perm)
        c.cmd("mgrmap", 3, 1, len(vs), [y for a, b in zip(vs, perm) for y in (a, b)])
    hs = [norm_build(c, t, rng.choice([0, 1]), rng.choice(["norm", "tie"]))[0] for _ in range(2)]
    hs.append(conv(c, 1, 0, t, mode=2, f=sat_formula(rng, vs, 4)))
    asked = []

    def ask(h, k):
        if k == 0:
            c.cmd("mpe", h)
        elif k == 1:
            c.cmd("mar", h)
        elif k == 2:
            c.cmd("count", h)
        elif k == 3:
            c.cmd("size", h)
        elif k == 4:
            q = []
            for f in qs:
                q += f + ["/"]
            c.cmd("evals", h, q)
        else:
            q = []
            for f in qs:
                q += f + ["/"]
            c.cmd("cons", h, q)
    qs = [lits(rng, vs) for _ in range(3)] + [full(rng, vs) for _ in range(3)]
    for h in hs:
        for k in rng.sample(range(6), 3):
            ask(h, k)
            asked.append((h, k))
    muls = []
    for _ in range(rng.randint(3, 7)):
        k = rng.randrange(11)
        h = rng.choice(hs)
        fl = rng.choice([0, 1, 2, 9])
        if k == 0:
            a, b = rng.choice(hs), rng.choice(hs)
            x = c.h()
            c.cmd("mul", x, 1, a, b, fl)
            muls.append((a, b, fl))
            if rng.random() < 0.5:
                hs.append(x)
        elif k == 1:
            c.cmd("learn", c.h(), 1, h, fl, "d1", len(vs), vs, rows_for(rng, vs, 6))
        elif k == 2:
            c.cmd("samp1", 1, fl, 1, h, c.h(), sidon(rng, 120))
        elif k == 3:
            c.cmd("write", 1, h)
            c.cmd("read", c.h(), 1, 1, fl)
        elif k == 4 and second:
            c.cmd("load", c.h(), 2, h, -1, fl)
        elif k == 5:
            c.cmd("act", h, [v for v in vs if rng.random() < 0.5])
        elif k == 6:
            c.cmd("ds", h, 0, 1, "/", [rng.random() for _ in range(4)])
        elif k == 7:
            tosdd(c, h, vs)
        elif k == 8:
            c.cmd("gc", 1, hs)
        elif k == 9:
            x = rng.randrange(3)
            if x == 0:
                conv(c, 1, fl, t, mode=rng.choice([1, 2]))
            elif x == 1:
                n = rng.choice(t.nodes())
                c.cmd("norm", c.h(), 1, t.pos, norm_build(c, n, rng.choice([0, 4]))[0], fl)
            else:
                c.cmd("true", c.h(), 1, rng.choice(t.nodes()).pos, fl)
        else:
            cnf(c, 1, fl, vs)
        if asked and rng.random() < 0.6:
            ask(*rng.choice(asked))
        if rng.random() < 0.3:
            c.cmd("snap")
    for a, b, fl in muls[:2]:
        c.cmd("mul", c.h(), 1, a, b, fl)
    for h, k in asked:
        ask(h, k)
    c.cmd("snap")
    if rng.random() < 0.15:
        repeats(c, t, rng.choice([0, 1]))
    return c


# ------------------------------------------------------------------ C18
def g_C18(rng, cid, tier):
    c = Case(cid, "C18", rng, [1], True)
    n = rng.randint(3, 6)

    def tok():
        k = rng.random()
        if k < 0.2:
            return "d" + rng.choice(["0", "1", "0.5", "2", "0.25", "4", "0.75", "3"])
        if k < 0.5:
            return fmt(rng.uniform(0, 3))
        if k < 0.65:
            return fmt(10.0 ** rng.randint(-300, 300))
        if k < 0.8:
            return "l%.17g" % rng.uniform(-40, 40)
        if k < 0.9:
            return "l%.17g" % rng.choice([0, -1, 1, -700, 700, -1e5, 1e5, -745, -1e-7, 1e-7, -1e-3])
        return fmt(1 + rng.choice([-1, 1]) * 10.0 ** -rng.randint(3, 12))
    nz = set()
    for i in range(1, n + 1):
        if rng.random() < 0.15:
            c.cmd("pzero", i)
        else:
            x = tok()
            c.cmd("pset", i, x)
            if x != "d0":
                nz.add(i)
    for _ in range(rng.randint(4, 14)):
        d, a, b = (rng.randint(1, n) for _ in range(3))
        op = rng.choice(["padd", "pmul", "pdiv"])
        if op == "pdiv" and b not in nz:
            op = "padd"
        inpl = rng.random() < 0.5
        c.cmd(op + ("i" if inpl else ""), d, a, b)
        if inpl and rng.random() < 0.5:
            d2 = rng.randint(1, n)
            # the binary form of the same
            d2 = n + rng.randint(1, 3)
        za, zb = a in nz, b in nz
        r = (za or zb) if op == "padd" else (za and zb) if op == "pmul" else za
        (nz.add if r else nz.discard)(d)
        if rng.random() < 0.25:
            # recompute to another register the other way: equal values behave equally
            x = n + rng.randint(1, 3)
            if a != d and b != d:
                c.cmd(op + ("" if inpl else "i"), x, a, b)
                if op != "pdiv" and rng.random() < 0.5:
                    c.cmd(op, x, b, a)
    return c


# ------------------------------------------------------------------ C19
def csv_text(rng, cols, rows, plain=False):
    nl = rng.choice(["\n", "\n", "\r\n"])
    out = []
    for _ in range(rows):
        fs = []
        for _ in range(cols):
            k = rng.random()
            if k < 0.45:
                f = rng.choice("01")
            elif k < 0.6:
                f = rng.choice(["00", "10", "01", "-1", "+3", "2", " 1", "000", "007", "0000000000000001", "0" * 40 + "1", "12345"])
            elif k < 0.7:
                f = rng.choice(["", "x", "a1", "1a", "0x1", "-", "-0", "0.9", ".5", "1e3"])
            else:
                f = rng.choice("01")
            if not plain and rng.random() < 0.12:
                f = '"' + f.replace('"', '""') + '"'
            elif not plain and rng.random() < 0.03:
                f = '"' + rng.choice(['1,0', '0,1', '1""2', '""', '1\n0', '0\n1', ',', '1""']) + '"'
            fs.append(f)
        if cols == 1 and fs[0] == "":
            fs[0] = "0"
        if fs[0] == "" and rng.random() < 0.5:
            fs[0] = "0"
        out.append(",".join(fs))
    s = nl.join(out)
    if out and rng.random() < 0.7:
        s += nl
    return s


def json_doc(rng):
    vs = rng.choice([0, 1, 3, 5, 8, 200, 300, rng.choice([40000, 65535])])
    hv, hd = rng.random() < 0.93, rng.random() < 0.93
    ex = []
    for _ in range(rng.randint(0, 6)):
        k = rng.random()
        if k < 0.06:
            ex.append(({"a": 0, "e": []}, rng.choice(["3", '"x"', "null", "{}", "true"])))
            continue
        es, js = [], []
        for _ in range(rng.randint(0, 4)):
            q = rng.random()
            if q < 0.85 and vs:
                v = rng.choice([rng.randint(1, vs), rng.randint(1, vs), vs])
                es.append({"n": 1, "v": v})
                js.append(str(v))
            elif q < 0.92:
                v = rng.choice([vs + 1, vs + 5])
                es.append({"n": 1, "v": v})
                js.append(str(v))
            elif q < 0.95:
                v = rng.choice([-1, -5])
                es.append({"n": 1, "v": v})
                js.append(str(v))
            else:
                es.append({"n": 0, "v": 0})
                js.append(rng.choice(['"1"', "null", "[1]", "true", "{}"]))
        ex.append(({"a": 1, "e": es}, "[" + rng.choice([", ", ","]).join(js) + "]"))
    parts = []
    if hv:
        parts.append('"variable_size": %d' % vs)
    if hd:
        parts.append('"data": [%s]' % ", ".join(j for _, j in ex))
    rng.shuffle(parts)
    import json as J
    doc = {"hv": int(hv), "vs": vs, "hd": int(hd), "ex": [d for d, _ in ex]}
    return "{" + ", ".join(parts) + "}", J.dumps(doc, separators=(",", ":"))


def g_C19(rng, cid, tier):
    c = Case(cid, "C19", rng, [1], True)
    k = rng.random()
    if rng.random() < 0.015:   # many equal records, in runs or mixed with others
        cols = rng.choice([1, 2, 3])
        rows = []
        for _ in range(rng.randint(1, 3)):
            rows += [",".join(rng.choice("01") for _ in range(cols))] * rng.choice([255, 256, 257, 258, 300, 515])
        if rng.random() < 0.3:
            rng.shuffle(rows)
        c.cmd("dnew", 1)
        c.cmd("csv", 1, hexs("\n".join(rows) + "\n"))
        c.cmd("csvw", 1, 1)
        c.cmd("csvr", 1, 1)
        return c
    if k < 0.25:
        for _ in range(2):
            t, d = json_doc(rng)
            c.cmd("json", 1, hexs(t), hexs(d))
        return c
    if k < 0.5:
        for _ in range(3):
            cols = rng.choice([1, 2, 3, 5, 12, 70])
            dl = rng.choice([",", ",", ";", "\t", "|"])
            t = csv_text(rng, cols, rng.randint(1, 6))
            if rng.random() < 0.3:   # long fields and lines
                t = ",".join(rng.choice(["x" * rng.randint(1, 300), '"' + "y," * rng.randint(1, 120) + '"', "1"]) for _ in range(rng.randint(1, 40))) + "\n" + t
            if dl != ",":
                t = t.replace(",", dl)
            c.cmd("csvp", rng.choice([0, 1]), hexs(dl), rng.choice([0, 0, 1]), hexs(t))
        return c
    c.cmd("dnew", 1)
    if rng.random() < 0.3:
        c.cmd("dvar", 1, rng.choice([1, 3, 8]))
        for _ in range(rng.randint(1, 4)):
            c.cmd("dadd", 1, sorted(rng.sample(range(1, 9), rng.randint(0, 4))))
    for _ in range(rng.randint(1, 3)):
        cols = rng.choice([1, 2, 3, 4, 7, 20, 64, 130])
        c.cmd("csv", 1, hexs(csv_text(rng, cols, rng.choice([1, 2, 4, 8, 20]), rng.random() < 0.6)))
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                c.cmd("dadd", 1, sorted(rng.sample(range(1, cols + 1), rng.randint(0, min(cols, 4)))))
        if rng.random() < 0.7:
            c.cmd("csvw", 1, 1)
            if rng.random() < 0.5:
                c.cmd("dnew", 2)
                c.cmd("csvr", 2, 1)
                c.cmd("csvw", 2, 2)
            else:
                c.cmd("csvr", 1, 1)
    return c


# ------------------------------------------------------------------ networks
def random_net(rng, nv, nf=None, scopes=None, zeros=0.0, maxs=3, cover=True, maker=None):
    if scopes is None:
        nf = nf or rng.randint(1, nv + 2)
        scopes = []
        for _ in range(nf):
            k = rng.randint(1, min(maxs, nv))
            scopes.append(rng.sample(range(nv), k))
        if cover:
            have = {x for s in scopes for x in s}
            for x in range(nv):
                if x not in have:
                    scopes.append([x])
        rng.shuffle(scopes)
    tabs = []
    for s in scopes:
        n = 1 << len(s)
        t = [0 if rng.random() < zeros else rng.choice([rng.uniform(0.01, 3), rng.choice([1, 2, 0.5, 0.25]), 10.0 ** rng.randint(-6, 4)]) for _ in range(n)]
        if not any(t):
            t[rng.randrange(n)] = 1.0
        tabs.append(t)
    return scopes, tabs


def num_text(rng, x):
    if x == 0:
        return rng.choice(["0", "0.0", "0.000", "0e0"])
    k = rng.random()
    if k < 0.4:
        return "%.17g" % x
    if k < 0.6:
        return "%.6g" % x
    if k < 0.8:
        return "%e" % x
    return repr(float(x))


def uai_text(rng, nv, scopes, tabs, plain=False):
    out = [rng.choice(["MARKOV", "BAYES"]), str(nv), " ".join(["2"] * nv), str(len(scopes))]
    for s in scopes:
        out.append(" ".join([str(len(s))] + [str(x) for x in s]))
    blank = (not plain) and rng.random() < 0.6
    empty = lambda: "" if plain or rng.random() < 0.8 else rng.choice([" ", "\t", "   "])
    if rng.random() < 0.7:
        out += [empty() for _ in range(1 if plain else rng.choice([1, 1, 2, 3]))]
    for i, t in enumerate(tabs):
        toks = [num_text(rng, x) for x in t]
        style = rng.random() if not plain else 0
        if style < 0.3:
            out.append(str(len(t)))
            out.append(" ".join(toks))
        elif style < 0.45:
            out.append(str(len(t)))
            j = 0
            while j < len(toks):
                k = rng.randint(1, 4)
                out.append(" ".join(toks[j:j + k]))
                j += k
        elif style < 0.7:
            out.append(str(len(t)) + " " + " ".join(toks))
        else:
            out.append(str(len(t)))
            out += [" " * rng.randint(0, 2) + x for x in toks]
        if blank and rng.random() < 0.6:
            out += [empty() for _ in range(rng.choice([1, 1, 2, 3]))]
    nl = "\r\n" if not plain and rng.random() < 0.15 else "\n"
    return nl.join(out) + (nl if rng.random() < 0.9 else "")


def g_C20(rng, cid, tier):
    c = Case(cid, "C20", rng, [1], True)
    for i in range(2):
        nv = rng.choice([1, 2, 3, 5, 9, 30, 120])
        sc, tb = random_net(rng, nv, nf=rng.randint(1, 8), zeros=0.15, maxs=rng.choice([2, 3, 5, 7]), cover=False)
        c.cmd("uai", i + 1, hexs(uai_text(rng, nv, sc, tb)))
    return c


def suitable(t, s):
    """python twin of Formats!Suitable, only to choose inputs"""
    leaves = {n.var: n for n in t.leaves()}
    for x in s:
        later = {y for y in s if leaves[y].pos > leaves[x].pos}
        if not later:
            continue
        ok = any((not p.leaf) and x in p.l.vars and later <= p.r.vars for p in t.nodes())
        if not ok:
            return False
    return True


def sat_net(rng, t, vs):
    """scopes that t can place, and tables"""
    nv = len(vs)
    pool = []
    for _ in range(60):
        k = rng.randint(1, min(4, nv))
        s = rng.sample(vs, k)
        if suitable(t, s):
            pool.append(s)
    pool = pool or [[vs[0]]]
    sc = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.7:
        have = {x for s in sc for x in s}
        sc += [[x] for x in vs if x not in have]
    rng.shuffle(sc)
    return sc, sat_tabs(rng, vs, sc)


def sat_tabs(rng, vs, sc):
    """tables of a satisfiable network: one assignment never gets a zero"""
    w = {x: rng.randint(0, 1) for x in vs}
    zeros = rng.choice([0, 0.2, 0.5])
    tabs = []
    for s in sc:
        idx = 0
        for x in s:
            idx = 2 * idx + w[x]
        tab = [0 if rng.random() < zeros else rng.choice([1, rng.uniform(0.01, 3), rng.uniform(0.01, 3), 10.0 ** rng.randint(-6, 4), 1]) for _ in range(1 << len(s))]
        if tab[idx] == 0:
            tab[idx] = rng.uniform(0.1, 2)
        tabs.append(tab)
    return tabs


def wide_factor(rng, cid, tier):
    """one factor over nine or ten variables, some small ones, on a suitable vtree"""
    nv = rng.choice([9, 9, 10] if tier != "quick" else [9])
    vs = list(range(1, nv + 1))
    rng.shuffle(vs)
    t = tree(rng, vs, "right")
    sc = [rng.sample(vs, nv)] + [rng.sample(vs, rng.randint(1, 2)) for _ in range(rng.randint(0, 2))]
    rng.shuffle(sc)
    c = Case(cid, "C21", rng, vs, True)
    c.cmd("pgm", 1, hexs(uai_text(rng, nv, [[x - 1 for x in s] for s in sc], sat_tabs(rng, vs, sc), True)))
    c.cmd("pgmv", 1, 1, t.rpn())
    c.cmd("pgmf", c.h(), 1, 1, max(range(len(sc)), key=lambda i: len(sc[i])))
    if rng.random() < 0.5:
        c.cmd("pgmn", c.h(), 1, 1, rng.randint(0, 2), rng.choice([1, 2, 100]))
    return c


def g_C21(rng, cid, tier):
    if rng.random() < 0.006:
        return wide_factor(rng, cid, tier)
    nv = rng.randint(1, 5)
    vs = list(range(1, nv + 1))
    rng.shuffle(vs)
    t = tree(rng, vs, rng.choice(["right", "right", "rand", "rand", "bal", "left"]))
    if rng.random() < 0.3:   # on a vtree the compiler makes itself
        sc0, _ = random_net(rng, nv, maxs=min(4, nv), cover=rng.random() < 0.7)
        sc = [[x + 1 for x in s] for s in sc0]
        tabs = sat_tabs(rng, vs, sc)
        mode = rng.choice([4, 1, 2])
    else:
        sc, tabs = sat_net(rng, t, vs)
        mode = 0
    c = Case(cid, "C21", rng, vs, True)
    c.cmd("pgm", 1, hexs(uai_text(rng, nv, [[x - 1 for x in s] for s in sc], tabs, True)))
    if mode:
        c.cmd("pgmm", 1, 1, mode, net_env(rng, mode, nv, sc))
    else:
        c.cmd("pgmv", 1, 1, t.rpn())
    for i in rng.sample(range(len(sc)), min(3, len(sc))):
        c.cmd("pgmf", c.h(), 1, 1, i)
    order = [0, 1, 2]
    rng.shuffle(order)
    for st in order[:rng.randint(1, 3)]:
        c.cmd("pgmn", c.h(), 1, 1, st, rng.choice([1, 2, 3, 100]))
    if rng.random() < 0.3:
        for i in rng.sample(range(len(sc)), 1):
            c.cmd("pgmf", c.h(), 1, 1, i)
    return c


def decomposition(rng, nv, scopes):
    """a valid tree decomposition of the primal graph: from an elimination order, then perturbed"""
    adj = {v: set() for v in range(1, nv + 1)}
    for s in scopes:
        for a in s:
            for b in s:
                if a != b:
                    adj[a].add(b)
    order = list(adj)
    rng.shuffle(order)
    if rng.random() < 0.4:   # hubs last: bags with many children
        order.sort(key=lambda v: len(adj[v]))
    bags = []
    pos = {v: i for i, v in enumerate(order)}
    g = {v: set(x) for v, x in adj.items()}
    for v in order:
        nb = set(g[v])
        for a in nb:
            g[a] |= nb - {a}
            g[a].discard(v)
        bags.append([v] + sorted(nb))
        del g[v]
    par = []
    for i, b in enumerate(bags):
        later = [pos[x] for x in b[1:]]
        par.append(min(later) if later else (i + 1 if i + 1 < len(bags) else None))
    # present them root first, sometimes with a repeated or merged bag
    idx = list(range(len(bags)))[::-1]
    if rng.random() < 0.7:
        # random numbering that keeps nothing in particular
        rng.shuffle(idx)
    num = {b: i + 1 for i, b in enumerate(idx)}
    out = []
    for b in idx:
        content = bags[b][:]
        rng.shuffle(content)
        out += [num[par[b]] if par[b] is not None else 0, len(content)] + content
    return out


def net_env(rng, mode, nv, scopes1):
    if mode == 4:
        o = list(range(1, nv + 1))
        rng.shuffle(o)
        return o
    if mode == 2:
        return decomposition(rng, nv, scopes1)
    return [rng.randint(0, 1) for _ in range(40 * nv)]


def g_C22(rng, cid, tier):
    nv = rng.randint(1, 6) if rng.random() < 0.8 else rng.randint(6, 14)
    k = rng.random()
    scopes = None
    if k < 0.15 and nv > 2:    # a hub
        scopes = [[0, x] if rng.random() < 0.5 else [x, 0] for x in range(1, nv)] + [[0]] * rng.randint(0, 1)
    elif k < 0.25 and nv > 2:  # a chain or a cycle
        scopes = [[x, x + 1] for x in range(nv - 1)] + ([[nv - 1, 0]] if rng.random() < 0.5 else [])
    if scopes:
        ren = list(range(nv))
        rng.shuffle(ren)
        scopes = [[ren[x] for x in s] for s in scopes]
        rng.shuffle(scopes)
    sc, tb = random_net(rng, nv, nf=rng.randint(1, nv + 3), scopes=scopes, maxs=rng.choice([2, 3, 4]), cover=rng.random() < 0.7)
    c = Case(cid, "C22", rng, list(range(1, nv + 1)), False, [[]])
    text = hexs(uai_text(rng, nv, sc, tb, True))
    c.cmd("uai", 1, text)
    s1 = [[x + 1 for x in s] for s in sc]
    for i in range(rng.randint(1, 3)):
        mode = rng.choice([4, 1, 2])
        c.cmd("vgen", i + 1, 1, mode, net_env(rng, mode, nv, s1))
    if rng.random() < 0.6:
        mode = rng.choice([4, 1, 2])
        c.cmd("pgm", 1, text)
        c.cmd("pgmm", 1, 1, mode, net_env(rng, mode, nv, s1))
        if nv <= 5:
            for i in rng.sample(range(len(sc)), min(2, len(sc))):
                c.cmd("pgmf", c.h(), 1, 1, i)
    return c


# ------------------------------------------------------------------ C24
def g_C24(rng, cid, tier):
    n = rng.choice([1, 2, 3, 4, 6, 9, 20])
    vs = pick_vars(rng, n, 0.25)
    t = tree(rng, vs)
    c = Case(cid, "C24", rng, vs, False, [[]])
    c.cmd("vtree", 1, t.rpn())
    nxt = 2
    cur = [(1, t)]
    for _ in range(rng.randint(3, 8)):
        v, tt = rng.choice(cur)
        ws = sorted(tt.vars)
        k = rng.randrange(8)
        if k == 0:
            c.cmd("vcopy", nxt, v)
            cur.append((nxt, tt))
            nxt += 1
        elif k == 1:
            q = rng.random()
            if q < 0.5:
                im = ws[:]
                rng.shuffle(im)
            else:
                im = rng.sample(range(1, 65536), len(ws))
            m = dict(zip(ws, im))
            items = list(m.items())
            rng.shuffle(items)
            extra = [(99999, 3)] if False else []
            c.cmd("vmap", nxt, v, [y for a, b in items + extra for y in (a, b)])
            cur.append((nxt, tt.map(lambda x: m[x]).number()))
            nxt += 1
        elif k == 2:
            s = rng.sample(ws, rng.randint(1, len(ws)))
            c.cmd("vproj", nxt, v, s)
            cur.append((nxt, tt.proj(set(s)).number()))
            nxt += 1
        elif k == 3:
            x = rng.choice(tt.nodes())
            s = sorted(x.vars)
            q = rng.random()
            if q < 0.25 and len(s) > 1:
                s.remove(rng.choice(s))
            elif q < 0.45:
                s = sorted(set(s) | {rng.choice(ws)})
            elif q < 0.55:
                s = rng.sample(ws, rng.randint(1, len(ws)))
            elif q < 0.65:
                s = s + [rng.choice([x for x in range(1, 60) if x not in ws])]
            rng.shuffle(s)
            c.cmd("vsub", v, s)
        elif k == 4 or k == 5:
            c.cmd("vvars", v, rng.choice([-1, rng.choice(tt.nodes()).pos]))
        elif k == 6:
            c.cmd("mgr", nxt, v)
            nxt += 1
        else:
            im = rng.sample(range(1, 65536), len(ws)) if rng.random() < 0.5 else rng.sample(ws, len(ws))
            c.cmd("mgrmap", nxt, v, len(ws), [y for a, b in zip(ws, im) for y in (a, b)])
            nxt += 1
    c.cmd("snap")
    return c


# ------------------------------------------------------------------ C23
def g_C23(rng, cid, tier):
    if rng.random() < 0.3:
        nv = rng.randint(1, 5)
        if rng.random() < 0.5:
            vs = list(range(1, nv + 1))
            rng.shuffle(vs)
            t = tree(rng, vs, rng.choice(["right", "rand", "bal"]))
            sc, tabs = sat_net(rng, t, vs)
            method, rpn, env = 0, t.rpn(), []
        else:
            t = None
            scopes, _ = random_net(rng, nv, maxs=min(3, nv), cover=rng.random() < 0.7)
            sc = [[x + 1 for x in s] for s in scopes]
            vs = list(range(1, nv + 1))
            tabs = sat_tabs(rng, vs, sc)
            method = rng.choice([1, 2, 4])
            rpn, env = [], net_env(rng, method, nv, sc)
        c = Case(cid, "C23", rng, vs, True)
        c.cmd("cliuai", hexs(uai_text(rng, nv, [[x - 1 for x in s] for s in sc], tabs, rng.random() < 0.5)), method,
              rng.choice([0, 1]), "/", rpn, "/", env)
        return c
    c, t = start(rng, cid, "C23", 1, 5)
    vs = sorted(t.vars)
    for i in range(rng.randint(1, 2)):
        k = rng.random()
        ev = rng.random() < 0.75
        if k < 0.15 and not ev:
            h = norm_build(c, t, 0, "zero")[0]
        else:
            h = some_structure(c, t) if ev or k < 0.6 else norm_build(c, t, 0, "norm")[0]
            if ev:
                h = norm_build(c, t, 0, rng.choice(["norm", "tie", "ext"]), topp=rng.choice([0.2, 0.5, 0.9]))[0] if k < 0.7 else \
                    conv(c, 1, 0, t, mode=2, f=sat_formula(rng, vs, rng.randint(1, 6)))
        c.cmd("write", i + 1, h)
        if rng.random() < 0.15:
            c.cmd("clibench", 1, i + 1)
        for _ in range(2):
            cl = [x for x in clauses(rng, vs, rng.choice([0, 1, 1, 2, 3, 5])) if x]
            if rng.random() < 0.1:
                x = rng.choice(vs)
                cl += [[x], [-x]]
            q = rng.choice([(1, 1), (1, 0), (0, 1), (1, 1), (0, 0)])
            c.cmd("cliinf", 1, i + 1, q[0], q[1], int(ev), rng.randrange(4), hexs(cnf_text(rng, vs, cl)))
    return c


GEN = {k[2:]: v for k, v in list(globals().items()) if k.startswith("g_C")}


def make(prop, seed, i, tier):
    rng = random.Random("%s|%s|%d" % (seed, prop, i))
    for _ in range(20):
        c = GEN[prop](rng, "%s-%d" % (prop, i), tier)
        if len(c.lines) <= 2200:   # a structure that grew beyond what can be judged in time is dropped
            break
    return c
