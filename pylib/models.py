"""Runs the exhaustive models with TLC and turns their behaviours into cases."""
import itertools
import json
import math
import os
import re
import shutil
import time

import run
from core import Case, fmt, tree, Node
import gen
import random


class ModelBroken(Exception):
    pass


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
BEH = re.compile(r'^"BEH\|(.*)"$')


def tla_value(s):
    """a TLC value without records or functions, as Python tuples"""
    s = s.replace('\\"', '"').replace("TRUE", "True").replace("FALSE", "False")
    s = s.replace("<<>>", "()").replace("<<", "(").replace(">>", ",)").replace("{}", "()").replace("{", "(").replace("}", ",)")
    return eval(s, {"__builtins__": {}}, {"True": True, "False": False})


def sampled(n, maker):
    """at most n of the behaviours, chosen by the run's seed"""
    def f(prof, conf, beh):
        return maker(prof, conf, random.Random("%s%s" % (prof, conf.get("rem", 0))).sample(beh, min(n, len(beh))))
    return f


def run_model(module, conf, scratch, workers=8, timeout=800, cfg=None):
    """one exhaustive run; returns (behaviours, statistics)"""
    path = os.path.join(scratch, "conf-%s-%d.json" % (module, time.monotonic_ns()))
    with open(path, "w") as f:
        json.dump(conf, f)
    t = time.time()
    rc, out = run.tlc(module + ".tla", cfg or module + ".cfg", scratch, {"CONF": path}, "numrat", workers, timeout=timeout, heap="6g")
    os.unlink(path)
    st = STATS.findall(out)
    if rc is None:
        raise run.Broken("model %s %s did not finish in time" % (module, conf))
    if rc != 0 or not st or st[-1][2] != "0":
        txt = "\n".join(l for l in out.splitlines() if not l.startswith('"BEH'))
        raise ModelBroken("model %s %s: %s" % (module, json.dumps(conf), txt[txt.find("Error:"):][:3000]))
    beh = []
    for ln in out.splitlines():
        m = BEH.match(ln.strip())
        if m:
            beh.append(m.group(1))
    beh = sorted(set(beh))
    return beh, {"module": module, "conf": conf, "states": int(st[-1][1]), "transitions": int(st[-1][0]),
                 "behaviours": len(beh), "wall_s": round(time.time() - t, 1)}


# ------------------------------------------------------------------ cases from behaviours
class Terms:
    def __init__(self, c, mgr=1, flag=0):
        self.c, self.mgr, self.flag, self.memo = c, mgr, flag, {}

    def make(self, t, fresh=False):
        if t in self.memo and not fresh:
            return self.memo[t]
        c = self.c
        if t[0] == "L":
            h = c.h()
            c.cmd("lit", h, self.mgr, t[1], self.flag)
        elif t[0] == "T":
            h = c.h()
            c.cmd("top", h, self.mgr, t[1], self.flag, *[fmt(x[0] / x[1]) for x in t[2:4]])
        else:
            els = []
            for p, s, w in t[1:]:
                els += [self.make(p), self.make(s), fmt(w[0] / w[1])]
            h = c.h()
            c.cmd("dec", h, self.mgr, self.flag, len(t) - 1, els)
        self.memo[t] = h
        return h


def term_nodes(T, t):
    return list(T.memo.values())


def begin(cid, prof, rpn, kind="mgr"):
    vs = [x for x in rpn if x]
    c = Case(cid, prof, random.Random(cid), vs, True)
    c.cmd("vtree", 1, list(rpn))
    c.cmd(kind, 1, 1)
    c.rpn = list(rpn)
    c.vs = vs
    c.m1 = set()
    return c


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]


def ops_case(prof, cid, conf, group):
    """group: [(ta, tb, beh)] with one ta"""
    c = begin(cid, prof, conf["vt"])
    vs = c.vs
    T = Terms(c)
    ta = group[0][0]
    h = T.make(ta)
    nodes = list(T.memo.values())
    if any(b[2][0] == "load" for b in group):
        c.cmd("mgr", 2, 1)
    for _, tb, beh in group:
        op = beh[0]
        if op in ("eval", "cons"):
            out = []
            for q in beh[1]:
                out += list(q) + ["/"]
            c.cmd("evals" if op == "eval" else "cons", h, out)
            if op == "cons":
                for q in gen.all_full(vs):
                    c.cmd("act", h, [x for x in q if x > 0])
                    c.cmd("consn", h, max(vs), [x for x in q if x > 0])
        elif op in ("mpe", "mar", "count", "size"):
            c.cmd(op, h)
            if op == "count":
                gen.tosdd(c, h, vs)
        elif op == "ser":
            c.cmd("ser", h)
            for i in nodes:
                for j in nodes:
                    c.cmd("ser", [i, j])
                    c.cmd("ser", [i, h, j])
        elif op == "load":
            c.cmd("load", c.h(), 2, h, -1, 7)
            c.cmd("load", c.h(), 2, h, -1, 7)
            c.cmd("load", c.h(), 1, h, -1, 5)
            c.cmd("write", 1, h)
            c.cmd("read", c.h(), 1, 1, 0)
            c.cmd("read", c.h(), 2, 1, 9)
            c.cmd("snap")
        elif op == "learn":
            full = gen.all_full(vs)
            rows = ["".join("1" if x > 0 else "0" for x in q) for q in full]
            c.cmd("learn", c.h(), 1, h, 3, "d1", len(vs), vs, [])
            for i, a in enumerate(rows):
                c.cmd("learn", c.h(), 1, h, 3, ["d1", "d0.5"][i % 2], len(vs), vs, [a])
                b = rows[(i * 5 + 3) % len(rows)]
                c.cmd("learn", c.h(), 1, h, 3, "d1", len(vs), vs, [a, b, b, b])
        elif op == "samp":
            for i in nodes:
                for q in ([i, h], [h, i]):
                    hs = []
                    for x in q:
                        hs += [x, c.h()]
                    c.cmd("samp", 1, 4, 2, hs, PRIMES)
        elif op == "draw":
            c.cmd("dsgrid", h, 0, 1, conf["g"], conf["depth"])
        elif op == "mul":
            b = T.make(tb)
            c.cmd("mul", c.h(), 1, h, b, 6)
        elif op == "gc":
            for i in nodes:
                # keep node i (and everything below), forget the rest, ask for all again
                keep = [T.memo[t] for t in T.memo if T.memo[t] == i]
                c.cmd("gc", 1, keep)
                c.cmd("snap")
                T2 = Terms(c)
                T2.make(ta)
                # continue with the rebuilt structure
                m2 = {T.memo[t]: T2.memo[t] for t in T.memo}
                T.memo = T2.memo
                for j in range(len(nodes)):
                    nodes[j] = m2.get(nodes[j], nodes[j])
            c.cmd("gc", 1)
            T.memo = {}
            T.make(ta)
    c.cmd("snap")
    return c


def ops_cases(prof, conf, beh, per=None):
    groups = {}
    for s in beh:
        ta, tb, b = tla_value(s)
        groups.setdefault(ta, []).append((ta, tb, b))
    out = []
    for i, ta in enumerate(sorted(groups, key=str)):
        out.append(ops_case(prof, "%s-mc-%s-%d" % (prof, conf["op"], i), conf, groups[ta]))
    return out


def build_case(prof, cid, conf, hist):
    raw = conf["raw"]
    u = "u" if raw else ""
    c = begin(cid, prof, conf["vt"], "utab" if raw else "mgr")
    c.cmd("mgr", 2, 1)
    hs = {}
    flag = {}
    for cmd in hist:
        res, op, args = cmd[0], cmd[1], cmd[2:]
        if op == "gcf":
            c.cmd("gcf", 1, args[0])
            for i in list(hs):
                if hs[i] in c.m1 and flag[hs[i]] not in args[0]:
                    del hs[i]
            continue
        if op == "gc":
            c.cmd("gc", 1, [hs[i] for i in args[0]])
            for i in list(hs):
                if hs[i] in c.m1 and i not in args[0]:
                    del hs[i]
            continue
        h = c.h()
        m = 1
        f = args[0]
        if op == "lit":
            c.cmd(u + "lit", h, 1, args[1], f)
        elif op == "top":
            c.cmd(u + "top", h, 1, args[1], f, *[fmt(x[0] / x[1]) for x in args[2:]])
        elif op == "dec":
            els = []
            for k in range(args[1]):
                p, s, w = args[2 + 3 * k:5 + 3 * k]
                els += [hs[p], hs[s], fmt(w[0] / w[1])]
            c.cmd(u + "dec", h, 1, f, args[1], els)
        elif op == "true":
            c.cmd("true", h, 1, args[1], f)
        elif op == "norm":
            c.cmd("norm", h, 1, args[1], hs[args[2]], f)
        elif op == "load":
            m = args[1]
            c.cmd("load", h, m, hs[args[2]], -1, f)
        if m == 1:
            c.m1.add(h)
        hs[res] = h
        flag[h] = f
    c.cmd("snap")
    return c


def build_cases(prof, conf, beh):
    return [build_case(prof, "b", conf, tla_value(s)) for s in beh]


def minterms(vs, ws):
    """the formula with the given models (weight of a model: sum of 2^(x-1) over its true variables)"""
    f = []
    for n, w in enumerate(ws):
        for k, x in enumerate(vs):
            f += [x if w >> (x - 1) & 1 else -x] + ([1000001] if k else [])
        f += [1000002] if n else []
    return f or [1000005]


def sdd_cases(prof, conf, beh, per=16):
    """every function at every position, through both ways of converting"""
    out = []
    items = [tla_value(s) for s in beh]
    for i in range(0, len(items), per):
        c = begin("%s-%d" % (prof, i), prof, conf["vt"])
        r = c.rng
        st = []
        for x in conf["vt"]:
            if x:
                st.append(Node(x))
            else:
                b = st.pop()
                st.append(Node(None, st.pop(), b))
        t = st[0].number()
        ns = t.nodes()
        for k, (v, ws) in enumerate(items[i:i + per]):
            node = ns[v]
            vs = sorted(node.vars)
            perm = list(range(1, len(vs) + 1))
            mode = r.choice([0, 1, 2]) if node is t else r.choice([1, 2])
            if mode:
                r.shuffle(perm)
            ws = list(ws)
            r.shuffle(ws)
            if prof == "C09" and not ws:
                continue
            h = c.h()
            c.cmd("conv", h, 1, r.choice([0, 5]), mode, node.pos, len(vs), [y for x, s in zip(vs, perm) for y in (x, s)], minterms(vs, ws))
            if ws and (prof == "C09" or k % 4 == 0):
                c.cmd("count", h)
                gen.tosdd(c, h, c.vs)
        out.append(c)
    return out


CNF_LINES = ["c x", "p cnf 2 2", "1 -2 0", "-1 0", "1 2", "2 1 2 0", "0", "", " ", "1 -1 0\r", " 2\t0", "-2 0 1", "c", "1 0 c"]


def cnf_cases(prof, conf, beh, per=12):
    out = []
    items = [tla_value(s) for s in beh]
    for i in range(0, len(items), per):
        c = begin("%s-%d" % (prof, i), prof, V2)
        for q in items[i:i + per]:
            text = "\n".join(CNF_LINES[j - 1] for j in q)
            c.cmd("cnffile", c.h(), 1, 0, gen.hexs(text + ("" if c.rng.random() < 0.4 else "\n")))
        out.append(c)
    return out


def plain_case(prof, cid, i):
    return Case("%s-%d" % (prof, i), prof, random.Random("%s%d" % (cid, i)), [1], True)


def csv_cases(prof, conf, beh, per=10):
    """texts of the machine; letters and separators are drawn out to meet the real buffers of 64"""
    out = []
    items = [tla_value(s) for s in beh]
    for i in range(0, len(items), per):
        c = plain_case(prof, "csv", i)
        r = c.rng
        for q in items[i:i + per]:
            kx, kc = r.choice([1, 1, 9, 15, 16, 21, 32, 63]), r.choice([1, 1, 1, 16, 31, 33])
            dl = r.choice([",", ",", ",", ";", "\t"])
            t = "".join({97: "a" * kx, 49: "1", 44: dl * kc, 34: '"', 10: "\n", 13: "\r"}[ch] for ch in q)
            c.cmd("csvp", r.choice([0, 1]), gen.hexs(dl), r.choice([0, 0, 0, 1]), gen.hexs(t))
        out.append(c)
    return out


FILES = ["", "1,0\n", "0,1\n1,1\n0,1\n", "0\n1\n0\n", "007,-2\n,x\n"]


def data_cases(prof, conf, beh):
    out = []
    for i, s in enumerate(beh):
        c = plain_case(prof, "data", i)
        c.cmd("dnew", 1)
        c.cmd("dnew", 2)
        for cmd in tla_value(s):
            op, d, a = cmd[0], cmd[1], cmd[2:]
            if op == 1:
                c.cmd("csv", d, gen.hexs(FILES[a[0] - 1]))
            elif op == 2:
                c.cmd("dadd", d, list(a))
            elif op == 3:
                c.cmd("dvar", d, a[0])
            elif op == 4:
                c.cmd("csvw", d, 1)
            else:
                c.cmd("csvr", d, 1)
        out.append(c)
    return out


def json_cases(prof, conf, beh, per=8):
    out = []
    items = [tla_value(s) for s in beh]
    for i in range(0, len(items), per):
        c = plain_case(prof, "json", i)
        r = c.rng
        for q in items[i:i + per]:
            ex = [{"a": a, "e": [{"n": n, "v": v} for n, v in els]} for a, els in q]
            txt = ["[" + ", ".join(str(x["v"]) if x["n"] else r.choice(['"1"', "null", "[1]", "true", "{}"]) for x in e["e"]) + "]"
                   if e["a"] else r.choice(["1", '"x"', "null", "true"]) for e in ex]
            parts = ['"variable_size": 2', '"data": [%s]' % ", ".join(txt)]
            r.shuffle(parts)
            doc = json.dumps({"hv": 1, "vs": 2, "hd": 1, "ex": ex}, separators=(",", ":"))
            c.cmd("json", 1, gen.hexs("{" + ", ".join(parts) + "}"), gen.hexs(doc))
        out.append(c)
    return out


def rpn_of(shape):
    return [shape[0]] if len(shape) == 1 else rpn_of(shape[0]) + rpn_of(shape[1]) + [0]


def vtree_cases(prof, conf, beh):
    out = []
    for i, s in enumerate(beh):
        hist = tla_value(s)
        c = plain_case(prof, "vtree", i)
        r = c.rng
        c.cmd("vtree", 1, rpn_of(hist[0][1]))
        last = 1
        for cmd in hist[1:]:
            op, o = cmd[0], cmd[1]
            if op == "vcopy":
                last += 1
                c.cmd("vcopy", last, o)
            elif op == "vmap":
                last += 1
                ps = list(cmd[2])
                r.shuffle(ps)
                c.cmd("vmap", last, o, [y for p in ps for y in p])
                if r.random() < 0.3:
                    c.cmd("mgrmap", 20, o, len(ps), [y for p in ps for y in p])
            elif op == "vproj":
                last += 1
                c.cmd("vproj", last, o, list(cmd[2]))
            elif op == "vsub":
                c.cmd("vsub", o, list(cmd[2]))
            else:
                c.cmd("vvars", o, cmd[2])
        if r.random() < 0.3:
            c.cmd("mgr", 21, r.randint(1, last))
        for k in range(1, last + 1):
            c.cmd("vvars", k, -1)
        c.cmd("snap")
        out.append(c)
    return out


def net_text(r, nv, scopes, tabs):
    """scopes from one; entries small integers"""
    return gen.hexs(gen.uai_text(r, nv, [[x - 1 for x in q] for q in scopes], tabs, True))


def vgen_cases(prof, conf, beh, per=12):
    """one case per network: every answer of the external tool on it"""
    nets = {}
    for s in beh:
        mode, nv, net, env = tla_value(s)
        nets.setdefault((nv, net), []).append((mode, env))
    out = []
    for (nv, net), answers in sorted(nets.items()):
        for i in range(0, len(answers), per):
            r = random.Random("%s%s%d%s" % (nv, net, i, conf["rem"]))
            scopes = [[x for x in range(1, nv + 1) if (k >> (x - 1)) & 1] for k in net]
            for q in scopes:
                r.shuffle(q)
            c = Case("", prof, r, list(range(1, nv + 1)), False, [[]])
            text = net_text(r, nv, scopes, [[r.choice([1, 2, 0.5])] * (1 << len(q)) for q in scopes])
            c.cmd("uai", 1, text)
            for k, (mode, env) in enumerate(answers[i:i + per]):
                c.cmd("vgen", k + 1, 1, mode, list(env))
            mode, env = r.choice(answers[i:i + per])
            c.cmd("pgm", 1, text)
            c.cmd("pgmm", 1, 1, mode, list(env))
            for k in range(len(scopes)):
                c.cmd("pgmf", c.h(), 1, 1, k)
            out.append(c)
    return out


def comp_cases(prof, conf, beh):
    nets = {}
    for s in beh:
        scopes, tabs, st, gf = tla_value(s)
        nets.setdefault((scopes, tabs), []).append((st, gf))
    out = []
    for (scopes, tabs), runs in sorted(nets.items()):
        r = random.Random("%s%s" % (scopes, tabs))
        vs = sorted(x for x in conf["vt"] if x)
        c = Case("", prof, r, vs, True)
        c.cmd("pgm", 1, net_text(r, len(vs), scopes, tabs))
        c.cmd("pgmv", 1, 1, list(conf["vt"]))
        for k in range(len(scopes)):
            c.cmd("pgmf", c.h(), 1, 1, k)
        for st, gf in runs:
            c.cmd("pgmn", c.h(), 1, 1, st, gf)
        out.append(c)
    return out


def par_cases(prof, conf, beh, per=12):
    """histories of registers; the unit of the logarithms is drawn (the model's cut is at whole units)"""
    out = []
    items = [tla_value(s) for s in beh]
    for i in range(0, len(items), per):
        c = plain_case(prof, "par", i)
        r = c.rng
        for T, hist in items[i:i + per]:
            u = r.choice([None, None, 1e-7, 3e-7, 0.5e-7, 1.0, 60.0])
            for k, (n, d) in enumerate(T):
                if n == 0:
                    c.cmd(*r.choice([("pzero", k + 1), ("pset", k + 1, "d0")]))
                else:
                    c.cmd("pset", k + 1, fmt(n / d) if u is None else "l%.17g" % (math.log2(n / d) * u))
            for o, d, a, b, inpl in hist:
                c.cmd("p" + o + ("i" if inpl else ""), d, a, b)
        out.append(c)
    return out


def uai_cases(prof, conf, beh, per=10):
    out = []
    items = [tla_value(s) for s in beh]
    for i in range(0, len(items), per):
        c = plain_case(prof, "uai", i)
        r = c.rng
        for k, fl in enumerate(items[i:i + per]):
            lines = []
            for ln in fl:
                t = ""
                for x in ln:
                    t += r.choice([" ", "  ", "\t"]) if x == " " else (x if not t or t[-1] in " \t" else r.choice([" ", " ", "  ", "\t"]) + x)
                lines.append(t + r.choice(["", "", "", " "] if t else [""]))
            nl = r.choice(["\n", "\n", "\r\n"])
            c.cmd("uai", k + 1, gen.hexs(nl.join(lines) + r.choice(["", nl, nl])))
        out.append(c)
    return out


def cli_cases(prof, conf, beh):
    groups = {}
    for s in beh:
        t, cls, ev, qm, qr = tla_value(s)
        groups.setdefault(t, []).append((cls, ev, qm, qr))
    out = []
    for t, runs in sorted(groups.items(), key=str):
        c = begin("", prof, conf["vt"])
        r = random.Random(str(t))
        h = Terms(c).make(t)
        c.cmd("write", 1, h)
        for cls, ev, qm, qr in runs:
            c.cmd("cliinf", 1, 1, int(qm), int(qr), int(ev), r.randrange(4), gen.hexs(gen.cnf_text(r, c.vs, [list(q) for q in cls])))
        out.append(c)
    return out


# ------------------------------------------------------------------ plan
V4A, V4C, V4D = [2, 4, 1, 3, 0, 0, 0], [1, 3, 0, 2, 0, 4, 0], [3, 1, 2, 0, 0, 4, 0]
V2, V3L, V3R, V4B = [1, 2, 0], [1, 2, 0, 3, 0], [1, 2, 3, 0, 0], [1, 2, 0, 3, 4, 0, 0]
Q = [[1, 4, 3, 4]]


def conf(vt, op, tw=Q, dw=Q, mod=1, rem=0, mod2=1, rem2=0, g=4, depth=5):
    return {"vt": vt, "op": op, "tw": tw, "dw": dw, "mod": mod, "rem": rem, "mod2": mod2, "rem2": rem2, "g": g, "depth": depth}


ALLB = ["lit", "top", "dec1", "dec2", "true", "norm", "load", "gc"]
RAWB = ["lit", "top", "dec1", "dec2", "gc", "gcf"]
T1, T2 = [2, 1, 4, 3, 4], [2, 1, 2, 1, 2]
D1, D2 = [1, 4, 3, 4], [3, 4, 1, 4]


def bconf(vt, depth, lits, tops, flags, dws, ops, stride, raw=0):
    return {"vt": vt, "raw": raw, "depth": depth, "lits": lits, "tops": tops, "flags": flags, "dws": dws, "ops": ops, "stride": stride}


BUILD = {
    "C01": {"quick": [(V2, 6, [1, -1, 2], [T1], [0], [D1, D2], ["lit", "top", "dec1", "dec2", "gc"], 37),
                      (V2, 3, [1, 2], [T1, T2], [0, 1], [D1], ALLB, 31),
                      (V2, 5, [1, -1, 2], [T1], [0, 7], [D1, D2], RAWB, 97, 1)],
            "thorough": [(V3R, 6, [1, -1, 2, 3], [], [0], [D1, D2], ["lit", "dec1", "dec2", "gc"], 41, 1),(V3L, 6, [1, -1, 2, 3], [], [0], [D1, D2], ["lit", "dec1", "dec2", "gc", "norm"], 41),
                         (V2, 7, [1, -1, 2], [T1], [0], [D1, D2], ["lit", "top", "dec1", "dec2", "gc"], 197),
                         (V2, 4, [1, 2], [T1, T2], [0, 1], [D1], ALLB, 397)]},
    "C02": {"quick": [(V2, 6, [1, -1, 2], [T1], [0], [D1], ["lit", "top", "dec1", "dec2", "gc"], 23),
                      (V2, 4, [1, 2], [], [0], [], ["lit", "dec1", "true", "norm", "load", "gc"], 23),
                      (V2, 5, [1, -1, 2], [], [0, 7], [D1], RAWB, 13, 1)],
            "thorough": [(V2, 6, [1, -1, 2], [T1], [0, 7], [D1], RAWB, 397, 1),(V2, 7, [1, -1, 2], [T1], [0], [D1], ["lit", "top", "dec1", "dec2", "gc"], 97),
                         (V3R, 6, [1, -1, 2, 3], [], [0], [D1], ["lit", "dec1", "dec2", "true", "gc", "norm", "load"], 397)]},
    "C14": {"quick": [(V3L, 5, [1, -1, 2, 3], [T1], [0], [D1], ["lit", "top", "dec1", "dec2", "norm"], 17),
                      (V3R, 3, [1, -2, 3], [T1], [0, 1], [D1], ["lit", "top", "dec1", "true", "norm"], 37)],
            "thorough": [(V4B, 6, [1, -1, 2, -3, 4], [], [0], [D1], ["lit", "dec1", "dec2", "norm"], 397),
                         (V3R, 6, [1, 2, -2, 3], [T1], [0], [D1, D2], ["lit", "top", "dec1", "dec2", "true", "norm"], 1999)]},
    "C15": {"quick": [(V3R, 4, [1, -1, 2, 3], [], [0, 5], [D1], ["lit", "dec1", "dec2", "load"], 23)],
            "thorough": [(V3L, 5, [1, -1, 2, 3], [], [0, 5], [D1], ["lit", "dec1", "dec2", "load"], 397)]},
    "C17": {"quick": [(V2, 3, [1, 2], [T1], [0, 1], [D1], ALLB, 11), (V2, 5, [1, -1, 2], [T1], [0, 1], [D1], ["lit", "top", "dec1", "dec2"], 37)],
            "thorough": [(V2, 4, [1, 2, -1], [T1], [0, 1, 2], [D1], ALLB, 997)]},
}


def plan(prop, tier, seed):
    """[(module, conf, case maker)]"""
    ops = {"C02": ["gc"], "C05": ["mul"], "C06": ["eval"], "C07": ["mpe"], "C08": ["mar"], "C09": ["count", "cons"], "C10": ["learn"],
           "C11": ["samp"], "C12": ["draw"], "C13": ["load"], "C15": ["load"], "C16": ["ser", "size"]}.get(prop, [])
    heavy = {"mul": (10, 10), "learn": (3, 1), "samp": (2, 1), "draw": (4, 1), "ser": (2, 1), "gc": (2, 1)}
    out = []
    V3 = [V3L, V3R]
    if prop in ("C03", "C09"):
        out.append(("MCSdd", {"vt": V3[seed % 2], "mod": 1, "rem": 0}, sdd_cases))
        out.append(("MCSdd", {"vt": [V4B, V4A, V4C][seed % 3], "mod": 251, "rem": seed}, sdd_cases))
        if tier == "thorough":
            out += [("MCSdd", {"vt": v, "mod": 13 if v is V4B else 61, "rem": seed}, sdd_cases) for v in (V4B, V4A, V4C, V4D)]
            out.append(("MCSdd", {"vt": V3[(seed + 1) % 2], "mod": 1, "rem": 0}, sdd_cases))
    if prop == "C04":
        cl = [list(x) for x in CNF_LINES]
        out.append(("MCCnf", {"lines": cl, "n": 3, "stride": 5, "rem": seed}, cnf_cases))
        if tier == "thorough":
            out.append(("MCCnf", {"lines": cl, "n": 4, "stride": 23, "rem": seed}, cnf_cases))
    if prop == "C19":
        def csv(cap, fld, cr, ln, cols, stride):
            out.append(("MCCsv", {"cap": cap, "fld": fld, "cr": cr, "len": ln, "cols": cols, "stride": stride, "rem": seed}, csv_cases))
        csv(4, 2, False, 4, 5, 13)
        csv(3, 2, True, 5, 3, 41)
        out.append(("MCData", {"op": "hist", "depth": 3, "stride": 23, "rem": seed}, data_cases))
        out.append(("MCData", {"op": "json", "depth": 2, "stride": 13, "rem": seed}, json_cases))
        if tier == "thorough":
            csv(4, 2, True, 6, 5, 211)
            csv(5, 3, False, 9, 7, 997)
            out.append(("MCData", {"op": "hist", "depth": 4, "stride": 197, "rem": seed}, data_cases))
            out.append(("MCData", {"op": "json", "depth": 3, "stride": 199, "rem": seed}, json_cases))
    if prop == "C23":
        def cli(vt, lits, clauses, mod, mod2, n):
            out.append(("MCCli", {"vt": vt, "tw": Q, "dw": Q, "lits": lits, "clauses": clauses, "mod": mod, "rem": seed, "mod2": mod2}, sampled(n, cli_cases)))
        cli([V2, [2, 1, 0]][seed % 2], 2, 2, 1, 1, 400)
        cli([V3L, V3R, [2, 3, 1, 0, 0], [3, 1, 0, 2, 0]][seed % 4], 2, 2, 37, 23, 400)
        if tier == "thorough":
            cli([V2, [2, 1, 0]][(seed + 1) % 2], 2, 4, 1, 1, 2500)
            cli([V3R, V3L][seed % 2], 3, 2, 5, 7, 2500)
            cli([V3L, V3R][seed % 2], 2, 2, 17, 5, 2500)
    if prop == "C20":
        nets = [{"ty": "BAYES", "nv": 2, "sc": [[1], [0, 1]], "tb": [["0.5", "1e0"], ["0", "2", ".5", "5e-1"]]},
                {"ty": "MARKOV", "nv": 3, "sc": [[2, 0]], "tb": [["0.5", "1e0", "3", "0.25"]]},
                {"ty": "MARKOV", "nv": 2, "sc": [[1], [0], [1]], "tb": [["0.5", "0.0"], ["1", "4"], ["5", "7"]]},
                {"ty": "MARKOV", "nv": 3, "sc": [[2, 1, 0]], "tb": [["0.5", "1", "0", "7", "3", "1e0", "2", "4"]]}]

        def uai(nets, blank, lead, keep, stride, n):
            out.append(("MCUai", {"nets": nets, "blank": blank, "lead": lead, "keep": keep, "stride": stride, "rem": seed}, sampled(n, uai_cases)))
        uai(nets, 2, True, 601, 5, 3000)
        if tier == "thorough":
            uai(nets, 3, True, 997, 23, 20000)
            uai(nets[2:], 1, True, 2003, 11, 20000)
    if prop == "C18":
        def par(vals, regs, depth, stride, n):
            out.append(("MCPar", {"vals": vals, "regs": regs, "depth": depth, "stride": stride, "rem": seed}, sampled(n, par_cases)))
        par([[0, 1], [1, 1], [1, 2], [3, 2], [3, 4], [4, 1]], 2, 3, 3, 6000)
        par([[0, 1], [1, 1], [5, 4]], 3, 2, 1, 6000)
        if tier == "thorough":
            par([[0, 1], [1, 1], [1, 3], [5, 4], [9, 8], [7, 1]], 2, 4, 11, 30000)
            par([[0, 1], [1, 1], [1, 2], [3, 2]], 3, 3, 11, 30000)
    if prop == "C24":
        out.append(("MCVtree", {"n": 4, "depth": 2, "rem": seed}, sampled(1500, vtree_cases)))
        if tier == "thorough":
            out.append(("MCVtree", {"n": 5, "depth": 2, "rem": seed}, sampled(6000, vtree_cases)))
            out.append(("MCVtree", {"n": 3, "depth": 3, "rem": seed}, sampled(4000, vtree_cases)))
    if prop == "C22":
        def vg(mode, nv, nf, bags, mod, n, cnt=0):
            out.append(("MCVgen", {"mode": mode, "nv": nv, "nf": nf, "bags": bags, "mod": mod, "rem": seed, "cnt": cnt}, sampled(n, vgen_cases)))
        vg(4, 3, 3, 1, 1, 700)
        vg(2, 3, 2, 3, 1, 900)
        vg(1, 3, 4, 1, 1, 700)
        vg(1, 4, 7, 1, 1, 500, 6)
        if tier == "thorough":
            vg(4, 4, 4, 1, 5, 4000)
            vg(4, 5, 4, 1, 1, 2000, 30)
            vg(4, 6, 5, 1, 1, 1000, 6)
            vg(2, 4, 2, 3, 5, 4000)
            vg(2, 3, 3, 4, 1, 4000, 8)
            vg(1, 4, 4, 1, 5, 4000)
            vg(1, 4, 7, 1, 1, 4000, 30)
            vg(1, 5, 5, 1, 1, 3000, 40)
            vg(1, 6, 9, 1, 1, 3000, 3)
    if prop == "C21":
        def comp(vt, scopes, vals, nf, width, mod, freqs, stride):
            out.append(("MCComp", {"vt": vt, "scopes": scopes, "vals": vals, "nf": nf, "width": width, "mod": mod, "rem": seed, "freqs": freqs, "stride": stride}, comp_cases))
        s2 = [[1], [2], [1, 2], [2, 1]]
        s3 = [list(q) for k in (1, 2, 3) for q in itertools.permutations([1, 2, 3], k)]
        p3 = [[[1, 2, 3, 0, 0], [2, 3, 1, 0, 0], [3, 1, 2, 0, 0]][seed % 3], [[1, 2, 0, 3, 0], [3, 1, 0, 2, 0], [2, 3, 0, 1, 0]][seed % 3]]
        comp([V2, [2, 1, 0]][seed % 2], s2, [0, 1, 2], 3, 2, 2, [1, 2], 5)
        comp(p3[0], s3, [0, 1], 3, 2, 29, [1, 2, 100], 3)
        comp(p3[0], s3, [0, 1, 2], 1, 1, 61, [1], 2)
        if tier == "thorough":
            comp(p3[0], s3, [0, 1, 2], 1, 1, 1, [1], 19)
            comp(p3[1], s3, [0, 1, 3], 4, 2, 23, [1, 2, 3], 5)
            comp(p3[0], s3, [0, 1], 4, 2, 53, [1, 2], 11)
            comp([V2, [2, 1, 0]][(seed + 1) % 2], s2, [0, 1, 2], 4, 2, 1, [1, 2, 3, 100], 97)
            s4 = [[1], [2], [4], [2, 1], [1, 4], [3, 2], [4, 3], [1, 2, 4], [3, 4, 2], [1, 2, 3, 4], [4, 2, 1, 3]]
            comp([1, 2, 3, 4, 0, 0, 0], s4, [0, 1], 3, 2, 997, [1, 2], 3)
            comp([2, 4, 1, 3, 0, 0, 0], s4, [0, 1], 4, 1, 997, [1, 2], 3)
    if prop in BUILD:
        out += [("MCBuild", dict(bconf(*a), rem=seed), build_cases) for a in BUILD[prop]["quick"]]
        if tier == "thorough":
            out += [("MCBuild", dict(bconf(*a), rem=seed), build_cases) for a in BUILD[prop]["thorough"]]
    for op in ops:
        m, m2 = heavy.get(op, (1, 1))
        vt = [V3L, V3R][seed % 2]
        out.append(("MCOps", conf(vt, op, mod=m, rem=seed, mod2=m2, rem2=seed // m), ops_cases))
        if tier == "thorough":
            mixed = [[1, 4, 3, 4], [0, 1, 1, 1], [1, 2, 1, 2]] if op not in ("mul", "samp", "learn") else [[1, 4, 3, 4], [1, 2, 1, 2]]
            out.append(("MCOps", conf([V3L, V3R][(seed + 1) % 2], op, mod=1 if op != "mul" else 2, rem=seed, mod2=1 if op != "mul" else 5, rem2=seed), ops_cases))
            out.append(("MCOps", conf(V2, op, tw=mixed, dw=mixed, depth=3), ops_cases))
            out.append(("MCOps", conf(V4B, op, mod={"mul": 199, "learn": 31, "samp": 23, "draw": 61}.get(op, 7), rem=seed, mod2=101, rem2=seed, depth=7 if op == "draw" else 5, g=2 if op == "draw" else 4,
                                      tw=[[1, 2, 1, 2]] if op == "draw" else Q, dw=[[1, 2, 1, 2]] if op == "draw" else Q), ops_cases))
    return out


def model_cases(prop, tier, seed, scratch, log):
    """runs the models of a property; returns cases (behaviours to repeat) and records statistics in log"""
    cases = []
    for module, cf, maker in plan(prop, tier, seed):
        beh, st = run_model(module, cf, scratch)
        log.append(st)
        cs = maker(prop, cf, beh)
        for k, c in enumerate(cs):
            c.id = "%s-m%d-%d" % (prop, len(log), k)
        cases += cs
    return cases
