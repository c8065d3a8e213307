"""Seeded scripts for SmearSys."""
from vlib import hx

Q = {"MatGet", "MatVec", "SmGroup", "SmTotal"}
KINDS = ["shift", "scale", "scalefn", "shape", "renorm", "conv"]


def val(rng):
    return rng.choice([0, 1, -1, .5, 2, rng.randint(-20, 20) / 8, rng.uniform(-5, 5)] + [rng.choice([-3, 1, 5]) * 2.0 ** -rng.randint(30, 70)] * (rng.random() < .2))


def matrices(rng, n):
    eps = []
    for _ in range(n):
        kind = rng.choice("SSD")
        dims = [rng.choice([1, 2, 3, 4, 5]) for _ in range(3)]
        if rng.random() < .2:
            dims = [dims[0]] * 3
        ep, size = [], {}

        def new(h, r, c):
            ep.append({"op": "NewMat", "h": h, "kind": kind, "r": r, "c": c})
            size[h] = (r, c)
            fill(h)

        def fill(h):
            r, c = size[h]
            if kind == "S":
                cells = [(i, j) for i in range(r) for j in range(c)]
                cells = rng.sample(cells, rng.randint(0, len(cells)))
                ep.append({"op": "MatSets", "h": h, "ts": [[i, j, hx(val(rng))] for i, j in cells]})
            for i in range(r):
                for j in range(c):
                    if kind == "D" or rng.random() < .15:
                        ep.append({"op": "MatSet", "h": h, "i": i, "j": j, "x": hx(val(rng))})
        new("a", dims[0], dims[1])
        new("b", dims[1], dims[2])
        for _ in range(rng.randint(4, 14)):
            h = rng.choice(sorted(size))
            r, c = size[h]
            q = rng.random()
            if q < .12:
                ep.append({"op": "MatSet", "h": h, "i": rng.randint(0, r), "j": rng.randint(0, c), "x": hx(val(rng))})
            elif q < .3:
                ep.append({"op": "MatGet", "h": h, "i": rng.randint(0, r), "j": rng.randint(0, c)})
            elif q < .5:
                m = c if rng.random() < .85 else c + rng.choice([-1, 1])
                ep.append({"op": "MatVec", "h": h, "v": [hx(val(rng)) for _ in range(max(0, m))]})
            elif q < .72:
                g = rng.choice(sorted(size))
                to = rng.choice([h, h, "c", "d"])
                ep.append({"op": "MatMul", "h": h, "g": g, "to": to})
                if c == size[g][0]:
                    size[to] = (r, size[g][1])
            elif q < .78:
                to = rng.choice("abcd")
                if to != h:
                    ep.append({"op": "MatCopy", "h": h, "to": to})
                    size[to] = (r, c)
            elif q < .82:
                ep.append({"op": "MatZero", "h": h})
            elif q < .87:
                ep.append({"op": "MatId", "h": h})
            elif kind == "S":
                if q < .93:
                    ep.append({"op": "MatScale", "h": h, "k": hx(val(rng))})
                else:
                    fill(h)
            else:
                m = r * (r + 1) // 2 if rng.random() < .85 else r + 1
                ep.append({"op": "MatSym", "h": h, "v": [hx(val(rng)) for _ in range(m)]})
        eps.append(ep)
    return eps


def axis(rng, name, k, positive=False):
    e = [rng.choice([1, 2, .5]) if positive else rng.choice([0, 0, 1, rng.randint(-4, 3) / 2])]
    for _ in range(k):
        e.append(e[-1] + rng.choice([1, 1, .5, 2, rng.uniform(.3, 2)]))
    return {"name": name, "lo": [hx(v) for v in e[:-1]], "hi": [hx(v) for v in e[1:]]}


def axes(rng, names, cap=24, positive=False):
    out, n = [], 1
    fine = rng.random() < .2
    for x in names:
        k = rng.randint(1, max(1, min(6, cap // n)))
        if fine and n <= 2:
            k = rng.randint(7, 16) // n
        n *= k
        out.append(axis(rng, x, k, positive))
    return out, n


def contents(rng, n):
    return [hx(rng.choice([0, 1, rng.randint(0, 60), rng.uniform(0, 20)])) for _ in range(n - 1)] + [hx(rng.uniform(1, 9))]


class S:
    """what a script knows of a systematic"""
    def __init__(s, kind):
        s.kind, s.np, s.names, s.t = kind, 1, [], []
        s.last = {}

    def params(s, rng, ep, h, k=None):
        """set one parameter to a value the specification covers"""
        if s.np == 0:
            return
        k = rng.randint(1, s.np) if k is None else k
        if s.kind == "shift":
            x = rng.choice([0, .5, -.5, 1, rng.uniform(-2, 2), rng.uniform(-.4, .4), rng.choice([-1, 1]) * 2.0 ** -rng.randint(5, 24), rng.uniform(-6, 6)])
        elif s.kind == "scale":
            x = rng.choice([1, 2, .5, rng.uniform(.4, 2), 1.1, 1.1, 1 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(5, 24), rng.uniform(2, 8)] + [0, -1] * (rng.random() < .15))
        elif s.kind == "scalefn":
            x = rng.uniform(-1, 1) if k == 1 else rng.uniform(.5, 1.5) if k == 2 else rng.uniform(0, .05)
        elif s.kind == "shape":
            x = rng.uniform(3, 9) if k == 1 else rng.uniform(-.4, .4)
            if rng.random() < .04:
                x = -9
        elif s.kind == "conv":
            x = rng.uniform(.2, 2) if s.np == 1 or k > s.np // 2 else rng.choice([0, 0, rng.uniform(-1, 1)])
        else:
            x = rng.choice([1, 2, rng.uniform(0, 3), rng.uniform(0, 3), 0, -1])
        if k in s.last and s.kind != "conv" and rng.random() < .15:      # next to the value it has
            x = s.last[k] + rng.choice([-1, 1]) * 2.0 ** -rng.randint(15, 22)
        s.last[k] = x
        o = {"op": "SysPar", "h": h, "k": k, "x": hx(x)}
        if s.kind in ("shift", "scale") and rng.random() < .5:
            o["direct"] = True
        ep.append(o)

    def fn(s, rng, ep, h, nt):
        if s.kind not in ("scalefn", "shape", "conv"):
            return
        if s.kind == "scalefn":
            p = [rng.uniform(-1, 1), rng.uniform(.5, 1.5), rng.choice([0, rng.uniform(0, .05)])] if rng.random() < .85 else [rng.uniform(-.01, .01), rng.choice([1, 1, rng.uniform(2, 6)]), 0]
        elif s.kind == "shape":
            p = [rng.uniform(3, 9)] + [rng.uniform(-.4, .4) for _ in range(nt if rng.random() < .9 else nt - 1)]
        elif nt == 1 and rng.random() < .4:
            p = [rng.uniform(.3, 1.5)]
        else:
            p = [rng.choice([0, rng.uniform(-.6, .6)]) for _ in range(nt)] + [rng.uniform(.2, 2) for _ in range(nt)]
        s.np = len(p)
        ep.append({"op": "SysFn", "h": h, "p": [hx(x) for x in p]})

    def copy(s):
        t = S(s.kind)
        t.np, t.names, t.t = s.np, s.names, s.t
        t.last = dict(s.last)
        return t


def mean_ok(s, ax):
    """kernels of width p sqrt|x| need centres away from 0"""
    return not (s.kind == "conv" and s.np == 1) or all(
        abs((float.fromhex(a["lo"][i]) + float.fromhex(a["hi"][i]))) > 1e-3 for a in ax for i in range(len(a["lo"])))


def obs(rng, names, kind):
    if kind in ("shift", "scale", "scalefn"):
        return [rng.choice(names)] if rng.random() < .93 else rng.choice([[], names[:2], ["nope"]])
    t = rng.sample(names, rng.randint(1, min(2, len(names))) if rng.random() < .85 else len(names))
    return t if rng.random() < .93 else rng.choice([[], t + ["nope"]])


def systematics(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        kind = rng.choice(KINDS)
        names = rng.sample(["x", "y", "z"], rng.randint(1, 3))
        s = {"s": S(kind)}
        ep.append({"op": "NewSys", "h": "s", "kind": kind, "name": "S"})
        if kind == "renorm" or rng.random() < .95:
            s["s"].fn(rng, ep, "s", 1)
        ax, nb = axes(rng, names, positive=True)
        ep += [{"op": "SysAxes", "h": "s", "axes": ax}, {"op": "SysD", "h": "s", "o": names}]
        t = obs(rng, names, kind)
        ep.append({"op": "SysT", "h": "s", "o": t})
        s["s"].fn(rng, ep, "s", max(1, len(t)))
        s["s"].names = names
        ep.append({"op": "NewD", "d": "d", "name": "d", "axes": ax, "c": contents(rng, nb)})
        size, cur = {"d": nb}, nb
        sz, on = {"s": nb}, {"s": ax}
        for _ in range(rng.randint(3, 12)):
            h = rng.choice(sorted(s))
            q = rng.random()
            if rng.random() < .1:
                # other axes of the same names and nothing else: as many bins each, or the numbers swapped
                ks = [len(a["lo"]) for a in on[h]]
                if rng.random() < .3:
                    rng.shuffle(ks)
                on[h] = [axis(rng, a["name"], k, True) for a, k in zip(on[h], ks)]
                if rng.random() < .7:
                    ep.append({"op": "SysBuild", "h": h})
                ep += [{"op": "SysAxes", "h": h, "axes": on[h]}, {"op": "SysBuild", "h": h}]
            elif q < .25:
                s[h].params(rng, ep, h)
                if rng.random() < .7:
                    ep.append({"op": "SysBuild", "h": h})
            elif q < .45:
                ep.append({"op": "SysBuild", "h": h})
            elif q < .7:
                # built just before: a smeared distribution keeps content unless everything moved out
                ep.append({"op": "SysBuild", "h": h})
                ep.append({"op": "Smear", "h": h, "d": "d", "to": rng.choice(["e", "d"]) if sz[h] == nb else "e", "norm": True})
            elif q < .78:
                names = s[h].names = rng.sample(["x", "y", "z"], rng.randint(1, 3))
                ax, cur = axes(rng, names, positive=True)
                t = obs(rng, names, kind)
                q = [{"op": "SysAxes", "h": h, "axes": ax}, {"op": "SysD", "h": h, "o": names}, {"op": "SysT", "h": h, "o": t}]
                rng.shuffle(q)
                ep += q
                sz[h], on[h] = cur, ax
                if rng.random() < .8:
                    s[h].fn(rng, ep, h, max(1, len(t)))
                ep.append({"op": "SysBuild", "h": h})
                if rng.random() < .5:
                    nb = cur
                    ep.append({"op": "NewD", "d": "d", "name": "d", "axes": ax, "c": contents(rng, nb)})
            elif q < .84:
                names = s[h].names
                t = rng.sample(names, 1) if kind != "conv" or rng.random() < .3 else rng.sample(names, len(names))
                ep.append({"op": "SysT", "h": h, "o": t})
                if kind == "conv" and rng.random() < .5:
                    s[h].fn(rng, ep, h, len(t))
                ep.append({"op": "SysBuild", "h": h})
            elif q < .9:
                k = list(s[h].names)
                rng.shuffle(k)
                ep.append({"op": "SysD", "h": h, "o": k})
                ep.append({"op": "SysBuild", "h": h})
                ep.append({"op": "SysD", "h": h, "o": s[h].names})
            elif q < .95:
                to = rng.choice(["t", "u"])
                if to != h:
                    s[to], sz[to], on[to] = s[h].copy(), sz[h], on[h]
                    ep.append({"op": "SysCopy", "h": h, "to": to, **({"assign": True} if rng.random() < .5 else {})})
            else:
                ep.append({"op": "Smear", "h": h, "d": "d", "to": "e", "norm": True})
        eps.append(ep)
    return eps


def managers(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        names = rng.sample(["x", "y"], rng.randint(1, 2))
        ax, nb = axes(rng, names, cap=9, positive=True)
        other, no = axes(rng, names, cap=6, positive=True)
        hs = {}
        # now and then nothing but renormalisations, whose factor is no parameter
        kinds = ["renorm"] if rng.random() < .08 else KINDS
        for k in range(rng.randint(2, 5)):
            h = "s%d" % k
            kind = rng.choice(kinds)
            s = hs[h] = S(kind)
            ep.append({"op": "NewSys", "h": h, "kind": kind, "name": rng.choice(["A", "B", "C", "D", "E%d" % k, "F%d" % k])})
            s.fn(rng, ep, h, 1)
            t = [rng.choice(names)]
            q = [{"op": "SysAxes", "h": h, "axes": other if rng.random() < .04 else ax}, {"op": "SysD", "h": h, "o": names},
                 {"op": "SysT", "h": h, "o": t if rng.random() < .97 else []}]
            rng.shuffle(q)
            ep += q
            if rng.random() < .8:
                s.params(rng, ep, h)
        dn = []
        for k in range(rng.randint(1, 4)):
            d = "d%d" % k
            a, m = (ax, nb) if rng.random() < .96 else (other, no)
            ep.append({"op": "NewD", "d": d, "name": rng.choice(["P", "Q%d" % k, "R%d" % k]), "axes": a, "c": contents(rng, m)})
            ep.append({"op": "NewD", "d": "w%d" % k, "name": "W%d" % k, "axes": a, "c": contents(rng, m)})
            dn.append(d)
        ms = ["m"] + (["n"] if rng.random() < .2 else [])
        for m in ms:
            ep.append({"op": "NewSm", "m": m})
        gs = ["", "g", "h", "i"]
        used = {m: set() for m in ms}
        for m in ms:
            for h in hs:
                for _ in range(rng.choice([1, 1, 2])):
                    g = rng.choice(gs)
                    o = {"op": "SmAdd", "m": m, "h": h, "g": g}
                    if rng.random() < .3:
                        o["named"] = True
                    ep.append(o)
                    used[m].add(g)
        def reg(m):
            k = rng.randint(0, 3)
            pool = sorted(used[m]) if rng.random() < .9 else gs + ["nope"]
            g = [rng.choice(pool) for _ in range(k)] if rng.random() < .3 else rng.sample(pool, min(k, len(pool)))
            o = {"op": "SmReg", "m": m, "d": rng.choice(dn), "gs": g}
            if len(g) == 1 and rng.random() < .5:
                o["one"] = True
            ep.append(o)
        for m in ms:
            for _ in dn:
                reg(m)
        def distort(m):
            k = rng.randint(1, len(dn))
            o = rng.sample(dn, k)
            w = [d.replace("d", "w") for d in o]
            if rng.random() < .1:
                w = o
            ep.append({"op": "SmDistort", "m": m, "orig": o, "work": w, "norms": rng.random() < .6})
        for _ in range(rng.randint(4, 12)):
            m = rng.choice(ms)
            q = rng.random()
            if rng.random() < .06:
                # a systematic is told of other edges of the same bins
                h = rng.choice(sorted(hs))
                ep.append({"op": "SysAxes", "h": h, "axes": [axis(rng, a["name"], len(a["lo"]), True) for a in ax]})
                ep.append({"op": "SmConstruct", "m": m})
                distort(m)
            elif q < .3:
                h = rng.choice(sorted(hs))
                hs[h].params(rng, ep, h)
                if rng.random() < .6:
                    ep.append({"op": "SmConstruct", "m": m})
                    distort(m)
            elif q < .45:
                ep.append({"op": "SmConstruct", "m": m})
            elif q < .7:
                distort(m)
            elif q < .8:
                ep.append({"op": rng.choice(["SmGroup", "SmGroup2", "SmGroupN", "SmTotal"]), "m": m, "g": rng.choice(gs + ["nope"])})
            elif q < .88:
                reg(m)
            else:
                h, g = rng.choice(sorted(hs)), rng.choice(gs)
                ep.append({"op": "SmAdd", "m": m, "h": h, "g": g})
                used[m].add(g)
        eps.append(ep)
    return eps
