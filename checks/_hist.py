"""Seeded scripts for HistSys."""
import math
from vlib import hx

NAMES = ["e", "e2", "r", "re", "E"]


def axis(rng, name, maxb=4):
    nb = rng.randint(1, maxb)
    r = rng.random()
    if r < .5:
        lo = rng.randint(-8, 8) / 4
        w = rng.choice([.25, .5, 1, 2])
        e = [lo + i * w for i in range(nb + 1)]
    else:
        e = [rng.randint(-16, 16) / 8]
        for _ in range(nb):
            e.append(e[-1] + rng.randint(1, 16) / 8)
    a = {"name": name, "lo": [hx(x) for x in e[:-1]], "hi": [hx(x) for x in e[1:]]}
    if rng.random() < .3:
        a["latex"] = rng.choice(["$%s_T$" % name, "q"])
    return a, e


class G:
    """One episode: keeps what the generator needs to know (axes of each handle)."""

    def __init__(self, rng):
        self.rng = rng
        self.ep = []
        self.ax = {}     # handle -> list of (name, edges)
        self.kind = {}

    def shape(self, nd=None, maxb=4):
        rng = self.rng
        nd = nd or rng.choice([1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5])
        names = rng.sample(NAMES, nd)
        out = []
        if nd == 1 and rng.random() < .06:
            maxb = 130
        elif nd == 2 and rng.random() < .04:
            maxb = 14
        for n in names:
            out.append(axis(rng, n, maxb if nd < 4 else 3 if nd == 4 else 2))
        return [o[0] for o in out], [(o[0]["name"], o[1]) for o in out]

    def new(self, h, shape=None, fill=True, kind=None, distinct=False):
        rng = self.rng
        axs, known = shape or self.shape()
        self.ax[h] = known
        self.kind[h] = kind or rng.choice("HB")
        n = self.nb(h)
        neg = rng.random() < .15
        if fill and rng.random() < .9:
            if distinct:
                vals = [i + 1 for i in range(n)]
                rng.shuffle(vals)
            else:
                vals = [rng.choice([0, 0, 1, 2, rng.randint(0, 50) / 4, rng.randint(-3 if neg else 0, 50) / 4]) for _ in range(n)]
            self.ep.append({"op": "NewWith", "h": h, "kind": self.kind[h], "axes": axs, "c": [hx(v) for v in vals]})
        else:
            self.ep.append({"op": "New", "h": h, "kind": self.kind[h], "axes": axs})
        return axs, known

    def nb(self, h):
        return math.prod(len(e) - 1 for _, e in self.ax[h])

    def val(self, e):
        rng = self.rng
        r = rng.random()
        if r < .3:
            return rng.choice(e)
        if r < .36:
            return rng.choice([-1e9, 1e9, -0.0, math.inf, -math.inf])
        if r < .4:
            return math.nextafter(rng.choice(e), rng.choice([-math.inf, math.inf]))
        return rng.uniform(e[0] - 1, e[-1] + 1)

    def vals(self, h):
        return [self.val(e) for _, e in self.ax[h]]

    def fill(self, h):
        rng = self.rng
        r = rng.random()
        w = rng.choice([1, 1, .5, 2.25, rng.uniform(0, 3), -1])
        if r < .6:
            v = [hx(x) for x in self.vals(h)]
            if rng.random() < .06:
                v = v[:-1] if rng.random() < .5 and len(v) > 1 else v + [hx(0)]
            o = {"op": "Fill", "h": h, "vals": v, "w": hx(w)}
            if rng.random() < .3:
                o[rng.choice(["one", "unit"])] = True
        else:
            m = [[n, hx(self.val(e))] for n, e in self.ax[h]]
            if rng.random() < .3:
                m.append(["extra", hx(3)])
            if rng.random() < .15:
                m.pop(0)
            if not m:
                m = [["nope", hx(1)]]
            rng.shuffle(m)
            o = {"op": "FillMap", "h": h, "m": m, "w": hx(w)}
        self.ep.append(o)


def odd_sizes(rng, ep):
    """Some episodes again with all contents very small or very large, or with very small ones among the others."""
    if rng.random() > .2:
        return ep
    mag = rng.choice([2.**-45, 2.**-32, 2.**-24, 2.**40])
    each = rng.random() < .4
    def f(x):
        return x if x in ("0x1p-1022",) or (each and rng.random() < .5) else hx(float.fromhex(x) * mag)
    out = []
    for o in ep:
        o = dict(o)
        if o["op"] in ("Fill", "FillMap"):
            o["w"] = f(o["w"])
        elif o["op"] in ("SetBin", "AddBin"):
            o["x"] = f(o["x"])
        elif o["op"] == "SetAll":
            o["x"] = [f(x) for x in o["x"]]
        elif o["op"] == "NewWith":
            o["c"] = [f(x) for x in o["c"]]
        elif o["op"] == "Pad":
            o["p"] = f(o["p"])
        out.append(o)
    return out


def near(rng, sh):
    """A shape that differs from sh in one detail only."""
    known = [(n, list(e)) for n, e in sh[1]]
    i = rng.randrange(len(known))
    n, e = known[i]
    r = rng.random()
    if r < .3:
        e[-1] += .125
    elif r < .5:
        e[0] -= .125
    elif r < .65 and len(e) > 2:
        k = rng.randrange(1, len(e) - 1)
        e[k] = (e[k] + e[k + 1]) / 2
    elif r < .8 and len(known) > 1:
        known.reverse()
    elif r < .9 and len(known) > 1:
        known.pop(i)
    else:
        e.append(e[-1] + 1)
    axs = [{"name": n, "lo": [hx(x) for x in e[:-1]], "hi": [hx(x) for x in e[1:]]} for n, e in known]
    return axs, known


def algebra(rng, n, steps=25):
    eps = []
    for _ in range(n):
        g = G(rng)
        sh = g.shape()
        g.new("a", sh)
        if rng.random() < .6:
            # the same edges under other names are the same binning
            sh2 = sh if rng.random() < .7 else ([dict(a, name=a["name"] + "'") for a in sh[0]], [(n_ + "'", e) for n_, e in sh[1]])
            g.new("b", sh2)
        elif rng.random() < .7:
            g.new("b", near(rng, sh))
        else:
            g.new("b")
        hs = ["a", "b"]
        for _ in range(rng.randint(3, steps)):
            h = rng.choice(hs)
            o = rng.choice(hs)
            r = rng.random()
            b = rng.choice([0, g.nb(h) - 1, rng.randrange(g.nb(h)), rng.randrange(g.nb(h)), g.nb(h), g.nb(h) + 1 + rng.randrange(4)])
            if r < .3:
                g.fill(h)
            elif r < .36:
                g.ep.append({"op": "SetBin", "h": h, "b": b, "x": hx(rng.randint(0, 40) / 8)})
            elif r < .42:
                g.ep.append({"op": "AddBin", "h": h, "b": b, "x": hx(rng.randint(-8, 40) / 8)})
            elif r < .47:
                g.ep.append({"op": "GetBin", "h": h, "b": b})
                x = rng.random()
                if x < .4:
                    g.ep.append({"op": "BinAt", "h": h, "b": b})
                    if rng.random() < .1:
                        g.ep[-1]["room"] = len(g.ax[h]) + rng.choice([-1, 1])
                elif x < .7:
                    g.ep.append({"op": "Where", "h": h, "vals": [hx(v) for v in g.vals(h)] + ([hx(0)] if rng.random() < .1 else [])})
                elif x < .8:
                    g.ep.append({"op": "AxisNo", "h": h, "name": rng.choice([g.ax[h][-1][0], g.ax[h][0][0], "nope"])})
                elif x < .9 and g.kind[h] == "B":
                    g.ep.append({"op": "SetObs", "h": h, "names": [a[0] for a in g.ax[h]]})
            elif r < .51:
                k = g.nb(h) + (rng.choice([-1, 1]) if rng.random() < .3 else 0)
                g.ep.append({"op": "SetAll", "h": h, "x": [hx(rng.randint(0, 40) / 8) for _ in range(k)]})
            elif r < .56:
                g.ep.append({"op": "Scale", "h": h, "k": hx(rng.choice([.5, 2, 3, .1, 0, 1, 1 + 2.**-27, 2.**-36, -1]))})
            elif r < .61:
                if rng.random() < .25:
                    # all but normalised already
                    k = g.nb(h)
                    x = [1. / k] * k
                    x[rng.randrange(k)] += rng.choice([2.**-22, -2.**-25, 2.**-12])
                    g.ep.append({"op": "SetAll", "h": h, "x": [hx(y) for y in x]})
                g.ep.append({"op": "Normalise", "h": h})
            elif r < .63:
                g.ep.append({"op": "Empty", "h": h})
            elif r < .67:
                g.ep.append({"op": "Pad", "h": h, "p": rng.choice([hx(1e-3), hx(.5), "0x1p-1022"])})
            elif r < .75:
                o_ = {"op": "Add", "h": h, "g": o, "w": hx(rng.choice([1, 1, 2, .5, -.5, 0]))}
                if rng.random() < .3:
                    o_["unit"] = True
                g.ep.append(o_)
            elif r < .79:
                g.ep.append({"op": "Mul", "h": h, "g": o})
            elif r < .83:
                g.ep.append({"op": "Div", "h": h, "g": o})
            elif r < .88:
                g.ep.append({"op": "Integral", "h": h})
            elif r < .92:
                e = g.ax[h][0][1]
                g.ep.append({"op": "Range", "h": h, "a": hx(g.val(e)), "b": hx(g.val(e))})
            elif r < .94:
                g.ep.append({"op": "Means", "h": h})
            elif r < .96:
                g.ep.append({"op": "Vars", "h": h})
            elif r < .98:
                g.ep.append({"op": "Prob", "h": h, "vals": [hx(x) for x in g.vals(h)] + ([hx(0)] if rng.random() < .1 else [])})
            else:
                g.ep.append({"op": "Copy", "h": h, "to": "k"})
                g.ax["k"], g.kind["k"] = g.ax[h], g.kind[h]
                if "k" not in hs:
                    hs.append("k")
        for h in hs:
            g.ep.append({"op": "Integral", "h": h})
        eps.append(odd_sizes(rng, g.ep))
    return eps


def projections(rng, n):
    eps = []
    for _ in range(n):
        g = G(rng)
        sh = g.new("a", distinct=True)
        for _ in range(rng.randint(0, 3)):
            g.fill("a")
        src = ["a"]
        for k in range(rng.randint(2, 6)):
            h = rng.choice(src)
            names = [x for x, _ in g.ax[h]]
            r = rng.random()
            if r < .4:
                pick = rng.sample(names, rng.randint(1, len(names)))
                if rng.random() < .12:
                    pick.append(rng.choice(["nope", pick[0]]))
                o = {"op": "Marg", "h": h, "names": pick, "to": "m%d" % k}
                if len(pick) == 1 and rng.random() < .5:
                    o["one"] = True
                g.ep.append(o)
                if len(set(pick)) == len(pick) and "nope" not in pick:
                    g.ax["m%d" % k] = [(x, dict(g.ax[h])[x]) for x in pick]
                    g.kind["m%d" % k] = g.kind[h]
                    src.append("m%d" % k)
            elif r < .75:
                nf = rng.randint(1, max(1, len(names) - 1))
                if rng.random() < .1:
                    nf = len(names)
                pick = rng.sample(names, min(nf, len(names)))
                fx = [[x, rng.randrange(len(dict(g.ax[h])[x]) - 1)] for x in pick]
                okk = len(pick) < len(names)
                if rng.random() < .12:
                    j = rng.randrange(len(fx))
                    fx[j][1] = len(dict(g.ax[h])[fx[j][0]]) - 1 + rng.randrange(2)
                    okk = False
                if rng.random() < .08:
                    fx[0][0] = "nope"
                    okk = False
                g.ep.append({"op": "Slice", "h": h, "fixed": fx, "to": "s%d" % k})
                if okk:
                    g.ax["s%d" % k] = [(x, e) for x, e in g.ax[h] if x not in pick]
                    g.kind["s%d" % k] = g.kind[h]
                    src.append("s%d" % k)
            elif r < .83:
                g.ep.append({"op": "Projs", "h": h})
            elif r < .9:
                g.ep.append({"op": "Slices1", "h": h, "axis": rng.choice(names)})
            elif r < .96:
                combs = [[x] for x in rng.sample(names, rng.randint(1, len(names)))]
                if len(names) > 1:
                    for _ in range(rng.randint(0, 3)):
                        combs.append(rng.sample(names, 2))
                fills = [[[x, hx(g.val(e))] for x, e in g.ax[h]] for _ in range(rng.randint(0, 4))]
                uniq = []
                for c in combs:
                    if c not in uniq:
                        uniq.append(c)
                g.ep.append({"op": "Family", "h": h, "combs": uniq, "fills": fills})
            elif all(len(e) > 2 for _, e in g.ax[h]):
                v = []
                for _, e in g.ax[h]:
                    c = [(a + b) / 2 for a, b in zip(e, e[1:])]
                    v.append(rng.choice([c[0], rng.uniform(c[0], c[-1])]) if rng.random() < .8 else c[rng.randrange(len(c) - 1)])
                    if v[-1] >= c[-1]:
                        v[-1] = c[0]
                g.ep.append({"op": "Lattice", "h": h, "vals": [hx(x) for x in v]})
        eps.append(odd_sizes(rng, g.ep))
    return eps


def shrinking(rng, n):
    eps = []
    for _ in range(n):
        g = G(rng)
        sh = g.shape(maxb=6)
        g.new("a", sh, kind="B" if rng.random() < .8 else "H")
        ep = g.ep
        if g.kind["a"] == "B":
            ep.append({"op": "SetObs", "h": "a", "names": [x for x, _ in sh[1]]})
        ep.append({"op": "NewShr", "s": "s"})
        names = [x for x, _ in sh[1]]
        hs = ["a"]
        if rng.random() < .5:
            g.new("b", sh, kind="B")
            hs.append("b")
        for rnd in range(rng.randint(1, 3)):
            if rng.random() < .5:
                ep.append({"op": "SetOv", "s": "s", "b": rng.random() < .6})
            for x in rng.sample(names, rng.randint(0, len(names))):
                nb = len(dict(g.ax["a"])[x]) - 1
                lo = rng.randint(0, nb - 1)
                hi = rng.randint(0, nb - 1 - lo)
                if rng.random() < .05:
                    hi += 3
                ep.append({"op": "SetBuffer", "s": "s", "name": x, "lo": lo, "hi": hi})
            if rng.random() < .2:
                ep.append({"op": "SetBuffer", "s": "s", "name": "other", "lo": 1, "hi": 2})
            ep.append({"op": "SetMap", "s": "s", "h": rng.choice(hs)})
            ok = True
            bufs = {}
            for o in ep:
                if o["op"] == "SetBuffer":
                    bufs[o["name"]] = (o["lo"], o["hi"])
            for x, e in g.ax["a"]:
                lo, hi = bufs.get(x, (0, 0))
                if (lo or hi) and lo + hi >= len(e) - 1:
                    ok = False
            if ok:
                for k in range(rng.randint(1, 3)):
                    h = rng.choice(hs)
                    if rng.random() < .5:
                        g.fill(h)
                    ep.append({"op": "ShrinkDist", "s": "s", "h": h, "to": "t%d" % k})
                    ep.append({"op": "Integral", "h": "t%d" % k})
            else:
                break
        for x in names[:2] + ["other", "nope"]:
            ep.append({"op": "GetBuffer", "s": "s", "name": x})
        a, e = axis(rng, "q", 6)
        for _ in range(2):
            ep.append({"op": "ShrinkAxis", "s": "s", "h": "a", "axis": a, "lo": rng.randint(0, 3), "hi": rng.randint(0, 3)})
        eps.append(odd_sizes(rng, ep))
    return eps
