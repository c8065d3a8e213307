"""Seeded scripts for ParamSys."""
from vlib import hx

Q = {"PmGet", "CpGet", "CpState", "Dens", "Inside", "SqrtAt", "GaAt", "GaSample", "MgGet", "ConEval"}
NAMES = ["a", "b", "c", "energy_scale", "Bq/kg", "x_0", "x_1", "", "background_normalisation_in_u238", "background_normalisation_in_th232"]


def val(rng):
    return rng.choice([0, 1, -1, .5, 2, rng.randint(-20, 20) / 8, rng.uniform(-5, 5), 1e-9, 1e6, 1 + 2.0 ** -40, 1 - 2.0 ** -30, 2.0 ** -60])


def managers(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        d = [hx(val(rng)) for _ in range(rng.randint(1, 4))]
        c = [hx(val(rng)) for _ in range(rng.randint(0, 5) if rng.random() < .85 else rng.randint(9, 14))]
        o = {"op": "NewPm", "p": "p", "d": d, "c": c}
        if rng.random() < .4:
            o["list"] = True
        ep.append(o)
        nd, nc = len(d), len(c)
        known = {}     # name -> source, index

        def live():
            return all(s == "d" or i < nc for s, i in known.values())

        def pick(bad=.12):
            return "nope" if rng.random() < bad or not known else rng.choice(sorted(known))
        for _ in range(rng.randint(8, 30)):
            r = rng.random()
            if r < .2:
                i, nm = rng.randrange(nd), rng.choice(NAMES)
                ep.append({"op": "PmAddD", "p": "p", "i": i + 1, "name": nm})
                known[nm] = ("d", i)
            elif r < .27:
                m = nc if rng.random() < .8 else nc + rng.choice([-1, 1])
                nm = [rng.choice(NAMES) + str(k) for k in range(max(0, m))]
                ep.append({"op": "PmAddC", "p": "p", "names": nm})
                if len(nm) == nc:
                    for k, x in enumerate(nm):
                        known[x] = ("c", k)
            elif r < .32:
                ep.append({"op": "PmAddBase", "p": "p", "base": "x"})
                for k in range(nc):
                    known["x_%d" % k] = ("c", k)
            elif r < .45:
                ep.append({"op": "PmSet", "p": "p", "name": pick(), "x": hx(val(rng))})
            elif r < .55:
                ep.append({"op": "PmGet", "p": "p", "name": pick()})
            elif r < .72 and live():
                names = set(known)
                if rng.random() < .3 and names:
                    names.discard(rng.choice(sorted(names)))
                if rng.random() < .4:
                    names |= {"extra", "aa"}
                ep.append({"op": "PmSets", "p": "p", "dict": [[x, hx(val(rng))] for x in sorted(names, key=lambda _: rng.random())]})
            elif r < .82:
                f, t = pick(), rng.choice(NAMES + ["new"] + sorted(known))
                ep.append({"op": "PmRename", "p": "p", "from": f, "to": t})
                if f in known and t not in known:
                    known[t] = known.pop(f)
            elif r < .94:
                if rng.random() < .5 or not nc:
                    ep.append({"op": "Poke", "p": "p", "src": "d", "i": rng.randint(1, nd), "x": hx(val(rng))})
                else:
                    ep.append({"op": "Poke", "p": "p", "src": "c", "i": rng.randint(1, nc), "x": hx(val(rng))})
            elif r < .97:
                nc = max(0, nc + rng.choice([-1, 1, 2]))
                ep.append({"op": "Resize", "p": "p", "n": nc})
            else:
                ep.append({"op": "PmClear", "p": "p"})
                known.clear()
        eps.append(ep)
    return eps


PLAIN = {"shift": ["shift"], "scale": ["scaleFactor"], "evshift": ["shift"], "evscale": ["scale"], "evreconv": ["correction"],
         "sqrt": ["grad"], "renorm": []}
DIRECT = {"shift", "scale", "evshift", "evscale", "evreconv", "sqrt", "spectral", "gauss"}
NOCOPY = {"conv", "renorm"}


class C:
    """What the generator has to know: names of the cells of each component."""

    def __init__(self, rng):
        self.rng = rng
        self.ep = []
        self.cp = {}

    def new(self, h, kind, name=None):
        rng = self.rng
        name = name or rng.choice(["S", "sys", "my sys"])
        o = {"op": "NewCp", "h": h, "kind": kind, "name": name}
        if kind in PLAIN:
            cells = list(PLAIN[kind])
        elif kind in ("shape", "scalefn"):
            cells = rng.sample(["u", "v", "shift", "w", "b_0"], rng.randint(1, 4))
            o["j"] = cells
        elif kind == "spectral":
            o["j"] = rng.randint(1, 12)
            cells = ["%s_bin_%d" % (name, k) for k in range(o["j"])]
        else:
            n = rng.randint(1, 12 if rng.random() < .15 else 4)
            n = rng.choice([n, 1]) if n <= 4 else n
            o["j"] = {"m": [hx(val(rng)) for _ in range(n)], "s": [hx(rng.choice([.5, 1, 2, rng.uniform(.1, 4)])) for _ in range(n)]}
            if rng.random() < .15:
                o["j"] = {"m": [hx(0)] * n, "s": [hx(1)] * n}
            if rng.random() < .1:
                o["name"] = ""
            cells = ["means_%d" % k for k in range(n)] + ["stddevs_%d" % k for k in range(n)]
        self.ep.append(o)
        self.cp[h] = dict(kind=kind, cells=list(cells), dims=len(cells) // 2)

    def partial(self, h):
        return self.cp[h]["kind"] in ("gauss", "jump", "conv", "evconv", "analytic")

    def shares(self, h):
        return self.partial(h) or self.cp[h]["kind"] == "vary"

    def copy(self, h, to):
        self.ep.append({"op": "CpCopy", "h": h, "to": to})
        c = self.cp[h]
        self.cp[to] = dict(kind=c["kind"], cells=list(c["cells"]), dims=c["dims"])

    def wrap(self, h, kind, g):
        self.ep.append({"op": "Wrap", "h": h, "kind": kind, "name": "W", "g": g})
        self.cp[h] = dict(kind=kind, cells=list(self.cp[g]["cells"]), dims=self.cp[g]["dims"])

    def sigma(self, h, n):
        return self.cp[h]["kind"] in ("gauss", "jump", "conv", "evconv", "analytic")

    def value(self, h):
        # widths must stay positive for the density to mean anything: where one may be meant, use a positive number
        c = self.cp[h]
        if "was" in c and self.rng.random() < .12:      # next to the value set before
            return c["was"] * (1 + self.rng.choice([-1, 1]) * 2.0 ** -self.rng.randint(12, 26))
        c["was"] = self.value0(c)
        return c["was"]

    def value0(self, c):
        if c["kind"] in ("gauss", "jump", "conv", "evconv", "analytic", "vary", "sqrt"):
            return self.rng.choice([.5, 1, 2, 3.25, self.rng.uniform(.2, 4)])
        return val(self.rng)

    def pick(self, h, bad=.1):
        c = self.cp[h]["cells"]
        return "nope" if not c or self.rng.random() < bad else self.rng.choice(c)

    def step(self, h, others=()):
        rng = self.rng
        c = self.cp[h]
        r = rng.random()
        if r < .25:
            self.ep.append({"op": "CpSet", "h": h, "name": self.pick(h), "x": hx(self.value(h))})
        elif r < .35:
            self.ep.append({"op": "CpGet", "h": h, "name": self.pick(h)})
        elif r < .5:
            names = set(c["cells"])
            if names and rng.random() < .3:
                names.discard(rng.choice(sorted(names)))
            if rng.random() < .5:
                names |= {"nope2", "shif", "shift2"} - set(c["cells"])
            self.ep.append({"op": "CpSets", "h": h, "dict": [[x, hx(self.value(h))] for x in sorted(names, key=lambda _: rng.random())]})
        elif r < .65:
            f = self.pick(h)
            t = rng.choice(["new", "n2", "u"] + c["cells"]) if rng.random() < .9 else f
            self.ep.append({"op": "CpRename", "h": h, "from": f, "to": t})
            if f in c["cells"] and (t not in c["cells"] or self.shares(h)):
                c["cells"] = [t if x == f else x for x in c["cells"]]
        elif r < .7:
            self.ep.append({"op": "CpTitle", "h": h, "name": rng.choice(["T", "title", ""])})
        elif r < .76 and c["kind"] in ("shape", "scalefn"):
            c["cells"] = rng.sample(["u", "v", "shift", "w", "b_0"], rng.choice([len(c["cells"])] * (len(c["cells"]) < 6) + [1, 2, 3]))
            self.ep.append({"op": "CpFunc", "h": h, "j": list(c["cells"])})
        elif r < .82 and c["kind"] in DIRECT and c["cells"]:
            self.ep.append({"op": "Direct", "h": h, "k": rng.randint(1, len(c["cells"])), "x": hx(self.value(h))})
        elif r < .91 and c["kind"] == "gauss":
            self.gauss(h)
        elif r < .95 and c["kind"] in ("gauss", "jump", "vary", "analytic"):
            d = c["dims"]
            x = [hx(rng.uniform(-3, 3)) for _ in range(d)]
            x2 = [hx(rng.uniform(.5, 6)) for _ in range(d)]
            if c["kind"] == "analytic" or rng.random() < .6:
                self.ep.append({"op": "Dens", "h": h, "x": x, "x2": x2})
            else:
                lo = [rng.uniform(-3, 3) for _ in range(d)]
                self.ep.append({"op": "Inside", "h": h, "lo": [hx(v) for v in lo], "hi": [hx(v + rng.uniform(.1, 3)) for v in lo], "x2": x2})
        elif c["kind"] == "sqrt":
            self.ep.append({"op": "SqrtAt", "h": h, "x": hx(rng.uniform(0, 9))})
        else:
            self.ep.append({"op": "CpState", "h": h})


    def gauss(self, h):
        rng, n = self.rng, self.cp[h]["dims"]
        m = [hx(val(rng)) for _ in range(n)]
        w = [hx(rng.choice([.5, 1, 2, rng.uniform(.1, 4)])) for _ in range(n)]
        o = rng.choice(["GaMeans", "GaWidths", "GaCut", "GaAt", "GaSample", "GaOver"])
        e = {"op": o, "h": h}
        if o == "GaMeans":
            e["to"] = m
        elif o == "GaWidths":
            e["to"] = w
        elif o == "GaCut":
            e["x"] = hx(rng.uniform(.3, 3))
        elif o == "GaAt":
            e["k"] = rng.randint(1, n + 1)
        elif o == "GaOver":
            # over one of other dimensions, and over itself
            to = rng.choice([h + "o", h + "o", h])
            if to != h:
                self.new(to, "gauss")
            e["to"] = to
            c = self.cp[h]
            self.cp[to] = dict(kind=c["kind"], cells=list(c["cells"]), dims=c["dims"])
        self.ep.append(e)
        if o == "GaCut":
            lo = [rng.uniform(-5, 3) for _ in range(n)]
            self.ep.append({"op": "Inside", "h": h, "lo": [hx(v) for v in lo], "hi": [hx(v + rng.uniform(.1, 6)) for v in lo], "x2": []})


def components(rng, n):
    eps = []
    for _ in range(n):
        g = C(rng)
        if rng.random() < .05:      # no Gaussian at all
            m, s = rng.choice([([0], [0]), ([0, 1], [1]), ([1], [1, 2]), ([0, 0], [1, -1]), ([], [1])])
            g.ep.append({"op": "NewCp", "h": "bad", "kind": "gauss", "name": "G", "j": {"m": [hx(x) for x in m], "s": [hx(x) for x in s]}})
        kind = rng.choice(list(PLAIN) + ["shape", "scalefn", "spectral", "gauss", "gauss"])
        g.new("s", kind)
        hs = ["s"]
        for _ in range(rng.randint(5, 16)):
            g.step(rng.choice(hs))
            if "t" not in hs and rng.random() < .1 and kind not in NOCOPY:
                g.copy("s", "t")
                hs.append("t")
        for h in hs:
            g.ep.append({"op": "CpState", "h": h})
        eps.append(g.ep)
    return eps


def wrapped(rng, n):
    eps = []
    for _ in range(n):
        g = C(rng)
        g.new("g", "gauss")
        kind = rng.choice(["jump", "analytic", "conv", "evconv", "vary", "vary"])
        if kind == "evconv" or kind == "vary":
            # one dimension
            g.ep, g.cp = [], {}
            g.new("g", "gauss")
            g.ep[-1]["j"] = {"m": g.ep[-1]["j"]["m"][:1], "s": g.ep[-1]["j"]["s"][:1]}
            g.cp["g"] = dict(kind="gauss", cells=["means_0", "stddevs_0"], dims=1)
        if kind == "vary":
            k = rng.choice([["means_0"], ["stddevs_0"], ["means_0", "stddevs_0"]])
            deps = []
            for j, p in enumerate(k):
                h = "q%d" % j
                g.new(h, "sqrt")
                if rng.random() < .7:
                    g.ep.append({"op": "CpRename", "h": h, "from": "grad", "to": "g_" + p})
                    g.cp[h]["cells"] = ["g_" + p]
                if rng.random() < .7:
                    g.ep.append({"op": "Direct", "h": h, "k": 1, "x": hx(rng.uniform(.3, 2))})
                deps.append([p, h])
            g.ep.append({"op": "NewVary", "h": "s", "name": "V", "g": "g", "deps": deps})
            if rng.random() < .3:
                g.ep[-1]["cond"] = 1
            g.cp["s"] = dict(kind="vary", cells=[g.cp[h]["cells"][0] for _, h in deps], dims=1)
        else:
            g.wrap("s", kind, "g")
        hs = ["s"]
        for _ in range(rng.randint(5, 14)):
            # what was put in must not matter afterwards
            h = rng.choice(sorted(g.cp)) if rng.random() < .25 else rng.choice(hs)
            if h in hs and kind in ("vary", "jump") and rng.random() < .12:
                g.ep.append({"op": "CoSample", "h": h, "x2": [hx(rng.uniform(.5, 6)) for _ in range(g.cp[h]["dims"])]})
            elif h == "s" and kind == "vary" and rng.random() < .2:
                if rng.random() < .4:
                    g.ep.append({"op": "VaKer", "h": h, "g": "g"})
                    if rng.random() < .4:
                        g.ep[-1]["cond"] = 1
                else:
                    p, q = rng.choice(["means_0", "stddevs_0"]), rng.choice([x for x in g.cp if x[0] == "q"])
                    if p in k:
                        g.cp[h]["cells"][k.index(p)] = g.cp[q]["cells"][0]
                    else:
                        k = k + [p]
                        g.cp[h]["cells"].append(g.cp[q]["cells"][0])
                    g.ep.append({"op": "VaDep", "h": h, "name": p, "g": q})
            else:
                g.step(h)
            if "t" not in hs and rng.random() < .15 and kind not in NOCOPY:
                g.copy("s", "t")
                hs.append("t")
        for h in hs:
            g.ep.append({"op": "CpState", "h": h})
        eps.append(g.ep)
    return eps


def groups(rng, n):
    eps = []
    for _ in range(n):
        g = C(rng)
        hs = []
        for k in range(rng.randint(2, 5)):
            h = "c%d" % k
            kind = rng.choice(["shift", "scale", "evshift", "shape", "scalefn", "spectral", "sqrt", "evscale"])
            g.new(h, kind, h)
            hs.append(h)
        g.ep.append({"op": "NewMg", "m": "m"})
        inn = []
        for _ in range(rng.randint(8, 20)):
            r = rng.random()
            allnames = sorted({x for h in inn for x in g.cp[h]["cells"]})
            if r < .3 and len(inn) < len(hs):
                h = rng.choice([x for x in hs if x not in inn])
                g.ep.append({"op": "MgAdd", "m": "m", "h": h})
                inn.append(h)
            elif r < .55:
                names = set(allnames)
                if names and rng.random() < .35:
                    names.discard(rng.choice(sorted(names)))
                if rng.random() < .4:
                    names |= {"zzz"}
                g.ep.append({"op": "MgSets", "m": "m", "dict": [[x, hx(val(rng))] for x in sorted(names)] if rng.random() < .95 else []})
            elif r < .7:
                g.ep.append({"op": "MgGet", "m": "m", "name": rng.choice(allnames + ["nope"])})
            elif r < .73:
                g.ep.append({"op": "MgClear", "m": "m"})
                inn = []
            else:
                g.step(rng.choice(hs))
        eps.append(g.ep)
    return eps


def lattice(rng, names):
    axs, n = [], 1
    for x in names:
        k = rng.randint(2, 5)
        e = [rng.randint(-4, 2) / 2]
        for _ in range(k):
            e.append(e[-1] + rng.choice([.5, 1, 2, 1.25]))
        axs.append({"name": x, "lo": [hx(v) for v in e[:-1]], "hi": [hx(v) for v in e[1:]]})
        n *= k
    return axs, [hx(rng.choice([0, 1, rng.randint(0, 40) / 4, rng.uniform(0, 9)])) for _ in range(n)]


def constraints(rng, n):
    eps = []
    for _ in range(n):
        P = rng.choice([list("abcde"), list("edcba"), ["e", "E", "e1", "e10", "ee"], ["n_2", "n_10", "n", "N", "Bq/kg"]])
        ep = [{"op": "NewCon", "c": "k"}]
        cs = ["k"]
        axes = []
        for _ in range(rng.randint(5, 18)):
            c = rng.choice(cs)
            r = rng.random()
            w = lambda: hx(rng.choice([.5, 1, 2, rng.uniform(.05, 3)]))
            if r < .16:
                o = {"op": "ConInd", "c": c, "name": rng.choice(P), "m": hx(val(rng)), "hi": w()}
                if rng.random() < .5:
                    o["lo"] = w()
                ep.append(o)
            elif r < .28:
                a, b = rng.sample(P, 2)
                ep.append({"op": "ConPair", "c": c, "a": a, "m1": hx(val(rng)), "s1": w(), "b": b, "m2": hx(val(rng)), "s2": w(),
                           "corr": hx(rng.choice([0, .5, -.5, .9, rng.uniform(-.95, .95), 1, -1.5]))})
            elif r < .4:
                a, b = rng.sample(P, 2)
                ep.append({"op": rng.choice(["ConRatio", "ConFrac"]), "c": c, "a": a, "b": b, "m": hx(rng.uniform(0, 2)), "s": w()})
            elif r < .48:
                ax, v = lattice(rng, rng.sample(P, rng.randint(1, 3)))
                axes.append(ax)
                ep.append({"op": "ConInterp", "c": c, "label": rng.choice(["L", "M"]), "axes": ax, "vals": v})
            elif r < .55:
                ns = rng.sample(P, rng.randint(1, 3))
                ep.append({"op": "ConShape", "c": c, "dict": [[x, hx(rng.choice([0, 1]))] for x in sorted(ns)],
                           "co": [[x, hx(rng.choice([1, -1, .5, 2]))] for x in sorted(ns)], "m": hx(val(rng)), "s": w()})
            elif r < .6 and len(cs) < 3:
                to = "k%d" % len(cs)
                ep.append({"op": "CopyCon", "c": c, "to": to})
                cs.append(to)
            else:
                d = {x: rng.choice([val(rng), rng.uniform(.1, 3)]) for x in P}
                # mostly inside the lattices
                for ax in axes:
                    for a in ax:
                        lo = (float.fromhex(a["lo"][0]) + float.fromhex(a["hi"][0])) / 2
                        hi = (float.fromhex(a["lo"][-1]) + float.fromhex(a["hi"][-1])) / 2
                        if rng.random() < .93:
                            d[a["name"]] = rng.choice([lo, rng.uniform(lo, hi), rng.uniform(lo, hi), (lo + hi) / 2])
                if rng.random() < .08:
                    d.pop(rng.choice(P))
                if rng.random() < .3:
                    d["zz"] = 1.
                ep.append({"op": "ConEval", "c": c, "dict": [[x, hx(v)] for x, v in sorted(d.items())]})
        eps.append(ep)
    return eps
