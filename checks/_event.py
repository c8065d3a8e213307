"""Seeded scripts for EventSys."""
import math
from vlib import hx
from _hist import axis

PLAIN = ["e", "r", "theta", "mult", "e_mc", "R2"]
# names of which one begins, ends or sorts like another
ALIKE = ["e", "E", "e1", "e10", "e2", "ee", "_e", "1e", "e_"]
MANY = ["x%d" % i for i in range(14)]
NAMES = list(PLAIN)     # those of the present episode
ODD = [1, math.nextafter(1, 2), math.nextafter(1, 0), -1, math.nextafter(-1, 0), 0, -0.0, 5e-324, -5e-324, 1e-300, 1e300, -1e300, 1e17, 1e17 + 16, math.inf, -math.inf]
KINDS = ["shift", "scale", "reconv"]
PNAME = {"shift": "shift", "scale": "scale", "reconv": "correction", "conv": "width"}


class G:
    def __init__(self, rng):
        self.rng = rng
        self.ep = []
        self.ds = {}    # handle -> (names, nrows)
        r = rng.random()
        NAMES[:] = PLAIN if r < .75 else ALIKE if r < .9 else MANY
        self.odd = False        # values that are next to each other, tiny or huge

    def add(self, op, **kw):
        d = {"op": op}
        d.update(kw)
        self.ep.append(d)

    def val(self):
        rng = self.rng
        if self.odd and rng.random() < .7:
            return rng.choice(ODD)
        return rng.choice([0, 1, -1, .5, 2, rng.randint(-12, 24) / 4, rng.uniform(-3, 6)])

    def data(self, h, names=None, n=None):
        rng = self.rng
        names = names or rng.sample(NAMES, rng.randint(5, 13) if NAMES[0] == "x0" and rng.random() < .6 else rng.randint(2, 4))
        n = rng.randint(1, 12) if n is None else n
        if n and len(names) < 5 and rng.random() < .03:
            n = rng.randint(30, 90)
        self.add("NewDs", d=h)
        late = rng.random() < .3      # names may come after the events
        if not late:
            self.add("SetNames", d=h, names=names)
        for _ in range(n):
            self.add("AddEntry", d=h, row=[hx(self.val()) for _ in names])
        if late:
            self.add("SetNames", d=h, names=names)
        self.ds[h] = (names, n)
        return names

    def idx(self, h):
        n = self.ds[h][1]
        r = self.rng.random()
        return n + self.rng.randrange(3) if r < .06 else self.rng.randrange(max(1, n))

    def obs(self, h, bad=.05):
        return "nope" if self.rng.random() < bad else self.rng.choice(self.ds[h][0])

    def cut(self, names, k, bad=.03):
        rng = self.rng
        o = "nope" if rng.random() < bad else rng.choice(names)
        kind = rng.choice(["bool", "line", "box", "line", "box"])
        c = {"kind": kind, "name": rng.choice(["%s%d" % (kind, k), kind, "cut"]), "obs": o}
        if kind == "bool":
            c["a"] = hx(rng.choice([0, 1, .5]))
        elif kind == "line":
            c["a"] = hx(self.val())
            c["side"] = rng.choice(["lower", "upper"])
        else:
            a, b = sorted([self.val(), self.val()])
            c["a"], c["b"] = hx(a), hx(b)
        return c

    def sys(self, s, names, kind=None):
        rng = self.rng
        kind = kind or rng.choice(KINDS)
        self.add("NewSys", s=s, kind=kind)
        self.add("SysOut", s=s, names=[rng.choice(names)] + (rng.sample(names, 1) if rng.random() < .2 else []))
        if kind == "reconv" or rng.random() < .3:
            self.add("SysIn", s=s, names=[rng.choice(names)])
        if kind == "conv" and rng.random() < .9:
            self.kern(s)
        if rng.random() < .9:
            self.add("SysVal", s=s, x=hx(rng.choice([.5, 2, 1.25, 3, -1.5])))
        return kind

    def kern(self, s, how=None):
        o = {"op": "SysKern", "s": s, "how": how or self.rng.choice(["pdf", "pdf", "cond", "wide"])}
        if self.rng.random() < .5:
            o["cond"] = True
        self.ep.append(o)

    def draws(self):
        return [hx(self.rng.choice([0, 1, -1, .5, self.rng.uniform(-3, 3)])) for _ in range(24)]

    def axes(self, names):
        return [axis(self.rng, n + rng_suffix(self.rng), 4)[0] for n in names]

    def binned(self, h, names, name=None, fill=True):
        axs = self.axes(names)
        n = 1
        for a in axs:
            n *= len(a["lo"])
        fill = fill and self.rng.random() > .06
        c = [self.rng.randint(1, 9) if fill else 0 for _ in range(n)]
        self.add("NewB", h=h, name=name or h, axes=axs, c=[hx(x) for x in c], obs=names)
        return axs

    def analytic(self, h, names, name=None):
        self.add("NewA", h=h, name=name or h, k=hx(self.rng.choice([1, 2, .5, 3])),
                 co=[hx(self.rng.choice([1, -1, .5, 2, 3])) for _ in names], obs=names)


def rng_suffix(rng):
    return "" if rng.random() < .7 else "_axis"


def datasets(rng, n):
    eps = []
    for _ in range(n):
        g = G(rng)
        g.odd = rng.random() < .15
        names = g.data("a")
        hs = ["a"]
        if rng.random() < .5:
            # concatenation needs as many observables, not the same names
            other = names if rng.random() < .6 else rng.sample(NAMES, len(names) if rng.random() < .8 else len(names) + 1)
            g.data("b", other)
            hs.append("b")
        for k in range(rng.randint(6, 22)):
            h = rng.choice(hs)
            r = rng.random()
            if r < .12:
                to = rng.choice(["c", "b", "d"])
                if to != h:
                    o = {"op": "CopyDs", "d": h, "to": to}
                    if rng.random() < .4:
                        o["drop"] = True
                    g.ep.append(o)
                    g.ds[to] = g.ds[h]
                    if to not in hs:
                        hs.append(to)
            elif r < .24:
                e = rng.choice(hs)
                a, b = g.ds[h], g.ds[e]
                g.add("Concat", d=h, e=e, to="s")
                if len(a[0]) == len(b[0]):
                    g.ds["s"] = (a[0], a[1] + b[1])
                    if "s" not in hs:
                        hs.append("s")
                g.add("DsState", d=h)
                g.add("DsState", d=e)
            elif r < .34:
                w = len(g.ds[h][0]) + (rng.choice([-1, 1]) if rng.random() < .25 else 0)
                o = {"reserve": rng.choice([0, 1, 2, 5, 40])} if rng.random() < .3 else {}
                g.add("AddEntry", d=h, row=[hx(g.val()) for _ in range(w)], **o)
                if w == len(g.ds[h][0]):
                    g.ds[h] = (g.ds[h][0], g.ds[h][1] + 1)
            elif r < .42:
                nm = rng.sample(NAMES, len(g.ds[h][0]))
                g.add("SetNames", d=h, names=nm)
                g.ds[h] = (nm, g.ds[h][1])
            elif r < .52:
                g.add("GetEntry", d=h, i=g.idx(h))
            elif r < .62:
                g.add("Datum", d=h, i=g.idx(h), name=g.obs(h))
            elif r < .68:
                g.add("DatumAt", d=h, i=g.idx(h), k=rng.randrange(len(g.ds[h][0]) + 1))
            elif r < .78:
                nm = rng.sample(g.ds[h][0], rng.randint(1, len(g.ds[h][0])))
                if rng.random() < .1:
                    nm.append("nope")
                g.add("ToObs", d=h, i=g.idx(h), names=nm)
            elif r < .9:
                ms = []
                for _ in range(rng.randint(1, 3)):
                    if rng.random() < .6:
                        ms.append({"name": g.obs(h), "x": hx(g.val())})
                    else:
                        ms.append({"at": rng.randrange(len(g.ds[h][0]) + (rng.random() < .1)), "x": hx(g.val())})
                g.add("EvMut", d=h, i=g.idx(h), sets=ms)
            elif r < .95:
                big = rng.sample(NAMES, rng.randint(2, 5))
                of = rng.sample(big, rng.randint(1, len(big))) if rng.random() < .8 else rng.sample(NAMES, rng.randint(1, 5))
                o = {"op": "RelIdx", "of": of}
                o["in"] = big
                g.ep.append(o)
            else:
                row = [hx(g.val()) for _ in range(rng.randint(1, 3))]
                o = {"op": "FreeEv", "row": row}
                q = rng.random()
                if q < .3:
                    o["name"] = "e"
                elif q < .5:
                    o["put"] = "e"
                elif q < .7:
                    o["obs"] = ["e"]
                else:
                    o["k"] = rng.randrange(4)
                g.ep.append(o)
        for h in hs:
            g.add("DsState", d=h)
        eps.append(g.ep)
    return eps


def cuts(rng, n):
    eps = []
    for _ in range(n):
        g = G(rng)
        g.odd = rng.random() < .15
        names = g.data("a", n=rng.randint(3, 15))
        g.add("NewCuts", c="c")
        for k in range(rng.randint(0, 4)):
            g.add("AddCut", c="c", cut=g.cut(names, k))
        if rng.random() < .1:
            g.add("AddCut", c="c", cut={"kind": "line", "name": "bad", "obs": names[0], "a": hx(1), "side": "left"})
        g.add("CutNames", c="c")
        cs = ["c"]
        if rng.random() < .4:
            if rng.random() < .5:
                g.add("NewCuts", c="k")
                g.add("AddCut", c="k", cut=g.cut(names, 8))
            g.add("CopyCuts", c="c", to="k")
            g.add("AddCut", c=rng.choice(["c", "k"]), cut=g.cut(names, 9))
            cs.append("k")
            g.add("CutNames", c="c")
            g.add("CutNames", c="k")
        logs = []
        for c in cs:
            g.add("NewLogOf", g="g" + c, c=c)
            logs.append(("g" + c, c))
        if rng.random() < .2:
            g.add("NewLog", g="own", names=["first", "second"])
            logs.append(("own", rng.choice(cs)))
        for k in range(rng.randint(5, 30)):
            lg, c = rng.choice(logs)
            r = rng.random()
            if r < .6:
                g.add("PassLog", c=c, g=lg, d="a", i=g.idx("a"))
            elif r < .75:
                g.add("Pass", c=c, d="a", i=g.idx("a"))
            elif r < .8:
                g.add("LogPass", g=lg)
            elif r < .85:
                g.add("LogCut", g=lg, k=rng.randrange(4))
            elif r < .95:
                o = {"op": "QLog", "g": lg}
                if rng.random() < .2:
                    o["file"] = True
                elif rng.random() < .1:
                    o["nofile"] = True
                g.ep.append(o)
            else:
                g.add("AddCut", c=c, cut=g.cut(names, 10 + k))
        for lg, c in logs:
            g.add("QLog", g=lg)
        eps.append(g.ep)
    return eps


def own_cuts(rng, n):
    """Cuts outside collections: set, copied, added to a collection, set again."""
    eps = []
    for _ in range(n):
        g = G(rng)
        g.odd = rng.random() < .15
        names = g.data("a", n=rng.randint(3, 12))
        g.add("NewCuts", c="c")
        ks = {}
        for k in ("k0", "k1", "k2")[:rng.randint(1, 3)]:
            c = g.cut(names, 0)
            if rng.random() < .85 and c["kind"] == "bool":
                c = g.cut(names, 0)
            g.add("NewK", k=k, cut=c)
            ks[k] = c["kind"]
        if rng.random() < .1:
            g.add("NewK", k="k9", cut={"kind": "line", "name": "bad", "obs": names[0], "a": hx(1), "side": rng.choice(["left", ""])})
        inc = 0
        for _ in range(rng.randint(8, 25)):
            k = rng.choice(sorted(ks))
            r = rng.random()
            if r < .3:
                g.add("KPass", k=k, d="a", i=g.idx("a"))
            elif r < .6 and ks[k] != "bool":
                f = rng.choice(["a", "side", "side"] if ks[k] == "line" else ["a", "b"])
                x = rng.choice(["upper", "lower", "lower", "upper", "Upper", "up", ""]) if f == "side" else hx(g.val())
                g.add("KSet", k=k, f=f, x=x)
                if rng.random() < .5:
                    g.add("KGet", k=k)
            elif r < .68:
                g.add("KGet", k=k)
            elif r < .75:
                to = rng.choice(["k0", "k1", "k2", "k3"])
                if to != k:
                    g.add("KCopy", k=k, to=to)
                    ks[to] = ks[k]
            elif r < .85 and inc < 5:
                g.add("KAdd", c="c", k=k)
                inc += 1
            elif r < .95:
                g.add("Pass", c="c", d="a", i=g.idx("a"))
            else:
                g.add("CutNames", c="c")
        for k in sorted(ks):
            g.add("KGet", k=k)
        eps.append(g.ep)
    return eps


def systematics(rng, n):
    eps = []
    for _ in range(n):
        g = G(rng)
        names = g.data("a")
        ss = {}
        for k in range(rng.randint(1, 4)):
            ss["s%d" % k] = g.sys("s%d" % k, names, "conv" if rng.random() < .25 else None)
        pn = {s: PNAME[k] for s, k in ss.items()}
        if rng.random() < .1:
            g.add("NewSys", s="bare", kind=rng.choice(KINDS))
            g.add("Apply", s="bare", d="a", i=0)
        g.add("NewMan", m="m")
        for k in range(rng.randint(6, 24)):
            s = rng.choice(list(ss))
            if ss[s] == "conv" and rng.random() < .1:
                how = rng.choice(["pdf", "cond", "none", "wide"])
                g.kern(s, how)
                if how != "wide":
                    pn[s] = "width"
                continue
            r = rng.random()
            if r < .2:
                g.add("Apply", s=s, d="a", i=g.idx("a"), u=g.draws())
            elif r < .3:
                g.add("SysVal", s=s, x=hx(rng.choice([.5, 2, 3, 1, 0, -1, -2])))
            elif r < .4:
                o = {"op": "SysPar", "s": s, "name": pn[s] if rng.random() < .85 else "other", "x": hx(rng.choice([.5, 2, 3, -1]))}
                if rng.random() < .4:
                    o["dict"] = True
                g.ep.append(o)
            elif r < .46:
                new = rng.choice(["p", "q", "corr"])
                old = pn[s] if rng.random() < .85 else "other"
                g.ep.append({"op": "SysRename", "s": s, "from": old, "to": new})
                if old == pn[s]:
                    pn[s] = new
            elif r < .52:
                g.add("SysOut", s=s, names=[rng.choice(names + ["nope"])])
            elif r < .57:
                g.add("SysIn", s=s, names=[rng.choice(names + ["nope"])])
            elif r < .72:
                g.add("ManAdd", m="m", s=s)
            elif r < .74:
                g.add("ManClear", m="m")
            elif r < .78:
                nm = rng.sample(NAMES, len(names))
                g.add("SetNames", d="a", names=nm)
                names = nm
                g.ds["a"] = (nm, g.ds["a"][1])
            else:
                g.add("ApplyMan", m="m", d="a", i=g.idx("a"), u=g.draws())
        g.add("ApplyMan", m="m", d="a", i=0, u=g.draws())
        g.add("DsState", d="a")
        eps.append(g.ep)
    return eps


def dists(rng, n):
    eps = []
    for _ in range(n):
        g = G(rng)
        names = g.data("a")
        # the same events under a different column order, and as a wider table
        perm = rng.sample(names, len(names)) + [x for x in NAMES if x not in names][:rng.randint(0, 2)]
        g.data("b", perm)
        hs = []
        for k in range(rng.randint(1, 4)):
            h = "d%d" % k
            nm = rng.sample(names, rng.randint(1, min(3, len(names))))
            if rng.random() < .05:
                nm = nm[:-1] + ["nope"]
            r = rng.random()
            if r < .45 or not hs:
                g.binned(h, nm)
            elif r < .7:
                g.analytic(h, nm)
            else:
                o = {"op": "NewC", "h": h, "parts": [rng.choice(hs) for _ in range(rng.choice([2, 2, 3]))]}
                if rng.random() < .6:
                    o[rng.choice(["vec", "times"])] = True
                g.ep.append(o)
            hs.append(h)
            g.kind = getattr(g, "kind", {})
            g.kind[h] = "B" if g.ep[-1]["op"] == "NewB" else "A" if g.ep[-1]["op"] == "NewA" else "C"
            if g.kind[h] != "C":
                g.dim = getattr(g, "dim", {})
                g.dim[h] = len(nm)
        for k in range(rng.randint(6, 20)):
            h = rng.choice(hs)
            d = rng.choice("ab")
            r = rng.random()
            if r < .5:
                g.add("ProbEd", h=h, d=d, i=g.idx(d))
            elif r < .58 and g.kind[h] == "B":
                g.add("FillEv", h=h, d=d, i=g.idx(d), w=hx(rng.choice([1, 2, .5, 6, -.21])))
            elif r < .64 and g.kind[h] != "C":
                nm = rng.sample(names, min(len(names), g.dim[h] + (rng.random() < .1)))
                g.add("SetObsEd", h=h, obs=nm)
            elif r < .7:
                g.add("RenameEd", h=h, name="name%d" % k)
            elif r < .78:
                g.add("NormEd", h=h)
            elif r < .86:
                g.add("InfoEd", h=h)
            elif r < .93:
                o = {"op": "CloneEd", "h": h, "to": "z" if h != "z" and rng.random() < .6 else rng.choice(hs)}
                if rng.random() < .5:
                    o["copy"] = True
                if rng.random() < .5 or o["to"] == h:
                    o["assign"] = True
                to = o["to"]
                g.ep.append(o)
                g.kind[to] = g.kind[h]
                if h in g.dim:
                    g.dim[to] = g.dim[h]
                if to not in hs:
                    hs.append(to)
            elif g.kind[h] == "A":
                o = {"op": "SetK", "h": h, "k": hx(rng.choice([1, 2, 4, .5]))}
                if rng.random() < .5:
                    o["dict"] = True
                g.ep.append(o)
        for h in hs:
            g.add("InfoEd", h=h)
            g.add("ProbEd", h=h, d="a", i=0)
        eps.append(g.ep)
    return eps


def managers(rng, n):
    """Normalised distributions and sums of them (C16)."""
    eps = []
    for _ in range(n):
        g = G(rng)
        names = g.data("a")
        nd = rng.randint(1, min(3, len(names)))
        hs = []
        for k in range(rng.randint(1, 4) if rng.random() < .9 else 9):
            h = "d%d" % k
            w = nd if rng.random() < .9 else nd % 3 + 1
            nm = rng.sample(names, min(w, len(names)))
            if rng.random() < .7:
                g.binned(h, nm, name="pdf%d" % k)
                if rng.random() < .7:
                    g.add("NormEd", h=h)
                    g.add("InfoEd", h=h)
            else:
                g.analytic(h, nm, name="pdf%d" % k)
            hs.append(h)
        g.add("NewM", h="m")
        left = list(hs)
        pn = ["pdf%d" % k for k in range(len(hs))]
        ms = ["m"]
        for k in range(rng.randint(6, 20)):
            r = rng.random()
            if r < .3 and left:
                o = {"op": "AddM", "h": "m", "p": left.pop(0)}
                if rng.random() < .3:
                    o["vec"] = True
                g.ep.append(o)
            elif r < .45:
                g.add("NormsM", h=rng.choice(ms), norms=[hx(rng.choice([1, 2, .5, 0, 7, -1.5])) for _ in range(len(hs) - len(left) if rng.random() < .9 else rng.randint(0, 5))])
            elif r < .6:
                g.add("ParM", h=rng.choice(ms), name=rng.choice(pn + ["pdf%d" % rng.randint(0, len(hs))]), x=hx(rng.choice([1, 2, .25, 5, 0, -2])))
            elif r < .62:
                to = "m%d" % rng.randint(1, 2)
                g.add("CopyM", h="m", to=to)
                if rng.random() < .6:
                    g.ep[-1]["assign"] = True
                if to not in ms:
                    ms.append(to)
            elif r < .65 and rng.random() < .6:
                x = rng.random()
                if x < .5:
                    new = rng.choice(["q", "pdf1", "r"])
                    old = rng.choice(pn + ["other"])
                    if not left:    # adding a part would name them after the parts again
                        g.add("RenM", h="m", to=new)
                        g.ep[-1]["from"] = old
                        if old in pn and new not in pn:
                            pn[pn.index(old)] = new
                else:
                    vs = [[x, hx(rng.choice([1, 2, .25, 5, 0, -2]))] for x in pn + ["zz"] if rng.random() < .95]
                    if vs:
                        g.add("ParsM", h=rng.choice(ms), vals=vs)
            elif r < .65:
                g.add("NormEd", h=rng.choice(hs))    # the manager has its own copies
            elif r < .7:
                h = rng.choice(hs)
                g.add("RenameEd", h=h, name=[o["name"] for o in g.ep if o.get("h") == h and o["op"] in ("NewB", "NewA")][0])
            else:
                if any(o["op"] == "AddM" for o in g.ep):
                    g.add("ProbEd", h=rng.choice(ms), d="a", i=g.idx("a"))
        eps.append(g.ep)
    return eps


def filling(rng, n):
    eps = []
    for _ in range(n):
        g = G(rng)
        names = g.data("a", n=rng.randint(1, 25))
        d2 = rng.random() < .4
        if d2:
            g.data("b", rng.sample(names, len(names)), n=rng.randint(1, 10))
        nm = rng.sample(names, rng.randint(1, min(3, len(names))))
        g.binned("h", nm, fill=rng.random() < .3)
        g.add("NewCuts", c="c")
        for k in range(rng.randint(0, 3)):
            g.add("AddCut", c="c", cut=g.cut(names, k, .01))
        ns = rng.randint(0, 3)
        for k in range(ns):
            g.sys("s%d" % k, names)
        g.add("NewMan", m="m")
        for k in rng.sample(range(ns), ns):
            g.add("ManAdd", m="m", s="s%d" % k)
        g.add("NewLogOf", g="g", c="c")
        for k in range(rng.randint(1, 4)):
            d = rng.choice("ab") if d2 else "a"
            N = g.ds[d][1]
            o = {"op": "FillDist", "h": "h", "d": d, "c": "c", "n": rng.choice([-1, -1, rng.randint(0, N), N])}
            if rng.random() < .5:
                o["g"] = "g"
            if rng.random() < .6:
                o["m"] = "m"
            g.ep.append(o)
            if rng.random() < .3 and ns:
                g.add("SysVal", s="s0", x=hx(rng.choice([.5, 2, 3])))
        g.add("QLog", g="g")
        g.add("DsState", d="a")
        g.add("InfoEd", h="h")
        eps.append(g.ep)
    return eps


def counting(rng, n):
    eps = []
    for _ in range(n):
        g = G(rng)
        names = g.data("a", n=rng.randint(1, 12))
        ds = ["a"]
        for h in "bcd"[:rng.randint(0, 3)]:
            g.data(h, rng.sample(names, len(names)), n=rng.choice([rng.randint(1, 12), rng.randint(1, 12), 0 if rng.random() < .2 else 3]))
            ds.append(h)
        for k in range(rng.randint(0, 2)):
            g.sys("s%d" % k, names)
        ns = len([o for o in g.ep if o["op"] == "NewSys"])
        g.add("NewExp", x="x")
        for k in range(rng.randint(0, 3)):
            g.add("ExpCut", x="x", cut=g.cut(names, k, .01))
        for k in range(ns):
            g.add("ExpSys", x="x", s="s%d" % k)
        nb = 0
        sig = False
        for k in range(rng.randint(4, 14)):
            r = rng.random()
            if r < .2:
                g.add("ExpBg", x="x", d=rng.choice(ds), rate=hx(rng.choice([1, 10, 2.5, 100, .125, 0, -2])), name=rng.choice(["bg%d" % nb, "bg%d" % nb, "bg"]))
                nb += 1
            elif r < .3:
                g.add("ExpSig", x="x", d=rng.choice(ds), name=rng.choice(["sig", "s2"]))
                sig = True
            elif r < .45:
                g.add("CountBg", x="x")
            elif r < .6:
                g.add("CountData", x="x", d=rng.choice(ds))
            elif r < .7 and sig:
                g.add("CountSig", x="x")
            elif r < .75 and ns:
                g.add("SysVal", s="s0", x=hx(rng.choice([.5, 2, 3])))
            elif r < .8:
                g.add("ExpCut", x="x", cut=g.cut(names, 10 + k, 0))
            else:
                g.add("ExpResult", x="x")
        g.add("ExpResult", x="x")
        eps.append(g.ep)
    return eps
