"""Seeded scripts for NllhSys.

Edges, contents and parameters are short binary fractions where a systematic moves content, so that
a bin that is empty is empty exactly."""
from vlib import hx

Q = {"BmGet", "BmBin", "BmProb", "StNorms", "StCutLog", "StData"}
KINDS = ["shift", "scale", "scalefn", "shape", "conv", "renorm"]
NP = {"shift": 1, "scale": 1, "scalefn": 3, "shape": 2, "renorm": 0}


def axis(rng, name, k, positive=False):
    e = [1 if positive else rng.choice([0, 0, 1, -2, -.5])]
    for _ in range(k):
        e.append(e[-1] + rng.choice([1, 1, .5, 2, .75]))
    return {"name": name, "lo": [hx(v) for v in e[:-1]], "hi": [hx(v) for v in e[1:]]}


def nbins(axes):
    n = 1
    for a in axes:
        n *= len(a["lo"])
    return n


def f(x):
    return float.fromhex(x)


def inside(rng, a):
    lo, hi = f(a["lo"][0]), f(a["hi"][-1])
    return rng.choice([lo, hi, f(rng.choice(a["lo"])), lo - 1, hi + 1] + [lo + (hi - lo) * rng.random()] * 5)


def contents(rng, n, norm=False, zeros=False, tiny=.1, none=0):
    if rng.random() < none:
        return [hx(0)] * n  # nothing of it was counted
    c = [rng.choice([1, 2, 3, .5, .25, rng.randint(1, 40) / 8]) for _ in range(n)]
    if rng.random() < tiny:
        for k in rng.sample(range(n), min(n, rng.randint(1, 3))):
            c[k] = 2.0 ** -rng.randint(10, 60)
    if zeros:
        for _ in range(rng.randint(1, 2)):
            c[rng.randrange(n)] = 0
        if not any(c):
            c[0] = 1
    if norm:
        # a power of two as total, so that the contents stay exact
        t = sum(c)
        c = [x / t for x in c]
    return [hx(x) for x in c]


# names that are not in the order things are added
PDFS = ["p0", "p1", "p2", "p3", "bg", "U238", "th232", "p10", "a", "Sig", "p_1", "k40", "b8", "_x"]
SYSS = ["s0", "s1", "s2", "s3", "zz", "S", "escale", "s10", "a", "_y"]


class World:
    def __init__(s, rng, like=None, base=0):
        s.rng, s.ep, s.sys, s.base = rng, like.ep if like else [], {}, base
        # bins that are next to nothing, and then no tails of Gaussians to fill them
        s.tiny = rng.random() < .3
        s.axes = [axis(rng, "x", rng.choice([2, 3, 4])), axis(rng, "y", rng.choice([2, 3]), True), axis(rng, "z", 2, True)]
        s.axes = s.axes[:rng.choice([1, 1, 1, 2, 2, 3])]
        if len(s.axes) == 1 and rng.random() < .04:
            s.axes = [axis(rng, "x", rng.randint(9, 40))]
        s.pn, s.sn = (like.pn, like.sn) if like else (list(PDFS), list(SYSS))
        if not like and rng.random() < .6:
            rng.shuffle(s.pn)
            rng.shuffle(s.sn)
        # many bins: what a systematic empties is filled from afar only, which is below what a Gaussian is good for
        s.tiny |= len(s.axes) == 1 and len(s.axes[0]["lo"]) > 8
        rng.shuffle(s.axes)

    def names(s):
        return [a["name"] for a in s.axes]

    def op(self, o, **k):
        self.ep.append(dict(op=o, **k))

    def syvals(s, kind, nt, tobs):
        r = s.rng
        if kind == "shift":
            return [r.choice([0, .25, -.25, .5, -.5, .125])]
        if kind == "scale":
            return [r.choice([1, 1.25, .75, .875, 1.5] + [-1] * (r.random() < .1))]
        if kind == "scalefn":
            return [r.choice([0, .25, -.25]), r.choice([1, 1.25, .75]), r.choice([0, 0, .125])]
        if kind == "shape":
            return [r.choice([1, 2, 3, .5]), r.choice([0, .125, .25] + [-4] * (r.random() < .1))]
        if kind == "renorm":
            return [r.choice([.5, 2, 1])]
        if kind == "conv":
            if nt == 1 and tobs[0] != "x" and r.random() < .3:
                return [r.choice([.25, .5])]
            return [r.choice([0, .25, -.25]) for _ in range(nt)] + [r.choice([.25, .5, 1]) for _ in range(nt)]

    def syst(s, h=None, kind=None):
        r = s.rng
        h, nm = h or "s%d" % (s.base + len(s.sys)), s.sn[len(s.sys) % len(s.sn)] + ("" if not s.base else str(s.base))
        kind = kind or r.choice([k for k in KINDS if k != "conv" or not s.tiny])
        names = s.names()
        nt = 1 if kind in ("shift", "scale", "scalefn") else min(len(names), r.choice([1, 1, 2]))
        t = r.sample(names, nt)
        p = s.syvals(kind, nt, t)
        pn = [] if kind == "renorm" else ["%s_%d" % (nm, k if len(nm) % 2 else len(p) - k) for k in range(len(p))]
        s.sys[h] = (kind, nt, t, pn, len(p))
        s.op("SyNew", h=h, kind=kind, name=nm, p=[hx(x) for x in p], names=pn, axes=s.axes, tobs=t)
        return h

    def newpars(s, h):
        kind, nt, t, pn, n = s.sys[h]
        if kind == "conv":
            p = [s.rng.choice([0, .25, -.25]) for _ in range(nt)] + [s.rng.choice([.25, .5, 1]) for _ in range(nt)] if n > 1 else [s.rng.choice([.25, .5])]
        else:
            p = s.syvals(kind, nt, t)
        return list(zip(pn, p))

    def norm(s):
        r = s.rng
        return r.choice([1, 2, 5, 10, 20, 50, r.randint(1, 400) / 8] + [0, 2.0 ** -9, 1e5] * (r.random() < .1))


class Stat:
    """one likelihood: what it is made of, as far as a script has to know"""

    def __init__(s, w, h, bb=None, simple=False, pdfs=None):
        r = w.rng
        s.w, s.h, s.fit, s.syss, s.known = w, h, [], [], []
        s.bb = r.random() < .35 if bb is None else bb
        s.axes = w.axes
        w.op("StNew", h=h)
        s.buf = False
        nsys = 0 if simple else r.choice([0, 0, 1, 1, 2, 3]) if r.random() < .97 else r.randint(4, 6)
        s.groups = {}
        for _ in range(nsys):
            old = sorted(set(w.sys) - set(s.syss))
            q = r.choice(old) if old and r.random() < .4 else w.syst()
            g = r.choice(["", "", "g", "k"])
            w.op("StSys", h=h, s=q, g=g, **({"list": True} if r.random() < .2 else {}))
            s.syss.append(q)
            s.groups.setdefault(g, []).append(q)
            # two groups may share a systematic; nothing is shared with the global group
            g2 = r.choice(["g", "k", "m"] if r.random() < .9 else [""])
            if g and g2 != g and r.random() < .35:
                w.op("StSys", h=h, s=q, g=g2)
                if g2:
                    s.groups.setdefault(g2, []).append(q)
        if s.bb and r.random() < .5:
            w.op("StBB", h=h, on=True)
        names = w.names()
        s.obs = names if r.random() < .6 else r.sample(names, r.randint(1, len(names)))
        early = r.random() < .3
        if early:
            s.data()
            if r.random() < .4:
                s.buffers()
        npdf = r.choice([1, 2, 2, 3]) if r.random() < .95 else r.randint(5, 12)
        mixed = r.random() < .5
        one = r.choice("DDI")
        s.zeros = w.tiny and r.random() < .2
        s.fine, at = True, len(w.ep)
        for k in range(npdf):
            s.pdf((pdfs or "%s") % w.pn[k], r.choice("DIF") if mixed else one)
        if s.fine and r.random() < .4:
            s.listed(at)
        if not simple and r.random() < .15:
            s.late()
        if s.bb and r.random() < .7:
            w.op("StBB", h=h, on=True)
        # data
        if not early or r.random() < .2:
            s.data()
            if r.random() < .4:
                s.buffers()
        if r.random() < .5:
            w.op("StOv", h=h, on=r.random() < .8)

    def pdf(s, name, mode):
        r, w = s.w.rng, s.w
        gen = r.choice([10, 100, 1000, 3]) if s.bb and r.random() < .97 else -1
        c = contents(r, nbins(w.axes), norm=mode == "D" or (s.bb and mode == "I") or r.random() < .6, zeros=s.zeros, tiny=.3 * w.tiny, none=.06 * (mode != "D" and len(s.known) > 0))
        gs = sorted(g for g in s.groups if g)
        use = r.sample(gs, r.randint(0, len(gs))) if gs else []
        if not use or r.random() < .2:
            use = use + [""]
        if r.random() < .04:
            use = use + [r.choice(["nowhere", use[0]])]
        e = {}
        if r.random() < .3:
            e["list"] = True
        if mode == "I" and r.random() < .5:
            e["dflt"] = True
        s.known.append(name)
        w.op("StAdd", h=s.h, pdf={"name": name, "axes": w.axes, "c": c, "mode": mode, "gen": gen}, gs=use, **e)
        all_ = [q for g in use for q in s.groups.get(g, [])] + (s.groups.get("", []) if "" not in use else [])
        s.fine = s.fine and not (use[-1] == "nowhere" or len(set(use)) < len(use) or len(set(all_)) < len(all_))
        if mode != "F" and not (use[-1] == "nowhere" or len(set(use)) < len(use) or len(set(all_)) < len(all_)):
            s.fit.append(name)

    def listed(s, at):
        """the distributions added since then, all in one call"""
        w, r = s.w, s.w.rng
        o = w.ep[at:]
        if len({e["pdf"]["gen"] < 0 for e in o}) > 1:
            return
        gens = o[0]["pdf"]["gen"] >= 0
        e = {"pdfs": [x["pdf"] for x in o], "gss": [x["gs"] for x in o]}
        plain = all(g == [""] for g in e["gss"])
        if r.random() < .5 or not plain:
            e["each"] = True
        dflt = all(x["pdf"]["mode"] == "I" for x in o) and r.random() < .5
        if dflt:
            e["dflt"] = True
        del w.ep[at:]
        if r.random() < .25:
            w.op("StAdds", h=s.h, short=r.choice(["gss"] * ("each" in e) + ["gens"] * gens + ["modes"] * (not dflt) or ["gss"]), **e)
        w.op("StAdds", h=s.h, **e)

    def late(s):
        """a systematic after the distributions it is for"""
        w, r = s.w, s.w.rng
        q = w.syst()
        g = r.choice(["", "", r.choice(sorted(s.groups)) if s.groups else "", "new"])
        w.op("StSys", h=s.h, s=q, g=g, **({"list": True} if r.random() < .2 else {}))
        s.syss.append(q)
        s.groups.setdefault(g, []).append(q)

    def buffers(s):
        w, r = s.w, s.w.rng
        for a in r.sample(w.axes, r.randint(1, len(w.axes))):
            k = len(a["lo"])
            lo = r.randint(0, 1)
            hi = r.randint(0, max(0, min(1, k - 1 - lo))) if r.random() < .95 else k
            w.op("StBuf", h=s.h, name=a["name"], lo=lo, hi=hi)

    def swap(s):
        """other distributions in the place of the present ones, perhaps in another binning"""
        w, r = s.w, s.w.rng
        anew = not s.syss and r.random() < .6
        if anew:
            old = {a["name"]: a for a in w.axes}
            for n in r.sample(sorted(old), r.randint(1, len(old))):
                old[n] = axis(r, n, r.choice([2, 3, 4]), n != "x")
            w.axes = [old[a["name"]] for a in w.axes]
            if r.random() < .3:
                r.shuffle(w.axes)
        m = "m%d" % len(w.ep)
        w.op("BmNew", m=m)
        s.fit, s.known = [], []
        for n in r.sample(w.pn, r.choice([1, 2, 3])):
            mode = r.choice("DIF")
            w.op("BmAdd", m=m, pdf={"name": n, "axes": w.axes, "c": contents(r, nbins(w.axes), norm=mode == "D" or r.random() < .6, tiny=.3 * w.tiny), "mode": mode, "gen": -1})
            s.known.append(n)
            if mode != "F":
                s.fit.append(n)
        w.op("StSetBm", h=s.h, m=m)
        if s.src == "dist" and anew:
            s.data()

    def data(s):
        w, r = s.w, s.w.rng
        s.src = "rows"
        if r.random() < .5:
            ax = [next(a for a in w.axes if a["name"] == n) for n in s.obs]
            d = [r.choice([0, 1, 2, 3, 7, 20, .5] + [2.0 ** -11, 2.0 ** -20] * (r.random() < .1)) for _ in range(nbins(ax))]
            s.src = "dist"
            w.op("StDist", h=s.h, d={"name": "d", "axes": ax, "c": [hx(x) for x in d]})
            return
        names = w.names()
        cols = names + (["extra"] if r.random() < .3 else [])
        r.shuffle(cols)
        rows, o = [], {}
        if getattr(s, "rows", None) and r.random() < .5:
            cols, rows = s.cols, list(s.rows)
            o = {"keep": len(rows)}
        for _ in range(r.randint(0, 14 - min(14, len(rows))) if r.random() < .96 else r.randint(30, 80)):
            rows.append([hx(inside(r, next((a for a in w.axes if a["name"] == c), w.axes[0]))) for c in cols])
        w.op("StRows", h=s.h, names=cols, rows=rows, **o)
        s.cols, s.rows = cols, rows

    def cut(s):
        w, r = s.w, s.w.rng
        a = r.choice(w.axes)
        w.op("StCut", h=s.h, obs=a["name"], side=r.choice(["lower", "upper"]), a=hx(r.choice([f(x) for x in a["lo"]]) + r.choice([0, .25])))

    def recut(s):
        """other cuts in the place of those there are"""
        w, r = s.w, s.w.rng
        at = len(w.ep)
        for _ in range(r.choice([0, 1, 1, 2])):
            s.cut()
        cuts = [{k: e[k] for k in ("obs", "side", "a")} for e in w.ep[at:]]
        del w.ep[at:]
        w.op("StCuts", h=s.h, cuts=cuts)

    def remanage(s):
        """other systematics in the place of those there are, those of a manager"""
        w, r = s.w, s.w.rng
        m = "g%d" % len(w.ep)
        w.op("SgNew", s=m)
        s.syss, s.groups = [], {"": []}
        for _ in range(r.choice([0, 1, 1, 2])):
            old = sorted(set(w.sys) - set(s.syss))
            q = r.choice(old) if old and r.random() < .6 else w.syst()
            g = r.choice(["", "", "g"])
            w.op("SgAdd", s=m, h=q, g=g)
            s.syss.append(q)
            s.groups.setdefault(g, []).append(q)
        for p in s.known:
            if r.random() < .85:
                own = sorted(g for g in s.groups if g)
                use = r.sample(own, r.randint(0, len(own)))
                if not use or r.random() < .3:
                    use.insert(r.randint(0, len(use)), "")
                w.op("SgReg", s=m, name=p, gs=use)
        w.op("StSetSg", h=s.h, s=m)

    def copied(s, to):
        """what a copy of it is made of"""
        c = object.__new__(Stat)
        c.__dict__.update(s.__dict__)
        c.h, c.fit, c.syss, c.known = to, list(s.fit), list(s.syss), list(s.known)
        c.groups = {g: list(q) for g, q in s.groups.items()}
        s.w.op("StCopy", h=s.h, to=to)
        if s.w.rng.random() < .3:
            s.w.op("StReg", h=to)
        return c

    def params(s):
        return s.fit + [p for q in s.syss for p in s.w.sys[q][3]]

    def dict(s, missing=.05):
        w, r = s.w, s.w.rng
        d = {n: w.norm() for n in s.fit}
        for q in s.syss:
            d.update(w.newpars(q))
        return d

    def constrain(s, h=None):
        w, r = s.w, s.w.rng
        ps = s.params()
        if not ps:
            return
        h = h or s.h
        if r.random() < .15:
            return s.function(h, ps) if r.random() < .5 else s.table(h, ps)
        q = r.random()
        p = r.choice(ps + ["absent"] * (r.random() < .05))
        if q < .55:
            sl = r.choice([.5, 1, 4])
            w.op("StInd", h=h, name=p, m=hx(r.choice([0, 1, 5, 10])), lo=hx(sl),
                 **({"hi": hx(sl), "sym": True} if r.random() < .5 else {"hi": hx(r.choice([.25, 2, 3]))}))
        elif len(ps) > 1:
            a, b = r.sample(ps, 2)
            if q < .8:
                w.op("StPair", h=h, a=a, m1=hx(r.choice([1, 5])), s1=hx(r.choice([1, 2])), b=b, m2=hx(r.choice([0, 3])), s2=hx(r.choice([.5, 4])), corr=hx(r.choice([0, .5, -.25, .75])))
            elif w.norm:
                w.op("StRatio", h=h, a=a, b=b, m=hx(r.choice([.5, 1])), s=hx(r.choice([.5, 2])))


    def function(s, h, ps):
        w, r = s.w, s.w.rng
        d = r.sample(ps, r.randint(1, min(3, len(ps))))
        s.w.op("StShape", h=h, dict=[[p, hx(r.choice([0, 1]))] for p in d], co=[[p, hx(r.choice([1, -1, .5, 2]))] for p in sorted(d)],
               m=hx(r.choice([0, 1, 5])), s=hx(r.choice([1, 4, 16])))

    def table(s, h, ps):
        """points that no parameter is at exactly"""
        w, r = s.w, s.w.rng
        axes, n = [], 1
        for p in r.sample(ps, r.choice([1, 1, 2]) if len(ps) > 1 else 1):
            k = r.choice([2, 3, 4])
            n *= k
            lo, w_ = (r.choice([-30.3, -50.1]), r.choice([90.7, 120.3])) if p in s.fit else (-3.1, r.choice([2.3, 4.1]))
            if r.random() < .15:
                lo, w_ = r.choice([-1.7, .3]), r.choice([9.3, 1.3])
            e = [lo + w_ * i for i in range(k + 1)]
            axes.append({"name": p, "lo": [hx(x) for x in e[:-1]], "hi": [hx(x) for x in e[1:]]})
        w.op("StInterp", h=h, label=r.choice("tuv"), axes=axes, vals=[hx(r.choice([0, 1, .5, 4, 10])) for _ in range(n)])


def sets(w, h, d, drop, base=0):
    r = w.rng
    items = sorted(d.items())
    if drop and r.random() < .05 and items:
        items.pop(r.randrange(len(items)))
    if r.random() < .1:
        items.append(("other", 3))
    w.op("StSets", h=h, dict=[[k, hx(v)] for k, v in items], **({"base": True} if r.random() < base else {}))


def evals(w, h, nllh, show=.4):
    w.op("StEval", h=h, **({"dbg": True} if w.rng.random() < .05 else {}))
    if nllh and w.rng.random() < .1:
        w.op("StData", h=h)
    if nllh and w.rng.random() < show:
        w.op("StNorms", h=h)
    if nllh and w.rng.random() < .2:
        w.op("StCutLog", h=h)


def likelihoods(rng, n):
    eps = []
    for _ in range(n):
        w = World(rng)
        s = Stat(w, "l")
        for _ in range(rng.choice([0, 0, 1, 2])):
            s.constrain()
        if rng.random() < .3:
            s.cut()
        w.op("StReg", h="l")
        for _ in range(rng.randint(2, 4)):
            sets(w, "l", s.dict(), True, .25)
            evals(w, "l", True)
        eps.append(w.ep)
    return eps


def histories(rng, n):
    eps = []
    for _ in range(n):
        w = World(rng)
        s = Stat(w, "l")
        s.constrain()
        w.op("StReg", h="l")
        s.dicts = [s.dict() for _ in range(rng.choice([2, 2, 3]))]
        live = [s]
        for _ in range(rng.randint(6, 14) if rng.random() < .95 else 40):
            q = rng.random()
            s = rng.choice(live)
            if s.axes is not w.axes and q > .6:
                # bound to a binning that is no longer that of new distributions
                q = .3
            if rng.random() < .06:
                # a copy, or what there is made equal to another
                to = rng.choice([x for x in "lmn" if x != s.h] + [s.h] * (rng.random() < .1))
                c = s.copied(to)
                c.dicts = [c.dict() for _ in range(2)]
                live = [x for x in live if x.h != to] + [c]
            elif rng.random() < .05 and len(live) > 1:
                o = rng.choice(live)
                if set(o.params()) <= set(s.params()) or rng.random() < .04:
                    w.op("StSetCons", h=s.h, **{"from": o.h})
            elif q < .5:
                sets(w, s.h, rng.choice(s.dicts), True)
                evals(w, s.h, True)
            elif q < .6:
                evals(w, s.h, True)
            elif q < .74:
                s.data()
            elif q < .78:
                s.constrain()
            elif q < .82:
                s.buffers()
                if rng.random() < .4:
                    s.data()
                if rng.random() < .3:
                    w.op("StOv", h=s.h, on=rng.random() < .6)
            elif q < .85:
                s.cut() if rng.random() < .5 else s.recut()
            elif q < .89:
                # something that is refused in between
                d = dict(s.dicts[0])
                for k in s.params()[:1]:
                    d.pop(k, None)
                w.op("StSets", h=s.h, dict=[[k, hx(v)] for k, v in sorted(d.items())])
            elif q < .92 and s.syss:
                h = rng.choice(s.syss)
                pn = w.sys[h][3]
                if pn:
                    k = rng.randrange(len(pn))
                    w.op("SyPar", h=h, k=k + 1, x=hx(w.newpars(h)[k][1]))
            elif q < .935:
                if not s.bb or rng.random() < .5:
                    w.op("StBB", h=s.h, on=False)
                    s.bb = False
            elif q < .96 and not s.bb:
                s.swap()
                s.axes = w.axes
                w.op("StReg", h=s.h)
                s.dicts = [s.dict() for _ in range(2)]
            elif q < .97:
                s.late()
                w.op("StReg", h=s.h)
                s.dicts = [s.dict() for _ in range(2)]
            elif q < .985:
                s.remanage()
                w.op("StReg", h=s.h)
                s.dicts = [s.dict() for _ in range(2)]
            elif len(s.fit) < 4:
                s.pdf(rng.choice("Aqz") + "%d" % len(w.ep), rng.choice("DIF"))
                w.op("StReg", h=s.h)
                s.dicts = [s.dict() for _ in range(2)]
        eps.append(w.ep)
    return eps


def build_sum(rng, w, st, h, other=None):
    """a sum of some or all of st (perhaps twice), and perhaps of another sum: its name"""
    parts = [s.h for s in st]
    rng.shuffle(parts)
    if other:
        parts = rng.sample(parts, rng.randint(1, len(parts)))
        parts.insert(rng.randrange(len(parts) + 1), other)
    if rng.random() < .15:
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(parts))
    k = len(parts)
    m = rng.randint(min(k, 2), k) if rng.random() < .6 else k
    e = {}
    if m == 2:
        q = rng.random()
        if q < .4:
            e["plus"] = True
        elif q < .7:
            e["ctor"] = True
    w.op("SumNew", h=h, parts=parts[:m], **e)
    for i, p in enumerate(parts[m:]):
        if rng.random() < .3:
            # constrained before it is complete
            rng.choice(st).constrain(h)
        if rng.random() < .5:
            w.op("SumAdd", h=h, p=p)
        else:
            to = h + h[-1]
            w.op("SumPlus", h=h, p=p, to=to)
            h = to
    return h


def sums(rng, n):
    eps = []
    for _ in range(n):
        w = World(rng)
        k = rng.choice([2, 2, 3]) if rng.random() < .9 else rng.randint(4, 6)
        st = []
        share = rng.random() < .5
        for i in range(k):
            if rng.random() < .4:
                w = World(rng, w, 10 * i)
            st.append(Stat(w, "l%d" % i, simple=rng.random() < .4, pdfs="%s" if share or i == 0 else rng.choice("pP_") + str(i) + "_%s"))
        for s in st:
            if rng.random() < .4:
                s.constrain()
        tops = [build_sum(rng, w, st, "u")]
        if rng.random() < .25:
            # another sum of some of the same, or of the first
            tops.append(build_sum(rng, w, st, "x", tops[0] if rng.random() < .6 else None))
        for top in tops:
            w.op("StReg", h=top)
        for top in tops:
            if rng.random() < .6:
                rng.choice(st).constrain(top)
        for _ in range(rng.randint(2, 5) if rng.random() < .93 else 15):
            d = {}
            for s in st:
                d.update(s.dict())
            q = rng.random()
            top = rng.choice(tops)
            if q < .75:
                sets(w, top, d, True)
            else:
                s = rng.choice(st)
                sets(w, s.h, s.dict(), True)
            evals(w, top, False)
            if rng.random() < .4:
                s = rng.choice(st)
                evals(w, s.h, True)
            if rng.random() < .2:
                rng.choice(st).data()
            if rng.random() < .05:
                s = rng.choice(st)
                w.op("StSetCons", h=rng.choice(tops), **{"from": s.h})
            if rng.random() < .06:
                # one of them made equal to another
                i, j = rng.sample(range(len(st)), 2)
                st[j] = st[i].copied(st[j].h)
            if rng.random() < .12:
                s = rng.choice(st)
                if rng.random() < .5 and len(s.fit) < 4:
                    s.pdf(rng.choice("Aqz") + "%d" % len(w.ep), rng.choice("DIF"))
                else:
                    s.late()
                w.op("StReg", h=rng.choice(tops + [s.h]))
        eps.append(w.ep)
    return eps


def managers(rng, n):
    eps = []
    for _ in range(n):
        w = World(rng)
        w.op("BmNew", m="a")
        size = {"a": []}
        par = {"a": []}
        ren = set()
        most = 4 if rng.random() < .9 else 13
        for i in range(rng.randint(5, 16) if most == 4 else 45):
            m = rng.choice(sorted(size))
            q = rng.random()
            if (q < .3 or not size[m]) and m not in ren and len(size[m]) < most:
                mode = rng.choice("DDIIF")
                name = w.pn[len(size[m])]
                c = contents(rng, nbins(w.axes), norm=rng.random() < .5)
                w.op("BmAdd", m=m, pdf={"name": name, "axes": w.axes, "c": c, "mode": mode, "gen": -1}, **({"list": True} if rng.random() < .3 else {}))
                size[m] = size[m] + [mode]
                if mode != "F":
                    par[m] = par[m] + [name]
                if rng.random() < .15 and len(size[m]) < most:
                    ps = []
                    for _ in range(rng.randint(0, most - len(size[m]))):
                        mode = rng.choice("DDIIF")
                        ps.append({"name": w.pn[len(size[m])], "axes": w.axes, "c": contents(rng, nbins(w.axes), norm=rng.random() < .5), "mode": mode, "gen": -1})
                        size[m] = size[m] + [mode]
                        if mode != "F":
                            par[m] = par[m] + [ps[-1]["name"]]
                    e = {"dflt": True} if all(p["mode"] == "I" for p in ps) and rng.random() < .6 else {}
                    if ps and not e and rng.random() < .3:
                        w.op("BmAdds", m=m, pdfs=ps, short="modes")
                    w.op("BmAdds", m=m, pdfs=ps, **e)
            elif q < .4:
                k = len(size[m]) + (rng.random() < .15)
                w.op("BmSetNorms", m=m, v=[hx(w.norm()) for _ in range(k)])
            elif q < .5:
                w.op("BmSet", m=m, name=rng.choice(par[m] + ["none"] * (rng.random() < .2) or ["none"]), x=hx(w.norm()))
            elif q < .58:
                d = {p: w.norm() for p in par[m]}
                if d and rng.random() < .15:
                    d.pop(sorted(d)[0])
                if rng.random() < .2:
                    d["other"] = 2
                if d:
                    w.op("BmSets", m=m, dict=[[k, hx(v)] for k, v in sorted(d.items())])
            elif q < .64:
                w.op("BmGet", m=m, name=rng.choice(par[m] + ["none"]))
            elif q < .7 and par[m]:
                t = rng.choice(["r%d" % i, par[m][-1]])
                o = rng.choice(par[m])
                w.op("BmRename", m=m, **{"from": o, "to": t})
                if t not in par[m]:
                    par[m] = [t if p == o else p for p in par[m]]
                    ren.add(m)
            elif q < .78:
                to = rng.choice([x for x in "abc" if x != m])
                w.op("BmCopy", m=m, to=to)
                size[to], par[to] = size[m], par[m]
                ren.discard(to)
                if m in ren:
                    ren.add(to)
            elif q < .8 and len(size) > 1:
                w.op("BmDel", m=m)
                del size[m], par[m]
                ren.discard(m)
            elif q < .9:
                w.op("BmBin", m=m, i=rng.randint(0, nbins(w.axes) - (rng.random() < .9)))
            else:
                e = [[a["name"], hx(inside(rng, a))] for a in w.axes] + [["w", hx(1)]]
                rng.shuffle(e)
                if rng.random() < .1:
                    e = [x for x in e if x[0] != "x"]
                w.op("BmProb", m=m, e=e)
        eps.append(w.ep)
    return eps


def changed(rng, n):
    """managers whose distributions are distorted, cut and projected"""
    eps = []
    for _ in range(n):
        w = World(rng)
        names = w.names()
        npdf = rng.choice([1, 2, 2, 3]) if rng.random() < .9 else rng.randint(4, 9)
        pdfs = []
        w.op("BmNew", m="a")
        for k in range(npdf):
            mode = rng.choice("DDIIF")
            w.op("BmAdd", m="a", pdf={"name": w.pn[k], "axes": w.axes, "c": contents(rng, nbins(w.axes), norm=rng.random() < .5, none=.1 * (mode != "D")), "mode": mode, "gen": -1})
            pdfs.append((w.pn[k], mode))
        fit = [p for p, m in pdfs if m != "F"]
        gs = {}
        for s in "st"[:rng.choice([1, 1, 2])]:
            w.op("SgNew", s=s)
            gs[s] = {"": []}
            for _ in range(rng.choice([0, 1, 1, 2, 3]) if s == "s" else rng.choice([0, 0, 1])):
                h = rng.choice(sorted(w.sys)) if w.sys and rng.random() < .2 else w.syst(kind=rng.choice(["scale", "shape", "shift", "renorm", "scalefn"] + ["conv"] * (not w.tiny)))
                g = rng.choice(["", "", "g", "k"])
                w.op("SgAdd", s=s, h=h, g=g)
                if not (g == "" and any(h in x for x in gs[s].values())):
                    gs[s].setdefault(g, []).append(h)
            for p, _ in pdfs + [("other", "D")] * (rng.random() < .1):
                if rng.random() < .85:
                    own = sorted(g for g in gs[s] if g)
                    use = rng.sample(own, rng.randint(0, len(own)))
                    if not use or rng.random() < .3:
                        use.insert(rng.randint(0, len(use)), "")
                    w.op("SgReg", s=s, name=p, gs=use)
        live = ["a"]
        for i in range(rng.randint(5, 14)):
            m = rng.choice(live)
            q = rng.random()
            if q < .1 and w.sys:
                h = rng.choice(sorted(w.sys))
                if w.sys[h][0] not in ("renorm", "conv"):
                    x = w.syvals(w.sys[h][0], w.sys[h][1], w.sys[h][2])
                    k = rng.randrange(len(x))
                    if x[k] > -1:
                        w.op("SyPar", h=h, k=k + 1, x=hx(x[k]))
            elif q < .35:
                w.op("BmApply", m=m, s=rng.choice(sorted(gs)))
            elif q < .5:
                buf = []
                for a in rng.sample(w.axes, rng.randint(0, len(w.axes))):
                    k = len(a["lo"])
                    lo = rng.randint(0, 1)
                    buf.append([a["name"], lo, rng.randint(0, max(0, min(1, k - 1 - lo)))])
                w.op("BmShrink", m=m, buf=buf, ov=rng.random() < .7)
            elif q < .56:
                keep = names if rng.random() < .2 else rng.sample(names, rng.randint(1, len(names)))
                # from the distributions as they are
                w.op("BmApply", m=m, s=rng.choice(sorted(gs)))
                w.op("BmAlong", m=m, names=keep)
            elif q < .66:
                w.op("BmSetNorms", m=m, v=[hx(w.norm()) for _ in pdfs])
            elif q < .74 and fit:
                w.op("BmSet", m=m, name=rng.choice(fit), x=hx(w.norm()))
            elif q < .8:
                to = rng.choice([x for x in "abc" if x != m])
                w.op("BmCopy", m=m, to=to)
                if to not in live:
                    live.append(to)
            elif q < .88:
                w.op("BmBin", m=m, i=rng.randint(0, nbins(w.axes)))
            else:
                e = [[a["name"], hx(inside(rng, a))] for a in w.axes] + [["w", hx(1)]]
                rng.shuffle(e)
                w.op("BmProb", m=m, e=e)
        eps.append(w.ep)
    return eps
