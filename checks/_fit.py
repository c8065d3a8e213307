"""Seeded scripts for FitSys.  Values are short binary fractions: what the library computes of them is exact."""
from vlib import hx

Q = {"FrGetSpace", "FrString", "AcGet", "Slope", "Energy", "Walled", "IvHist", "IvCounts", "IvBound"}
NAMES = ["a", "b", "x", "eff-1", "norm_2", "A", "b10", "b2", "background_normalisation_in_u238", "background_normalisation_in_th232"]


def dy(rng, hi=4, d=4):
    return rng.choice([0, 1, -1, .5, rng.randint(-hi * d, hi * d) / d, rng.randint(-hi * d, hi * d) / d])


def poly(rng, names, terms=5, deg=3):
    t = [{"k": hx(dy(rng)), "x": [rng.choice(names) for _ in range(rng.randint(0, deg))]} for _ in range(rng.randint(1, terms))]
    for n in names:
        if rng.random() < .7:
            t.append({"k": hx(rng.choice([1, .5, 2, -1])), "x": [n] * rng.choice([1, 2, 2])})
    return t


def d(m):
    return [[n, hx(m[n])] for n in m]


def grids(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        if rng.random() < .95:
            names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 2, 3, 3, 4]))
            cap = {1: 40, 2: 9, 3: 5, 4: 3}[len(names)]
        else:
            names = rng.sample(NAMES, rng.choice([1, 2, 3, 5, 7, 8]))
            cap = {1: 400, 2: 20, 3: 8, 5: 3, 7: 2, 8: 2}[len(names)]
        for s in "st":
            own = names if s == "s" or rng.random() < .5 else rng.sample(names, rng.randint(1, len(names)))
            flat = rng.random() < .12
            t = [{"k": hx(rng.choice([0, -1, 2])), "x": []}] if flat else poly(rng, own)
            # values far from 0, or next to each other
            if rng.random() < .1:
                t.append({"k": hx(rng.choice([-1, 1]) * 2.0 ** 21), "x": []})
            elif rng.random() < .1:
                t.append({"k": hx(rng.choice([-1, 1]) * 2.0 ** -34), "x": [rng.choice(own)]})
            ep.append({"op": "StNew", "h": s, "names": own, "terms": t})
        for g in "gh"[:rng.choice([1, 1, 2])]:
            ep.append({"op": "GrNew", "g": g})

            def setup():
                mn, mx, st = {}, {}, {}
                for p in names:
                    lo, step = dy(rng), rng.choice([1, .5, .25, .75, 1.5])
                    k = rng.choice([0, 1, 2, rng.randint(0, cap - 1), rng.randint(0, cap - 1)])
                    mn[p], st[p] = lo, step
                    mx[p] = lo + step * k + rng.choice([0, 0, 0, 0, 0, 0, step / 2, step / 2, step / 4, step / 4, 2.0 ** -35, -2.0 ** -35])
                    if rng.random() < .02:
                        mx[p] = lo - rng.choice([step, step / 2, .125])
                    if rng.random() < .02:
                        st[p] = rng.choice([0, -1, -.5])
                for m in (mn, mx, st):
                    if rng.random() < .03 and len(m) > 1:
                        del m[rng.choice(list(m))]
                    elif rng.random() < .03:
                        m["extra"] = rng.choice([0, 1])
                if rng.random() < .05:
                    mn["more"], mx["more"], st["more"] = 0, 1, 1
                ops = [{"op": "GrMin", "g": g, "d": d(mn)}, {"op": "GrMax", "g": g, "d": d(mx)}, {"op": "GrStep", "g": g, "d": d(st)}]
                rng.shuffle(ops)
                return ops
            for r in range(rng.choice([1, 1, 2, 3])):
                o = setup()
                ep += o if r == 0 else rng.sample(o, rng.choice([0, 3]))
                if rng.random() < .5:
                    ep.append({"op": "GrMx", "g": g, "on": rng.random() < .7})
                ep.append({"op": "GrRun", "g": g, "s": rng.choice("sst")})
                if rng.random() < .3:
                    ep.append({"op": "GrRes", "g": g, "f": rng.choice("fe")})
        eps.append(ep)
    return eps


def axis(rng, name, k):
    e = [dy(rng)]
    for _ in range(k):
        e.append(e[-1] + rng.choice([1, 1, .5, 2, .75]))
    return {"name": name, "lo": [hx(v) for v in e[:-1]], "hi": [hx(v) for v in e[1:]]}


def hist(rng, nd, name=None):
    ax = [axis(rng, "xyz"[k], rng.choice([1, 2, 3])) for k in range(nd)]
    n = 1
    for a in ax:
        n *= len(a["lo"])
    h = {"axes": ax, "c": [hx(rng.choice([0, 1, 2, .5, rng.randint(0, 60) / 8])) for _ in range(n)]}
    if name:
        h["name"] = name
    return h


def results(rng, n):
    eps = []
    for _ in range(n):
        ep, live = [{"op": "FrNew", "f": "f"}], ["f"]
        for _ in range(rng.randint(4, 22)):
            f = rng.choice(live)
            o = rng.choice(["FrBest", "FrBest", "FrExt", "FrValid", "FrPrec", "FrSpace", "FrSpace", "FrSample", "FrCov", "FrProj", "FrProj",
                            "FrGetSpace", "FrCopy", "FrCopy", "FrCopy", "FrDel", "FrString", "FrString", "FrNew"])
            e = {"op": o, "f": f}
            if o == "FrBest":
                m = rng.sample(NAMES, rng.randint(0, 4))
                e["d"] = d({p: rng.choice([dy(rng), rng.uniform(-1, 1), rng.uniform(-1, 1) * 10 ** rng.randint(-12, 12), rng.randint(0, 10 ** 7), 999999.6, -.00123456]) for p in m})
            elif o == "FrExt":
                e["x"] = hx(rng.choice([dy(rng), rng.uniform(-100, 100)]))
            elif o == "FrValid":
                e["on"] = rng.random() < .4
            elif o == "FrPrec":
                e["n"] = rng.choice([1, 2, 3, 5, 6, 8, 12, 15])
            elif o == "FrSpace":
                e["hist"] = hist(rng, rng.choice([1, 1, 2]))
            elif o == "FrSample":
                e["rows"] = [[hx(dy(rng)) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(0, 4))]
            elif o == "FrCov":
                k = rng.randint(1, 3)
                e["rows"] = [[hx(dy(rng)) for _ in range(k)] for _ in range(k)]
            elif o == "FrProj":
                e["which"] = rng.choice([1, 2])
                e["hists"] = [hist(rng, e["which"], nm) for nm in rng.sample(["x", "y", "x_y", "z"], rng.randint(0, 3))]
            elif o == "FrCopy":
                e["to"] = rng.choice("fgh")
                if e["to"] not in live:
                    e["how"] = "copy"
                    live.append(e["to"])
                else:
                    e["how"] = "assign"     # sometimes to itself
            elif o == "FrDel":
                if len(live) < 2:
                    continue
                live.remove(f)
            elif o == "FrNew":
                e["f"] = rng.choice("fgh")
                if e["f"] not in live:
                    live.append(e["f"])
            ep.append(e)
        eps.append(ep)
    return eps


def intervals(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        for _ in range(4):
            k = rng.choice([1, 2, 3, 4, 6, 10]) if rng.random() < .95 else rng.randint(20, 70)
            h = {"axes": [axis(rng, "x", k)], "c": [hx(rng.choice([0, 0, 1, 2, rng.randint(0, 100) / 16, rng.random()])) for _ in range(k)]}
            if rng.random() < .05:
                h = hist(rng, 2)
            cl = rng.choice([.9, .5, .25, 1, rng.random(), rng.random(), rng.random() ** 6, 1 - rng.random() ** 6] + ([0, -.5, 1.25] if rng.random() < .2 else []))
            ep.append({"op": "IvHist", "hist": h, "cl": hx(cl)})
        b, c = rng.choice([0, 0, .5, rng.randint(0, 40) / 8, rng.random() * 12]), rng.choice([0, 0, 1, 2, 3, 5, 10, 20])
        ep.append({"op": "IvCounts", "b": hx(b), "n": c, "u": hx(rng.choice([0, .25, 1, rng.random() * 20, rng.random() * 5]))})
        ep.append({"op": "IvBound", "b": hx(b), "n": c, "cl": hx(rng.choice([.9, .5, .95, rng.random(), .0625, rng.choice([0, 1.5, 1])])),
                   "tol": hx(rng.choice([.0625, .03125, .125, .5] + ([0, -1] if rng.random() < .2 else [])))})
        eps.append(ep)
    return eps


def correlations(rng, n):
    eps = []
    for _ in range(n):
        ep = [{"op": "AcNew", "a": "a", "n": rng.choice([1, 1, 2, 3, 5, 8]) if rng.random() < .95 else 20}]
        if rng.random() < .3:
            ep.append({"op": "AcNew", "a": "b", "n": rng.choice([1, 2, 4])})
        names = [e["a"] for e in ep]
        const = rng.random() < .1
        for _ in range(rng.randint(1, 30) if rng.random() < .95 else 90):
            a = rng.choice(names)
            r = rng.random()
            if r < .8:
                ep.append({"op": "AcFill", "a": a, "x": hx(2 if const else rng.choice([dy(rng, 8, 8), rng.uniform(-5, 5)]))})
            elif r < .97:
                ep.append({"op": "AcGet", "a": a})
            else:
                ep.append({"op": "AcClear", "a": a})
        ep.append({"op": "AcGet", "a": names[0]})
        eps.append(ep)
    return eps


def orbits(rng, n):
    eps = []
    for _ in range(n):
        names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
        ep = [{"op": "StNew", "h": "s", "names": names, "terms": poly(rng, names, 3, 2)}]
        q = {p: rng.randint(-64, 64) / 64 for p in names}
        ep.append({"op": "Slope", "s": "s", "d": d(q), "e": hx(rng.choice([1 / 16, 1 / 4, 1 / 128]))})
        ep.append({"op": "Energy", "s": "s", "d": d(q)})
        walls = lambda side: d({p: q[p] + side * rng.randint(1, 12) / 8 for p in rng.sample(names, rng.randint(0, len(names)))})
        ep.append({"op": "Walled", "s": "s", "d": d(q), "lo": walls(rng.choice([-1, -1, 1])), "hi": walls(rng.choice([1, 1, -1])), "mu": hx(rng.choice([1, 8, 2.5, 40]))})
        walled = rng.random() < .6
        lo = d({p: q[p] - rng.randint(1, 40) / 32 for p in names}) if walled else []
        hi = d({p: q[p] + rng.randint(1, 40) / 32 for p in names}) if walled else []
        ep.append({"op": "OrNew", "o": "o", "s": "s", "e": hx(rng.choice([1 / 16, 1 / 8])), "m": d({p: rng.choice([1, 1, 2, .5, 3]) for p in names}),
                   "q": d(q), "p": d({p: rng.choice([rng.randint(-80, 80) / 32, rng.uniform(-2, 2), 0]) for p in names}), "lo": lo, "hi": hi})
        for _ in range(rng.randint(1, 5)):
            if rng.random() < .15:
                ep.append({"op": "OrFlip", "o": "o"})
            e = {"op": "OrRun", "o": "o", "t": hx(rng.choice([.125, .25, .5, .0625, rng.uniform(.05, 1)])), "n": rng.choice([1, 1, 2, 3])}
            if e["n"] == 1 and rng.random() < .5:
                e["one"] = True
            ep.append(e)
        eps.append(ep)
    return eps
