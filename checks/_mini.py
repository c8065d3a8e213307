"""Seeded scripts for MiniSys: statistics, settings and what the minimiser tries."""

Q = {"MnGet"}
POOL = ["a", "b", "c", "B", "_x", "a2", "a10", "m 1"]
DEFAULTS = ("Migrad", "Simplex", "Minimize")


def num(rng):
    return rng.choice(["%d" % rng.randint(-9, 9), "%d/4" % rng.randint(-30, 30), repr(rng.uniform(-5, 5))])


def stat(rng, h, names):
    ts = [dict(k=num(rng), x=[rng.choice(names) for _ in range(rng.randint(0, 3))]) for _ in range(rng.randint(1, 5))]
    ts += [dict(k="%d" % rng.choice([1, 2, -3]), x=[n]) for n in names]
    return dict(op="StNew", h=h, names=names, terms=ts)


def some(rng, names, p):
    return [n for n in names if rng.random() < p]


def settings(rng, m, names):
    o = []
    odd = names + [rng.choice(POOL)]
    k = rng.random()
    if k < .3:
        ns = names if rng.random() < .9 else some(rng, odd, .8)
        both = [[n, num(rng)] for n in dict.fromkeys(ns)]
        o.append(dict(op="MnVals", m=m, d=both))
        if rng.random() < .9:
            o.append(dict(op="MnErrs", m=m, d=[[n, rng.choice(["1", "1/2", "0.1", "3"])] for n, _ in both]))
    elif k < .5:
        ns = list(dict.fromkeys(some(rng, odd if rng.random() < .2 else names, .6)))
        lo = {n: rng.randint(-6, 3) for n in ns}
        o.append(dict(op="MnMin", m=m, d=[[n, "%d" % lo[n]] for n in ns]))
        if rng.random() < .9:
            o.append(dict(op="MnMax", m=m, d=[[n, "%d" % (lo[n] + rng.choice([1, 2, 5, 9] * 4 + [0, -1]))] for n in ns]))
    elif k < .62:
        o.append(dict(op="MnFix", m=m, n=rng.choice(names if rng.random() < .9 else odd)))
    elif k < .72:
        o.append(dict(op="MnRelease", m=m, n=rng.choice(odd)))
    elif k < .8:
        o.append(dict(op="MnMx", m=m, x=rng.random() < .5))
    elif k < .85:
        o.append(dict(op="MnMethod", m=m, x=rng.choice(DEFAULTS * 4 + ("", "migrad", "Migrad2"))))
    elif k < .88:
        o.append(dict(op="MnStrategy", m=m, x=rng.randint(0, 2)))
    elif k < .91:
        o.append(dict(op="MnCalls", m=m, x=rng.choice([0, 1, 100, 100000])))
    elif k < .95:
        o.append(dict(op="MnTol", m=m, x=num(rng)))
    else:
        o.append(dict(op="MnUp", m=m, x=rng.choice(["1", "0.5", "2", "0.1"])))
    return o


def fit(rng, m, s, n):
    return dict(op="MnRun", m=m, s=s, pts=[[num(rng) for _ in range(n)] for _ in range(rng.randint(0, 6))], valid=rng.random() < .8,
                hascov=rng.random() < .8, cov=["%d" % rng.randint(-20, 20) for _ in range(10)])


def fits(rng, n):
    out = []
    for _ in range(n):
        names = rng.sample(POOL, rng.randint(1, 4))
        ep = [stat(rng, "s", names), dict(op="MnNew", m="m")]
        two, other = rng.random() < .4, names
        if two:
            other = names if rng.random() < .4 else rng.sample(POOL, rng.randint(1, 3))
            ep.append(stat(rng, "t", other))
        ep += [dict(op="MnVals", m="m", d=[[x, num(rng)] for x in names]), dict(op="MnErrs", m="m", d=[[x, rng.choice(["1", "0.5", "2"])] for x in names])]
        if rng.random() < .3:
            ep.append(dict(op="MnNew", m="n"))
        for _ in range(rng.randint(2, 12)):
            k = rng.random()
            m = rng.choice(["m", "m"] + [x for x in "nk" if any(o.get("to") == x or o["op"] == "MnNew" and o["m"] == x for o in ep)])
            if k < .5:
                ep += settings(rng, m, names if rng.random() < .6 else other)
            elif k < .85:
                ep.append(fit(rng, m, "t" if two and rng.random() < .4 else "s", len(names)))
            elif k < .9 and two:
                d = [[x, num(rng)] for x in other]
                ep += [dict(op="MnVals", m=m, d=d), dict(op="MnErrs", m=m, d=[[x, "1"] for x, _ in d]), fit(rng, m, "t", len(other))]
            elif k < .94:
                to = rng.choice("nk")
                have = any(o.get("to") == to or o["op"] == "MnNew" and o["m"] == to for o in ep)
                ep.append(dict(op="MnAssign" if have and rng.random() < .5 else "MnCopy", m=m, to=to))
            else:
                ep.append(dict(op="MnGet", m=m))
        out.append(ep + [dict(op="MnGet", m="m")])
    return out
