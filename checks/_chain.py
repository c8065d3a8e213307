"""Seeded scripts for ChainSys: scripted proposals, Metropolis and Hamiltonian steps; all random numbers are in the script."""
from vlib import hx
from _fit import NAMES, poly, d

Q = {"ChRun", "SmGet"}


def u(rng):
    return hx(rng.choice([rng.random(), rng.random(), rng.random(), rng.random() ** 4, .5, 1 - rng.random() ** 8]))


def positive(rng, names):
    t = [{"k": hx(rng.choice([.5, 1, 2, .125])), "x": []}]
    for _ in range(rng.randint(1, 3)):
        t.append({"k": hx(rng.choice([1, .5, 4])), "x": [rng.choice(names)] * 2})
    return t


def axes(rng, names, mn, mx, order):
    a = []
    for n in order:
        lo, hi = mn[n] - rng.choice([0, 0, .5]), mx[n] + rng.choice([0, 0, .25])
        k = rng.choice([1, 2, 3, 5])
        e = sorted({lo, hi} | {lo + (hi - lo) * rng.randint(1, 31) / 32 for _ in range(k - 1)})
        if len(e) < 2:
            e = [lo, lo + 1]
        a.append({"name": n, "lo": [hx(v) for v in e[:-1]], "hi": [hx(v) for v in e[1:]]})
    return a


def config(rng, names, iters, logged):
    mn = {n: rng.randint(-24, 0) / 8 for n in names}
    mx = {n: mn[n] + rng.choice([1, 2, .5, rng.randint(1, 40) / 8]) for n in names}
    if rng.random() < .05:
        n = rng.choice(names)
        mx[n] = mn[n]
    start = {}
    if rng.random() < .6:
        start = {n: mn[n] + (mx[n] - mn[n]) * rng.randint(0, 8) / 8 for n in names}
    full = rng.random() < .35
    ax = []
    if rng.random() < .6:
        ax = axes(rng, names, mn, mx, rng.sample(names, len(names)))
    c = {"op": "ChNew", "c": "c", "min": d(mn), "max": d(mx), "start": d(start), "flip": rng.random() < .5, "logged": logged, "iter": iters,
         "burn": rng.choice([0, 0, 1, 2, 5, iters, iters + 3]), "thin": rng.choice([1, 1, 1, 2, 3, 7]), "full": full, "save": rng.random() < .5, "axes": ax}
    if rng.random() < .3:
        c["say"] = True
    return c, mn, mx


def broken(rng, c, names):
    """a dictionary that does not fit the statistic"""
    k = rng.choice(["min", "max", "start"])
    v = dict(c[k]) if c[k] else {n: hx(0) for n in names}
    how = rng.choice(["less", "more", "other"])
    if how in ("less", "other"):
        del v[rng.choice(list(v))]
    if how in ("more", "other"):
        v["zz"] = hx(0)
    if not v:
        return
    c[k] = [[n, v[n]] for n in v]


def chain(rng, kind):
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 2, 3] if kind != "hmc" else [1, 2, 2]))
    logged = kind == "hmc" or rng.random() < .6
    iters = rng.choice([0, 1, 2, 4, 8, 9, 16, 20, 27, 40] if kind != "hmc" else [1, 3, 6, 9])
    st = {"op": "StNew", "h": "s", "names": names, "terms": poly(rng, names, 4, 2) if logged else positive(rng, names)}
    c, mn, mx = config(rng, names, iters, logged)
    sm = {"kind": kind}
    if kind == "metro":
        sig = {n: rng.choice([.25, .5, 1, .125, rng.random()]) for n in names}
        fix = rng.sample(names, rng.choice([0, 0, 0, 1])) if len(names) > 1 else []
        free = [n for n in names if n not in fix]
        if rng.random() < .1:
            sig["more"] = 1
        sm.update(sig=d(sig), fix=fix, freed=rng.sample(free, rng.choice([0, 0, min(1, len(free))])))
    if kind == "hmc":
        unit = rng.random() < .3
        m = {n: 1 if unit else rng.choice([1, 2, .5, 3]) for n in names}
        walled = rng.random() < .5
        sm.update(eps=hx(rng.choice([.125, .25, .5])), n=rng.choice([1, 2, 3]), m=d(m), lo=d(mn) if walled else [], hi=d(mx) if walled else [])
        if unit:
            sm["unit"] = True
    steps = []
    for _ in range(iters):
        s = {"u": [u(rng)], "g": [u(rng) for _ in names]}
        if kind == "script":
            p = {n: mn[n] + (mx[n] - mn[n]) * rng.randint(0, 16) / 16 for n in names}
            if rng.random() < .2:
                n = rng.choice(names)
                p[n] = rng.choice([mn[n] - rng.choice([.125, 1, 1e-9]), mx[n] + rng.choice([.125, 2, 1e-9])])
            s.update(p=d(p), corr=hx(rng.choice([0, 0, 0, 1, -1, .5, rng.uniform(-2, 2)])))
        else:
            s.update(p=[], corr=hx(0))
        steps.append(s)
    if rng.random() < .08:
        broken(rng, c, names)
    su = [u(rng) for _ in names]
    order = sorted(names)
    run = {"op": "ChRun", "c": "c", "s": "s", "sm": sm, "su": su, "steps": steps, "names": [[n, n.replace("-", "_", 1)] for n in order]}
    return [st, c, run]


def scripted(rng, n):
    eps = []
    for _ in range(n):
        ep = chain(rng, "script")
        # the same object again, or a copy of it, told other things and about another statistic
        while rng.random() < .4:
            more = chain(rng, rng.choice(["script", "script", "metro"]))
            more[1]["save"] = more[1]["save"] or ep[-2]["save"]
            more[2]["again"] = rng.choice(["same", "same", "copy"])
            ep += more
        eps.append(ep)
    return eps


def metropolis(rng, n):
    return [chain(rng, "metro") for _ in range(n)]


def hamiltonian(rng, n):
    return [chain(rng, "hmc") for _ in range(n)]


def accounts(rng, n):
    """The samples a chain keeps, told of steps, cleared and told again."""
    eps = []
    for _ in range(n):
        names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
        c, mn, mx = config(rng, names, rng.choice([1, 4, 9, 16, 27, 100]), True)
        c.update(op="SmNew", h="m", burn=rng.choice([0, 0, 1, 2, 4]))
        c.pop("c")
        c = dict(c)
        if c["axes"] and rng.random() < .1:
            c["axes"] = c["axes"][:-1] or c["axes"] + [dict(c["axes"][0], name="zz")]
        ep = [dict(c)]
        order = [[x, x.replace("-", "_", 1)] for x in sorted(names)]
        told = 0

        def get():
            ep.append({"op": "SmGet", "h": "m", "names": order, "told": told > 0})
        for k in range(rng.randint(4, 30)):
            q = rng.random()
            if q < .75:
                at = {x: mn[x] + (mx[x] - mn[x]) * rng.randint(-1, 17) / 16 for x in names}
                ep.append({"op": "SmFill", "h": "m", "at": d(at), "v": hx(rng.choice([0, -1, 2.5, rng.uniform(-9, 9)])), "acc": rng.random() < .5})
                told += 1
            elif q < .82:
                ep.append({"op": "SmSet", "h": "m", "burn": rng.choice([0, 1, 3]), "thin": rng.choice([1, 2, 3])})
            elif q < .9:
                ep.append({"op": "SmClear", "h": "m"})
                told = 0
                if rng.random() < .5:
                    get()
                if rng.random() < .5:
                    c["save"] = c["save"] or rng.random() < .5
                    ep.append({"op": "SmKeep", "h": "m", "full": rng.random() < .5, "save": c["save"]})
            elif len(c["axes"]) in (0, len(names)):
                get()
        if len(c["axes"]) in (0, len(names)):
            get()
        eps.append(ep)
    return eps
