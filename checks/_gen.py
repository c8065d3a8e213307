"""Seeded scripts for GenSys."""
from vlib import hx

Q = {"All", "GenSpread", "Binned", "VonNeumann", "Spread", "Gaus", "Poisson"}


def rate(rng, hi):
    return rng.choice([0, 1, rng.randint(0, hi), rng.randint(0, hi), rng.randint(0, 4 * hi) / 4, .5, 1.5])


def draws(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        nsets = rng.choice([1, 2, 2, 3])
        sets = {}
        for k in range(nsets):
            h = "ABC"[k]
            m = rng.choice([1, 2, 3, 5, 8, 12]) if rng.random() < .95 else rng.randint(70, 150)
            sets[h] = [rng.randint(-3, 3) + .25 for _ in range(m)]
            ep.append({"op": "SetNew", "h": h, "k": k + 1, "names": ["id", "x"] if k == 0 or rng.random() < .8 else ["i" + h, "x"], "xs": [hx(x) for x in sets[h]]})
        mode = {h: rng.choice("brs") for h in sets}      # bootstrap, random, sequential
        src = rng.sample(sorted(sets), nsets)
        names = {e["h"]: e["names"] for e in ep}
        if len(set(map(tuple, names.values()))) > 1:
            cutok = False
        else:
            cutok = rng.random() < .4
        ep.append({"op": "GenNew", "g": "g"})
        boot = [mode[h] == "b" for h in src]
        seq = [mode[h] == "s" or (mode[h] == "b" and rng.random() < .5) for h in src]
        # (a bootstrapped set's sequential flag has no meaning)
        rates = [rate(rng, len(sets[h]) // rng.choice([1, 2, 3]) + 1) for h in src]
        if rng.random() < .5:
            for h, r, s in zip(src, rates, seq):
                ep.append({"op": "GenAdd", "g": "g", "h": h, "rate": hx(r), "seq": s})
            ep.append({"op": "GenBoot", "g": "g", "flags": boot})
        else:
            o = [{"op": "GenSets", "g": "g", "src": list(src)}, {"op": "GenRates", "g": "g", "rates": [hx(r) for r in rates]},
                 {"op": "GenBoot", "g": "g", "flags": boot}, {"op": "GenSeq", "g": "g", "flags": list(seq)}]
            rng.shuffle(o)
            if rng.random() < .06:
                del o[rng.randrange(4)]
            elif rng.random() < .06:
                for x in o:
                    if x["op"] == rng.choice(["GenRates", "GenBoot", "GenSeq"]) and len(src) > 1:
                        k = "rates" if x["op"] == "GenRates" else "flags"
                        x[k] = x[k][:-1]
            ep += o
        complete = True
        cuts = []
        if cutok:
            for _ in range(rng.choice([1, 1, 2])):
                cuts.append([hx(rng.choice([-9, -2, -1, 0])), hx(rng.choice([1, 2, 3, 9]))])
            if rng.random() < .5:
                ep += [{"op": "GenCut", "g": "g", "lo": c[0], "hi": c[1]} for c in cuts]
            else:
                ep.append({"op": "GenSetCuts", "g": "g", "cuts": cuts})
        gs = ["g"]
        torn = set()
        cur = {"g": list(rates)}
        left = {"g": {h: len(sets[h]) for h in src}}
        ok = len([e for e in ep if e["op"] in ("GenSets", "GenRates", "GenBoot", "GenSeq")]) == 4 and all(
            len(e.get("src", e.get("rates", e.get("flags", [])))) == len(src) for e in ep if e["op"] in ("GenSets", "GenRates", "GenBoot", "GenSeq")) or any(e["op"] == "GenAdd" for e in ep)
        unknown = set()
        for _ in range(rng.choice([2, 4, 8, 12])):
            g = rng.choice(gs)
            k = rng.random()
            if not ok and k < .5:
                ep.append({"op": "Draw", "g": g, "poi": rng.random() < .5, "take": True})
                ep.append({"op": "GenReset", "g": g})
                continue
            if k < .42:
                poi = rng.random() < .35
                if g in torn:
                    continue
                ep.append({"op": "Draw", "g": g, "poi": poi, "take": rng.random() < .7})
                cs = [int(r + .5) for r in cur[g]]
                bad = any(mode[h] != "b" and c > left[g][h] for h, c in zip(src, cs))
                if poi:
                    # how many were drawn is not known here: a reset follows unless enough is left whatever happens
                    worst = [int(2 * r) for r in cur[g]]
                    if any(mode[h] != "b" and c > left[g][h] for h, c in zip(src, worst)):
                        ep.append({"op": "GenReset", "g": g})
                        left[g] = {h: len(sets[h]) for h in src}
                        unknown.discard(g)
                    else:
                        unknown.add(g)
                        for h, c in zip(src, worst):
                            if mode[h] != "b":
                                left[g][h] -= c
                elif g in unknown and bad:
                    ep.append({"op": "GenReset", "g": g})
                    left[g] = {h: len(sets[h]) for h in src}
                    unknown.discard(g)
                elif bad:
                    if rng.random() < .8:
                        ep.append({"op": "GenReset", "g": g})
                        left[g] = {h: len(sets[h]) for h in src}
                    else:
                        torn.add(g)
                else:
                    for h, c in zip(src, cs):
                        if mode[h] != "b":
                            left[g][h] -= c
            elif k < .6:
                if g in torn:
                    continue
                i = rng.randrange(len(src) + (rng.random() < .1))
                ep.append({"op": "Left", "g": g, "i": i, "names": names[src[i]] if i < len(src) else []})
            elif k < .68 and ok and not cuts and g not in torn and g not in unknown:
                i = rng.randrange(len(src))
                m = len(sets[src[i]]) if mode[src[i]] == "b" else left[g][src[i]]
                if m:
                    ep.append({"op": "GenSpread", "g": g, "i": i, "n": m, "of": len(src)})
            elif k < .76:
                ep.append({"op": "GenReset", "g": g})
                torn.discard(g)
                unknown.discard(g)
                left[g] = {h: len(sets[h]) for h in src}
            elif k < .86 and ok:
                cur[g] = [rate(rng, max(1, len(sets[h]) // rng.choice([1, 2, 3]))) for h in src]
                ep.append({"op": "GenRates", "g": g, "rates": [hx(r) for r in cur[g]]})
            elif k < .9 and ok and not cuts and len(gs) == 1:
                # from now on drawn in another way
                for h in src:
                    if rng.random() < .6:
                        mode[h] = rng.choice("brs")
                o = [{"op": "GenBoot", "g": g, "flags": [mode[h] == "b" for h in src]},
                     {"op": "GenSeq", "g": g, "flags": [mode[h] == "s" or (mode[h] == "b" and rng.random() < .5) for h in src]}]
                rng.shuffle(o)
                ep += o
            elif k < .93 and not cuts:
                ep.append({"op": "All", "g": g})
            elif g == "g" and rng.random() < .5:
                if g in torn:
                    continue
                ep.append({"op": "GenCopy", "g": "g", "to": "h"})
                cur["h"], left["h"] = list(cur["g"]), dict(left["g"])
                torn.discard("h")
                unknown.discard("h")
                if "g" in unknown:
                    unknown.add("h")
                if "h" not in gs:
                    gs.append("h")
            elif rng.random() < .25 and ok and len(gs) == 1 and len(sets) < 5:
                # one more, for a generator that has drawn already
                h = "ABCDE"[len(sets)]
                sets[h] = [rng.randint(-3, 3) + .25 for _ in range(rng.choice([1, 2, 3, 6]))]
                names[h] = names[src[0]]
                mode[h] = rng.choice("brs")
                ep.append({"op": "SetNew", "h": h, "k": len(sets), "names": names[h], "xs": [hx(x) for x in sets[h]]})
                src.append(h)
                seq.append(mode[h] == "s")
                r = rate(rng, len(sets[h]) // 2 + 1)
                o = [{"op": "GenAdd", "g": g, "h": h, "rate": hx(r), "seq": seq[-1]},
                     {"op": "GenBoot", "g": g, "flags": [mode[x] == "b" for x in src]}]
                rng.shuffle(o)
                ep += o
                cur[g].append(r)
                left[g][h] = len(sets[h])
            elif rng.random() < .15 and ok:
                # the same sets again
                ep.append({"op": "GenSets", "g": g, "src": list(src)})
                torn.discard(g)
                unknown.discard(g)
                left[g] = {h: len(sets[h]) for h in src}
            elif rng.random() < .2 and ok:
                # everything anew, in another way
                ep.append({"op": "GenClear", "g": g})
                if rng.random() < .3:
                    ep.append({"op": "Draw", "g": g, "poi": False, "take": True})
                for h, r, s in zip(src, cur[g], seq):
                    ep.append({"op": "GenAdd", "g": g, "h": h, "rate": hx(r), "seq": s})
                torn.discard(g)
                unknown.discard(g)
                left[g] = {h: len(sets[h]) for h in src}
        eps.append(ep)
    return eps


def axes(rng, d):
    r = []
    for k in range(d):
        n = rng.choice([1, 2, 3, 4])
        e = [rng.randint(-3, 0)]
        for _ in range(n):
            e.append(e[-1] + rng.choice([.5, 1, 2]))
        r.append({"name": "xyz"[k], "lo": [hx(x) for x in e[:-1]], "hi": [hx(x) for x in e[1:]]})
    return r


def binned(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        ax = axes(rng, rng.choice([1, 1, 2]))
        nb = 1
        for a in ax:
            nb *= len(a["lo"])
        for _ in range(rng.choice([1, 2])):
            pdfs = []
            for k in range(rng.choice([1, 2, 2, 3, 4])):
                c = [rng.choice([0, 0, 1, 2, .25, 3, rng.randint(0, 40) / 8]) for _ in range(nb)]
                if not any(c):
                    c[rng.randrange(nb)] = rng.choice([1, .5, 7])
                pdfs.append({"name": rng.choice(["a", "b", "c", "bb_d"]), "c": [hx(x) for x in c]})
            rates = [hx(rng.choice([0, 1, 2, 3, 5, rng.randint(0, 60) / 4])) for _ in pdfs]
            if rng.random() < .04:
                rates = rates[:-1] if rng.random() < .5 else rates + ["1"]
            if rng.random() < .02:
                pdfs, rates = [], rng.choice([[], ["1"]])
            ep.append({"op": "Binned", "g": rng.choice("bc"), "axes": ax, "pdfs": pdfs, "rates": rates, "poi": rng.random() < .5, "name": rng.choice(["", "", "fake"]),
                       "us": [hx(rng.random()) for _ in range(140)]})
        eps.append(ep)
    return eps


def numbers(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        for _ in range(rng.choice([2, 5])):
            k = rng.random()
            if k < .45:
                a = rng.randint(-16, 16) / 4
                b = a + rng.choice([1, 2, .5, 4]) if rng.random() < .93 else a - rng.choice([0, 1])
                p = [hx(rng.randint(-8, 8) / 4) for _ in range(rng.randint(1, 3))]
                y = rng.choice([1, 2, 4, .5]) if rng.random() < .93 else rng.choice([0, -1])
                us = []
                for _ in range(rng.choice([1, 4, 12])):
                    us += [hx(rng.randint(0, 255) / 256), hx(rng.randint(0, 255) / 256)]
                # at last one that is taken: a place where the function is not negative
                ok = None
                for j in rng.sample(range(64), 64):
                    x = a + j / 64 * (b - a)
                    if sum(float.fromhex(c) * x ** i for i, c in enumerate(p)) >= 0:
                        ok = j
                        break
                if ok is None:
                    continue
                us += [hx(ok / 64), hx(0)]
                ep.append({"op": "VonNeumann", "p": p, "dims": 1 if rng.random() < .95 else rng.choice([0, 2]), "a": hx(a), "b": hx(b), "y": hx(y), "us": us})
            elif k < .7:
                kind = rng.choice(["range", "uniform", "unit", "shoot"])
                m = rng.randint(1, 40)
                a = hx(rng.randint(-8, 8) / 2) if kind == "range" else "0"
                b = {"range": hx(float.fromhex(a) + rng.choice([1, .5, 3, 100])) if kind == "range" else 0, "uniform": hx(rng.choice([1, 2.5, 100])), "unit": "1", "shoot": str(m)}[kind]
                ep.append({"op": "Spread", "kind": kind, "a": a, "b": b, "n": m})
            elif k < .8:
                ep.append({"op": "Gaus", "mean": hx(rng.uniform(-9, 9)), "sd": hx(rng.choice([0, 1, rng.uniform(0, 5)])), "u": hx(rng.random())})
            elif k < .88:
                ep.append({"op": "Poisson", "mean": hx(rng.choice([0, 1, rng.uniform(0, 50)])), "u": hx(rng.random())})
            else:
                ep.append({"op": "Seed", "s": rng.randint(0, 4), "n": rng.choice([1, 3, 9])})
        eps.append(ep)
    return eps
