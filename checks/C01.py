"""C01: every value belongs to exactly one bin."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import concurrent.futures as cf
from vlib import main, hx

Q = {"AxisFind", "AxisBin", "AxisEq", "ColFind", "Flatten", "Unpack", "ColBin", "ColBinAll", "ColAxis", "ColAxisAt", "ColEq"}


def gen(rng, n):
    eps = []
    for _ in range(n):
        ep = []
        hs = []
        nax = rng.randint(1, 5) if rng.random() < .96 else rng.randint(6, 9)
        edges = {}
        names = rng.sample(["e", "r", "u", "t", "zz", "E", "e1", "e10", "_e"], nax) if rng.random() < .8 else [rng.choice("er") for _ in range(nax)]
        for k in range(nax):
            h = "h%d" % k
            name = names[k]
            big = rng.random() < .1
            nb = rng.randint(1, 40 if big else 5) if nax < 6 else rng.randint(1, 3)
            if nax == 1 and rng.random() < .1:
                nb = rng.randint(60, 260)
            r = rng.random()
            if r < .08:
                ep.append({"op": "NewEq", "h": h + "x", "name": name, "latex": "", "min": hx(2), "max": hx(rng.choice([2, 1.5])), "n": nb})
                ep.append({"op": "NewEq", "h": h + "x", "name": name, "latex": "", "min": hx(2), "max": hx(3), "n": 0})
            if r < .15:
                lo = sorted(rng.uniform(-5, 5) for _ in range(3))
                hi = lo[1:] + [6]
                which = rng.randint(0, 3)
                if which == 0: hi = hi[:-1]
                elif which == 1: lo = [lo[1], lo[0], lo[2]]
                elif which == 2: hi[2] = lo[2] - 1
                else: lo, hi = [], []
                ep.append({"op": "NewEdge", "h": h + "y", "name": name, "latex": "q", "lo": [hx(x) for x in lo], "hi": [hx(x) for x in hi]})
            if rng.random() < .55:
                mn = rng.choice([rng.randint(-8, 8) / 4, rng.uniform(-1e3, 1e3), 0, 1e-7, -1e6])
                w = rng.choice([1, .5, 3, 0.1, rng.uniform(1e-3, 50)])
                mx = mn + w * nb
                ep.append({"op": "NewEq", "h": h, "name": name, "latex": rng.choice(["", "$E$"]), "min": hx(mn), "max": hx(mx), "n": nb})
                bw = (mx - mn) / nb
                edges[h] = [mn + i * bw for i in range(nb + 1)]
            else:
                e = sorted({rng.choice([rng.randint(-40, 40) / 8, rng.uniform(-9, 9)]) for _ in range(nb + 1)})
                while len(e) < 2:
                    e.append(e[-1] + 1)
                nb = len(e) - 1
                ep.append({"op": "NewEdge", "h": h, "name": name, "latex": rng.choice(["", "$R^3$"]), "lo": [hx(x) for x in e[:-1]], "hi": [hx(x) for x in e[1:]]})
                edges[h] = e
                if nb > 1 and rng.random() < .3:      # the same but for a gap between two bins
                    j = rng.randrange(nb - 1)
                    hi = e[1:]
                    hi[j] = (e[j] + e[j + 1]) / 2
                    ep.append({"op": "NewEdge", "h": h + "g", "name": name, "latex": "", "lo": [hx(x) for x in e[:-1]], "hi": [hx(x) for x in hi]})
                    ep += [{"op": "AxisEq", "h": h, "g": h + "g"}, {"op": "AxisEq", "h": h + "g", "g": h}]
                    ep += [{"op": "AxisFind", "h": h + "g", "v": hx(x)} for x in e]
                    ep += [{"op": "AxisBin", "h": h + "g", "i": i} for i in range(nb)]
            hs.append((h, nb))

        def val(h):
            e = edges[h]
            r = rng.random()
            if r < .4:
                return rng.choice(e)
            if r < .5:
                import math
                return math.nextafter(rng.choice(e), rng.choice([-1e300, 1e300]))
            if r < .6:
                return rng.choice([-1e300, 1e300, 0, -0.0, 1e-300, float("inf"), float("-inf")])
            w = e[-1] - e[0]
            return rng.uniform(e[0] - w / 4, e[-1] + w / 4)
        for h, nb in hs:
            for _ in range(6):
                ep.append({"op": "AxisFind", "h": h, "v": hx(val(h))})
            for i in {0, nb - 1, nb, nb + 3, rng.randint(0, nb)}:
                ep.append({"op": "AxisBin", "h": h, "i": i})
        ep.append({"op": "AxisEq", "h": rng.choice(hs)[0], "g": rng.choice(hs)[0]})
        for c in ("c", "d")[:rng.randint(1, 2)]:
            ep.append({"op": "NewCol", "c": c})
            order = hs[:]
            rng.shuffle(order)
            inc = []
            used = set()
            todo = order[:rng.randint(1, len(order))]
            if rng.random() < .3:
                # some at once; a name that is taken stops it where it is
                k = rng.randint(0, len(todo))
                ep.append({"op": "AddAxes", "c": c, "hs": [h for h, _ in todo[:k]]})
                if len(set(names[int(h[1:])] for h, _ in todo[:k])) < k:
                    break
                for h, nb in todo[:k]:
                    used.add(names[int(h[1:])])
                    inc.append((h, nb))
                todo = todo[k:]
            for h, nb in todo:
                ep.append({"op": "AddAxis", "c": c, "h": h})
                nm = names[int(h[1:])]
                if nm not in used:
                    used.add(nm)
                    inc.append((h, nb))
                tot = 1
                for _, m in inc:
                    tot *= m
                for _ in range(4):
                    ep.append({"op": "ColFind", "c": c, "vals": [hx(val(g)) for g, _ in inc]})
                    ep.append({"op": "Flatten", "c": c, "idx": [rng.randrange(m) for _, m in inc]})
                    b = rng.choice([0, tot - 1, tot, tot + 1, rng.randrange(tot), rng.randrange(tot)])
                    ep.append({"op": "Unpack", "c": c, "bin": b})
                    ep.append({"op": "ColBin", "c": c, "bin": b, "dim": rng.randint(0, len(inc))})
                    ep.append({"op": "ColBinAll", "c": c, "bin": b})
                    if rng.random() < .1:
                        ep.append({"op": "ColBinAll", "c": c, "bin": b, "room": max(0, len(inc) + rng.choice([-1, 1]))})
            for h, _ in rng.sample(inc, min(len(inc), 3)):      # each name only once, wherever it stands
                ep.append({"op": "AddAxis", "c": c, "h": h})
            ep.append({"op": "ColFind", "c": c, "vals": [hx(0)] * (len(inc) + rng.choice([-1, 1]))})
            ep.append({"op": "Flatten", "c": c, "idx": [0] * (len(inc) + 1)})
            for nm in ["e", "r", "nope"]:
                ep.append({"op": "ColAxis", "c": c, "name": nm})
            ep.append({"op": "ColAxisAt", "c": c, "i": rng.randint(0, len(inc))})
            ep.append({"op": "ColEq", "c": c, "d": "c"})
        eps.append(ep)
    return eps


def run(c):
    with cf.ThreadPoolExecutor(2) as ex:
        b = ex.submit(c.driver, "drv_axes")
        scripts = c.model("AxesMC", "AxesMC.cfg", workers=4, consts={"DoEmit": "TRUE"}, emit=True)
        b.result()
    from vlib import merge_scripts
    eps = merge_scripts(scripts, Q)
    if not c.thorough:
        c.rng.shuffle(eps)
        keep, tot = [], 0
        for e in eps:
            if tot > 30000: break
            keep.append(e); tot += len(e)
        eps = keep
    c.conform("drv_axes", "AxesTrace", "AxesTrace.cfg", eps, "tlc")
    c.conform("drv_axes", "AxesTrace", "AxesTrace.cfg", gen(c.rng, 20000 if c.thorough else 600), "random")
    if c.thorough:
        c.model("AxesMC", "AxesMC.cfg", workers=8, consts={"MaxDim": "3"})


if __name__ == "__main__":
    main("C01", run)
