"""Seeded scripts for IoSys: data sets, lazy data sets, ROOT trees and histograms through files."""

import json

Q = {"IoGet", "IoRows", "IoEntry", "IoHistGet", "IoSeeTh", "DtTo", "DtPdf", "RtBaskets"}
H5 = [["a", "h5"], ["b", "h5"], ["long.name", "h5"]]
ROOT = [["c", "root"], ["d", "root"]]
BAD = [["a"], ["a", "txt"], ["a", "h5", "gz"], ["h5"], ["a", "H5"], ["a", ""]]


def name(rng):
    k = rng.random()
    if k < .6:
        return [rng.choice(["x", "y", "energy", "radius", "r 2", "t-1", "z_{reco}", "q/e", "E (MeV)"])]
    if k < .9:
        return ["".join(rng.choice("abcdefgh_ ()^{}\\|") for _ in range(rng.choice([1, 3, 8, 20, 40, 63, 64, 65, 90])))]
    if k < .95:
        return rng.choice([["_"], [""]])
    return rng.choice([["a", "b"], ["", ""], ["p", ""], ["", "q"], ["a", "b", "c"]])


def names(rng, n, ok=.9):
    r = []
    for _ in range(n):
        x = name(rng)
        while x in r or (rng.random() < ok and len(x) > 1):
            x = name(rng)
        r.append(x)
    return r


def real(rng):
    k = rng.random()
    if k < .5:
        return "%d" % rng.randint(-50, 50)
    if k < .8:
        return repr(rng.uniform(-1e3, 1e3))
    if k < .95:
        return repr(rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30))
    return rng.choice(["inf", "-inf", "nan", "0", "1e-310", "16777217", "1e300"])


def rows(rng, n, w):
    return [[real(rng) for _ in range(w)] for _ in range(n)]


def dataset(rng, h):
    w = rng.choice([1, 1, 2, 2, 3, 5])
    n = rng.choice([0, 1, 2, 3, 5, 9, 20])
    m = w if rng.random() < .93 else rng.choice([0, 1, w + 1])
    return dict(op="IoDs", h=h, names=names(rng, m), rows=rows(rng, n, w))


def files(rng, h5=.7):
    return rng.choice(H5) if rng.random() < h5 else rng.choice(ROOT) if rng.random() < .85 else rng.choice(BAD)


def look(rng, frm, h):
    k = rng.random()
    if k < .5:
        return [dict(op="IoRows", **{"from": frm}, h=h)]
    if k < .75:
        return [dict(op="IoGet", **{"from": frm}, h=h)]
    return [dict(op="IoGet", **{"from": frm}, h=h), dict(op="IoRows", **{"from": frm}, h=h)]


def sets(rng, n):
    """data sets to and from files, by all readers"""
    out = []
    for _ in range(n):
        ep, ds, rd, lz = [], [], [], []
        for h in "pqs"[:rng.randint(1, 3)]:
            ep.append(dataset(rng, h))
            ds.append(h)
        for _ in range(rng.randint(4, 16)):
            k = rng.random()
            src = [("ds", h) for h in ds] + [("root", h) for h in rd] + [("lazy", h) for h in lz]
            frm, h = rng.choice(src)
            if k < .3:
                ep.append(dict(op="IoSave", **{"from": frm}, h=h, f=files(rng), tree=rng.choice(["t", "tree", "u"])))
            elif k < .45:
                to = rng.choice("pqsv")
                ep.append(dict(op="IoLoad", f=files(rng, .9), h=to))
                ep += [dict(op="IoRows", **{"from": "ds"}, h=to)] if to in ds else []
            elif k < .55:
                r = rng.choice("rR")
                ep.append(opening(rng, ep, r))
                # it may have been refused: only look at those that are known from the file
                ep.append(dict(op="Maybe", r=r))
            elif k < .62:
                ep.append(rng.choice([dict(op="IoRm", f=rng.choice(H5 + ROOT)), dict(op="IoJunk", f=rng.choice(H5 + ROOT))]))
            elif k < .7 and len(lz) < 3:
                l = "klm"[len(lz)]
                lz.append(l)
                ep.append(dict(op="LzNew", l=l, f=rng.choice(H5)))
            elif k < .8:
                ep.append(dict(op="IoEntry", **{"from": frm}, h=h, i=rng.randint(0, 10)))
            else:
                ep += look(rng, frm, h)
        out.append(resolve(no_blank(ep)))
    return out


def opening(rng, ep, r):
    """mostly of something that may be there"""
    there = [o for o in ep if o["op"] == "RtTree" or (o["op"] == "IoSave" and o["f"] in ROOT)]
    o = rng.choice(there) if there and rng.random() < .85 else dict(f=rng.choice(ROOT), tree="tree")
    return dict(op="RtOpen", r=r, f=o["f"], tree=o["tree"], kind=rng.choice(["tree", "ntuple"]))


def resolve(ep):
    """what an opened reader is asked depends on whether it opened: keep a small picture of the disk"""
    disk, known, state, res = {}, set(), {}, []
    for o in ep:
        f = tuple(o["f"]) if "f" in o else None
        if o["op"] == "IoDs":
            state[o["h"]] = o
        if o.get("from") == "root" and o["h"] not in known:
            continue
        if o["op"] == "Maybe":
            if o["r"] in known:
                res.append(dict(op="IoRows", **{"from": "root"}, h=o["r"]))
            continue
        if o["op"] in ("RtBaskets", "RtDel") and o["r"] not in known:
            continue
        if o["op"] == "RtTree":
            if isinstance(disk.get(f), dict):
                disk[f][o["tree"]] = o["nt"]
            else:
                disk[f] = {o["tree"]: o["nt"]}
        elif o["op"] in ("IoRm", "IoJunk"):
            disk.pop(f, None)
        elif o["op"] == "IoSave" and f[-1] == "root" and len(f) > 1:
            # only a data set in memory that can be written: otherwise nobody opens the file in these scripts
            disk.pop(f, None)
            if o["from"] == "ds" and o["h"] in state:
                d = state[o["h"]]
                w = len(d["rows"][0]) if d["rows"] else len(d["names"])
                if d["names"] and w == len(d["names"]) and all(len(x) == 1 for x in d["names"]):
                    disk[f] = {o["tree"]: True}
        elif o["op"] == "IoLoad":
            state.pop(o["h"], None)
        elif o["op"] == "IoSaveHist" and f[-1] == "root":
            disk.pop(f, None)
        elif o["op"] == "RtOpen":
            t = disk.get(f)
            if t and o["tree"] in t and (t[o["tree"]] or o["kind"] == "tree"):
                known.add(o["r"])
        elif o["op"] == "RtDel":
            known.discard(o["r"])
        res.append(o)
    return res


def no_blank(ep):
    """a TNtuple needs names: no empty ones where ROOT files are around"""
    if '"root"' not in json.dumps(ep):
        return ep

    def walk(x, inside):
        if isinstance(x, dict):
            return {k: walk(v, k in ("names", "name", "latex", "title")) for k, v in x.items()}
        if isinstance(x, list):
            if inside and x == [""]:
                return ["nil"]
            return [walk(y, inside) for y in x]
        return x
    return walk(ep, False)


def lazies(rng, n):
    """lazy data sets over files that change"""
    out = []
    for _ in range(n):
        ep = []
        w = rng.randint(1, 3)
        nm = names(rng, w, 1)
        for h in "pqs":
            ep.append(dict(op="IoDs", h=h, names=nm if rng.random() < .5 else names(rng, w, 1), rows=rows(rng, rng.randint(1, 4), w)))
        lz = []
        for _ in range(rng.randint(8, 24)):
            k = rng.random()
            if not lz or (k < .12 and len(lz) < 4):
                l = rng.choice([x for x in "jklm" if x not in lz])
                lz.append(l)
                ep.append(dict(op="LzNew", l=l, f=rng.choice(H5[:2])))
                continue
            l = rng.choice(lz)
            if k < .3:
                ep.append(dict(op="IoSave", **{"from": rng.choice(["ds"] * 4 + ["lazy"])}, h="", f=rng.choice(H5[:2]), tree=""))
                ep[-1]["h"] = l if ep[-1]["from"] == "lazy" else rng.choice("pqs")
            elif k < .35:
                ep.append(rng.choice([dict(op="IoRm", f=rng.choice(H5[:2])), dict(op="IoJunk", f=rng.choice(H5[:2]))]))
            elif k < .42:
                ep.append(dict(op="LzLoad", l=l))
            elif k < .48:
                ep.append(dict(op="LzClose", l=l))
            elif k < .55:
                to = rng.choice("jklm")
                if to == l:
                    continue
                ep.append(dict(op="LzCopy", l=l, to=to))
                if to not in lz:
                    lz.append(to)
            elif k < .62:
                ep.append(dict(op="LzAssign", l=l, to=rng.choice(lz)))
            elif k < .66 and len(lz) > 1:
                lz.remove(l)
                ep.append(dict(op="LzDel", l=l))
            elif k < .75:
                ep.append(dict(op="IoEntry", **{"from": "lazy"}, h=l, i=rng.randint(0, 4)))
            else:
                ep += look(rng, "lazy", l)
        out.append(ep)
    return out


def edges(rng, n):
    x = rng.randint(-5, 5)
    r = ["%d" % x]
    for _ in range(n):
        x += rng.choice([1, 1, 2, .5, .25, 3])
        r.append(repr(x))
    if rng.random() < .3:       # some that are not exact
        k = rng.choice([.1, 1 / 3., 1e-3, 77.7])
        r = [repr(float(v) * k) for v in r]
    return r


def axes(rng, dim, gap=.1, ok=.95):
    r = []
    for nm in names(rng, dim, ok):
        e = edges(rng, rng.randint(1, 4))
        lo, hi = e[:-1], e[1:]
        if rng.random() < gap:      # a gap before the next bin
            k = rng.randrange(len(lo))
            hi = hi[:k] + [repr((float(lo[k]) + float(hi[k])) / 2)] + hi[k + 1:]
        r.append(dict(name=nm, latex=nm if rng.random() < .5 else (names(rng, 1, ok)[0]), lo=lo, hi=hi))
    for a in r:
        if a["latex"] == [""]:
            a["latex"] = a["name"]
    return r


def bins(ax):
    n = 1
    for a in ax:
        n *= len(a["lo"]) if "lo" in a else len(a["edges"]) - 1
    return n


def histograms(rng, n):
    out = []
    for _ in range(n):
        ep, hs = [], {}
        for h in "gh"[:rng.randint(1, 2)]:
            dim = rng.choice([1, 1, 2, 2, 3, 4])
            rt = rng.random() < .6
            a = axes(rng, dim, 0 if rt else .15)
            ep.append(dict(op="IoHist", h=h, axes=a, c=[real(rng) for _ in range(bins(a))]))
            if rt:      # what goes to ROOT is finite: it is filled in, not set
                ep[-1]["c"] = [repr(rng.uniform(-10, 100)) if rng.random() < .8 else "0" for _ in range(bins(a))]
            hs[h] = (dim, rt)
        saved = set()
        for _ in range(rng.randint(4, 12)):
            k = rng.random()
            h = rng.choice(sorted(hs))
            dim, rt = hs[h]
            if k < .3:
                f = files(rng, .5)
                if f[-1] == "root" and not rt and dim <= 2:
                    continue
                ep.append(dict(op="IoSaveHist", h=h, f=f, name=rng.choice(["h", "n"])))
                if f in ROOT:
                    ep.append(dict(op="IoSeeTh", f=f, name=rng.choice(["h", "n"])))
            elif k < .5:
                ep.append(dict(op="IoLoadHist", f=rng.choice(H5 + ROOT[:1]), h="k"))
                ep.append(dict(op="IfHist", h="k"))
            elif k < .6:
                ep.append(dict(op="IoHistGet", h=h))
            elif k < .8 and rt:
                d = dim if rng.random() < .8 and dim <= 3 else rng.randint(1, 3)
                ep.append(dict(op="DtTo", h=h, dim=d, width=d == 1 and rng.random() < .5, ed=rng.random() < .5))
            elif k < .9:
                ax = [dict(title=x, edges=edges(rng, rng.randint(1, 4))) for x in names(rng, rng.randint(1, 3))]
                ep.append(dict(op="DtFrom", to="f", axes=ax, c=[real(rng) for _ in range(bins(ax))]))
                ep.append(dict(op="IoHistGet", h="f"))
                ep.append(dict(op="IoSaveHist", h="f", f=rng.choice(H5), name="h"))
            else:
                ax = axes(rng, rng.randint(1, 3), 0, 1)
                m = len(ax) if rng.random() < .9 else rng.randint(1, 3)
                ep.append(dict(op="DtPdf", axes=ax, means=["%d" % rng.randint(-5, 5) for _ in range(m)], sigmas=[rng.choice(["1", "2", "0.5", "7", "0.1"]) for _ in range(m)]))
        out.append(hist_resolve(no_blank(ep)))
    return out


def hist_resolve(ep):
    disk, have, res, plain = {}, set(), [], {}
    for o in ep:
        if o["op"] == "IfHist":
            if o["h"] in have:
                res.append(dict(op="IoHistGet", h=o["h"]))
            continue
        if o["op"] in ("IoHist", "DtFrom"):
            k = o.get("h", o.get("to"))
            have.add(k)
            plain[k] = all(len(a.get("name", a.get("title"))) == 1 and len(a.get("latex", [""])) == 1 for a in o["axes"])
        if o["op"] == "IoSaveHist" and o["f"] in H5 and plain[o["h"]]:
            disk[tuple(o["f"])] = True
        if o["op"] == "IoLoadHist" and disk.get(tuple(o["f"])):
            have.add(o["h"])
        res.append(o)
    return res


def trees(rng, n):
    """trees of any types, seen through both readers"""
    out = []
    for _ in range(n):
        ep = []
        for _ in range(rng.randint(1, 3)):
            w = rng.randint(1, 4)
            nt = rng.random() < .5
            types = ["F"] * w if nt else [rng.choice("DDFFIO") for _ in range(w)]
            vals = lambda t: real(rng) if t in "DF" else "%d" % rng.randint(0, 1) if t == "O" else "%d" % rng.randint(-9, 99)
            nm = [x[0] for x in names(rng, w, 1)]
            ep.append(dict(op="RtTree", f=rng.choice(ROOT), tree=rng.choice("tu"), names=nm, types=types,
                           rows=[[vals(t) for t in types] for _ in range(rng.choice([0, 1, 2, 5]))], nt=nt))
        for _ in range(rng.randint(3, 10)):
            k = rng.random()
            r = rng.choice("rR")
            if k < .35:
                ep.append(opening(rng, ep, r))
                ep.append(dict(op="Maybe", r=r))
            elif k < .45:
                ep.append(dict(op=rng.choice(["RtBaskets", "RtBaskets", "RtDel"]), r=r))
            elif k < .6:
                ep.append(dict(op="IoSave", **{"from": "root"}, h=r, f=rng.choice(H5 + ROOT), tree="s"))
                ep.append(dict(op="IoLoad", f=rng.choice(H5), h="p"))
            elif k < .65:
                ep.append(rng.choice([dict(op="IoRm", f=rng.choice(ROOT)), dict(op="IoJunk", f=rng.choice(ROOT))]))
            elif k < .8:
                ep.append(dict(op="IoEntry", **{"from": "root"}, h=r, i=rng.randint(0, 5)))
            else:
                ep += look(rng, "root", r)
        out.append(resolve(no_blank(ep)))
    return out


def big(rng, n):
    """sets that are written and read in pieces"""
    out = []
    for k in range(n):
        w = rng.randint(1, 4)
        m = rng.choice([2500, 3333, 4999, 5000, 5001, 9999, 10000, 10001, 12345, 20000, 33333]) if k else 1000000 + rng.choice([0, 1, 99999, 100000, 100001, 54321])
        w = w if k else rng.randint(1, 2)
        out.append([dict(op="IoBig", h="p", names=names(rng, w, 1), n=m, k=rng.randint(0, 99)),
                    dict(op="IoSave", **{"from": "ds"}, h="p", f=H5[0], tree=""), dict(op="IoLoad", f=H5[0], h="q"),
                    dict(op="IoGet", **{"from": "ds"}, h="q"), dict(op="IoRows", **{"from": "ds"}, h="q"),
                    dict(op="LzNew", l="k", f=H5[0]), dict(op="IoGet", **{"from": "lazy"}, h="k"), dict(op="IoRows", **{"from": "lazy"}, h="k")])
    return out
