"""Copies at random places of the scripts of other families (C26).

swap: from some place on, a copy stands in for the original, which is destroyed;
keep: the original goes on and the copy is looked at afterwards, or the other way round;
both: original and copy do the same from there on;
self: something is assigned to itself."""
import copy as _c
import _conf, _event, _fit, _gen, _hist, _nllh, _param, _smear

# what may be copied: created by, key of its handle, keys that refer to it, the copying call, what shows its state
KINDS = {
    "hist": dict(fam="Hist", drv="drv_hist", gens=[_hist.algebra, _hist.projections], mk=("New", "NewWith"), key="h", refs=("h", "g", "to"),
                 cp=lambda x, y: {"op": "Copy", "h": x, "to": y}, look=lambda x: [{"op": "Scale", "h": x, "k": "0x1p+0"}]),
    "ds": dict(fam="Event", drv="drv_event", gens=[_event.datasets], mk=("NewDs",), key="d", refs=("d", "e", "to"), not_in=("FreeEv",),
               cp=lambda x, y: {"op": "CopyDs", "d": x, "to": y}, look=lambda x: [{"op": "DsState", "d": x}]),
    "cuts": dict(fam="Event", drv="drv_event", gens=[_event.cuts], mk=("NewCuts",), key="c", refs=("c", "to"), not_in=("CopyDs", "Concat"),
                 cp=lambda x, y: {"op": "CopyCuts", "c": x, "to": y}, look=lambda x: [{"op": "CutNames", "c": x}]),
    "ed": dict(fam="Event", drv="drv_event", gens=[_event.dists], mk=("NewB", "NewA", "NewC"), key="h", refs=("h", "to", "parts"), not_in=("CopyDs", "Concat"),
               cp=lambda x, y: {"op": "CloneEd", "h": x, "to": y}, look=lambda x: [{"op": "InfoEd", "h": x}]),
    "edm": dict(fam="Event", drv="drv_event", gens=[_event.managers], mk=("NewM",), key="h", refs=("h", "to"),
                cp=lambda x, y: {"op": "CloneEd", "h": x, "to": y}, look=lambda x: [{"op": "ParM", "h": x, "name": "~none", "x": "0x1p+0"}]),
    "cp": dict(fam="Param", drv="drv_param", gens=[_param.components], mk=("NewCp",), key="h", refs=("h", "to"), nokind=("conv", "renorm"),
               cp=lambda x, y: {"op": "CpCopy", "h": x, "to": y}, look=lambda x: [{"op": "CpState", "h": x}]),
    "wrapped": dict(fam="Param", drv="drv_param", gens=[_param.wrapped], mk=("Wrap", "NewVary"), key="h", refs=("h", "to"), nokind=("conv",),
                    cp=lambda x, y: {"op": "CpCopy", "h": x, "to": y}, look=lambda x: [{"op": "CpState", "h": x}]),
    "con": dict(fam="Param", drv="drv_param", gens=[_param.constraints], mk=("NewCon",), key="c", refs=("c", "to"),
                cp=lambda x, y: {"op": "CopyCon", "c": x, "to": y}, look=lambda x: [{"op": "ConEval", "c": x, "dict": [[n, "0x1p-1"] for n in "abcde"]}]),
    "mat": dict(fam="Smear", drv="drv_smear", gens=[_smear.matrices], mk=("NewMat",), key="h", refs=("h", "g", "to"),
                cp=lambda x, y: {"op": "MatCopy", "h": x, "to": y}, look=lambda x: [{"op": "MatGet", "h": x, "i": 0, "j": 0}]),
    "sys": dict(fam="Smear", drv="drv_smear", gens=[_smear.systematics], mk=("NewSys",), key="h", refs=("h", "to"), not_out=("Smear",),
                cp=lambda x, y: {"op": "SysCopy", "h": x, "to": y}, look=lambda x: [{"op": "SysCopy", "h": x, "to": "look~" + x}]),
    "bm": dict(fam="Nllh", drv="drv_nllh", gens=[_nllh.managers], mk=("BmNew",), key="m", refs=("m", "to"),
               cp=lambda x, y: {"op": "BmCopy", "m": x, "to": y}, look=lambda x: [{"op": "BmGet", "m": x, "name": "p0"}, {"op": "BmBin", "m": x, "i": 0}]),
    "fit": dict(fam="Fit", drv="drv_fit", gens=[_fit.results], mk=("FrNew",), key="f", refs=("f", "to"),
                cp=lambda x, y: {"op": "FrCopy", "f": x, "to": y, "how": "copy"}, look=lambda x: [{"op": "FrGetSpace", "f": x}]),
    "gen": dict(fam="Gen", drv="drv_gen", gens=[_gen.draws], mk=("GenNew",), key="g", refs=("g", "to"), not_in=(),
                cp=lambda x, y: {"op": "GenCopy", "g": x, "to": y}, look=lambda x: []),
}


def mentions(k, o):
    """the handles of this kind that a call refers to"""
    if o["op"] in k.get("not_in", ()):
        return set()
    r = set()
    for key in k["refs"]:
        if key == "to" and o["op"] in k.get("not_out", ()):
            continue
        v = o.get(key)
        if isinstance(v, str):
            r.add(v)
        elif isinstance(v, list):
            r |= {x for x in v if isinstance(x, str)}
    return r


def renamed(k, o, x, y):
    o = _c.copy(o)
    if o["op"] in k.get("not_in", ()):
        return o
    for key in k["refs"]:
        if key == "to" and o["op"] in k.get("not_out", ()):
            continue
        v = o.get(key)
        if v == x:
            o[key] = y
        elif isinstance(v, list):
            o[key] = [y if e == x else e for e in v]
    return o


def insert(rng, kind, ep, tag):
    """one copy, somewhere in the script"""
    k = KINDS[kind]
    made = [i for i, o in enumerate(ep) if o["op"] in k["mk"] and o.get("kind") not in k.get("nokind", ()) and k["key"] in o]
    if not made:
        return ep
    i = rng.choice(made)
    x = ep[i][k["key"]]
    later = [j for j in range(i + 1, len(ep)) if x in mentions(k, ep[j])]
    if not later:
        return ep
    # not beyond where the handle is made anew
    stop = next((j for j in later if (ep[j]["op"] in k["mk"] and ep[j][k["key"]] == x) or ep[j].get("to") == x or ep[j]["op"] in ("FrDel", "BmDel")
                 or (ep[j].get(k["key"]) == x and ("drop" in ep[j] or "gone" in ep[j]))), len(ep))
    at = rng.randint(i + 1, max(i + 1, min(stop, later[-1])))
    y = x + tag
    head, tail = ep[:at], ep[at:stop]
    rest = ep[stop:]
    mode = rng.choice(["swap", "swap", "swap", "keep", "keep", "other", "both", "self"])
    cp = k["cp"](x, y)
    again = stop < len(ep) and not (ep[stop]["op"] in k["mk"] and ep[stop][k["key"]] == x)
    if again and mode in ("swap", "other"):
        # the handle goes on to be used: it has to have the same history
        mode = "both"
    if mode == "self":
        return head + [dict(k["cp"](x, x), assign=True)] + k["look"](x) + tail + rest
    if rng.random() < .4:
        cp["assign"] = True
    if mode == "swap":
        cp["gone" if kind == "ds" else "drop"] = True
        if kind == "ds":
            cp["drop"] = True
            cp.pop("assign", None)
        return head + [cp] + [renamed(k, o, x, y) for o in tail] + rest
    if mode == "keep":
        return head + [cp] + tail + k["look"](y) + rest
    if mode == "other":
        return head + [cp] + [renamed(k, o, x, y) for o in tail] + k["look"](x) + rest
    t2 = []
    for o in tail:
        t2.append(o)
        if x in mentions(k, o) and "to" not in o and mentions(k, o) == {x}:
            t2.append(renamed(k, o, x, y))
    return head + [cp] + t2 + k["look"](y) + rest


def scripts(rng, kind, n):
    k = KINDS[kind]
    eps = []
    for g in k["gens"]:
        for ep in g(rng, max(1, n // len(k["gens"]))):
            for t in range(rng.choice([1, 1, 2, 3])):
                ep = insert(rng, kind, ep, "~%d" % t)
            eps.append(ep)
    return eps
