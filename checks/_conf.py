"""Seeded scripts for ConfSys: files as sequences of characters."""

Q = {"Sections", "LoadStr", "LoadNum", "LoadStrs", "LoadNums"}
SECS = ["s", "t", "sec one", "fit", "", "s s", "x-y", "S", "s1", "s10"]
KEYS = ["v", "w", "a key", "mass_1", "", "k.2", "[k", "v#", "V", "v1", "v10"]


def number(rng):
    return rng.choice([lambda: str(rng.randint(-99, 99)), lambda: "%d.%d" % (rng.randint(-9, 9), rng.randint(0, 999)), lambda: "%s.%d" % (rng.choice(["", "-", "+"]), rng.randint(0, 99)),
                       lambda: "%d." % rng.randint(0, 50), lambda: "%de%d" % (rng.randint(-9, 9), rng.randint(-5, 5)), lambda: "%d.%dE+%d" % (rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 9)),
                       lambda: "%d" % rng.choice([2147483647, -2147483648, 2147483648, -2147483649, 99999999999, 2000000000]), lambda: "+%03d" % rng.randint(0, 9),
                       lambda: repr(rng.uniform(-9, 9)), lambda: "%de%d" % (rng.randint(-9, 9), rng.randint(-290, 290)), lambda: "-0", lambda: "0.000%d" % rng.randint(1, 9999)])()


def value(rng):
    k = rng.random()
    if k < .3:
        return number(rng)
    if k < .55:
        sep = rng.choice([",", ",", ", ", ",,", " ,", ",\t"])
        return sep.join(number(rng) for _ in range(rng.randint(1, 5) if rng.random() < .95 else rng.randint(20, 60))) + rng.choice(["", "", ",", ",,"])
    if k < .75:
        sep = rng.choice([",", ", ", ",,", " , "])
        return sep.join(rng.choice(["a", "b", "energy", "r 2", "x", "=", "#", "[z]"]) for _ in range(rng.randint(1, 5))) + rng.choice(["", ","])
    return rng.choice(["", "hello", "a b  c", "x=y", "= =", "# no", ";", "[in]", "-", ".", "e3", "../data/file_1.root", ",", ",,", "true", "5,x", "x,5", "\"q\"", "long " * 50, "a=b=c", "x # y", "x;y", "5 6", "1,2;3", "0x10", "1e", "--1"])


def pad(rng, s):
    return rng.choice(["", "", "", " ", "\t", "  "]) + s + rng.choice(["", "", "", " ", "\t", "\r", " \t"])


def lines(rng, m):
    """a sensible file of about m lines, and what is in it"""
    out, fields, path, secs, used = [], [], [], set(), set()
    for _ in range(m):
        k = rng.random()
        if k < .15:
            out.append(rng.choice(["", " ", "\t", "# comment", ";k=1", "#[s]", "\r"]))
        elif k < .45 or not path:
            d = rng.randint(1, len(path) + 1) if rng.random() < .5 else 1
            p = path[:d - 1] + [rng.choice(SECS)]
            if tuple(p) in secs:
                continue
            secs.add(tuple(p))
            path = p
            out.append(pad(rng, "[" * d + p[-1] + "]" * d))
        else:
            key = rng.choice(KEYS)
            if (tuple(path), key) in used or key.startswith("["):
                continue
            used.add((tuple(path), key))
            fields += [(path[0], key)] * (6 if len(path) == 1 else 1)
            out.append(pad(rng, key) + "=" + pad(rng, value(rng)))
    return out, fields


def broken(rng, ls):
    ls = list(ls)
    k = rng.randrange(5)
    i = rng.randint(0, len(ls))
    heads = [x for x in ls if x.strip().startswith("[")]
    keys = [x for x in ls if "=" in x and not x.strip().startswith("[") and x[0] not in "#;"]
    if k == 0:
        ls.insert(i, "nonsense")
    elif k == 1:
        ls.insert(i, "[[[[[deep]]]]]")
    elif k == 2 and heads:
        ls += [rng.choice(heads).strip()]
    elif k == 3 and keys:
        j = ls.index(rng.choice(keys))
        ls.insert(j + 1, ls[j])
    else:
        ls.insert(i, " # this is no comment")
    return ls


def files(rng, n):
    eps = []
    for _ in range(n):
        ep, fields, names = [], [], rng.sample("fgh", rng.choice([1, 1, 2]))

        def write(f):
            ls, fl = lines(rng, rng.choice([2, 4, 8, 14] if rng.random() < .96 else [60]))
            if rng.random() < .25:
                ls = broken(rng, ls)
            fields.extend(fl)
            for x in ls:
                ep.append({"op": "AddLine", "f": f, "line": list(x)})

        for f in names:
            write(f)
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.random()
            f = rng.choice(names + ["none"] * (rng.random() < .2))
            if k < .1:
                ep.append({"op": "Close"})
            elif k < .2:
                ep.append({"op": "Remove", "f": f})
                if rng.random() < .7:
                    write(f)
            elif k < .3:
                ep.append({"op": "AddLine", "f": f, "line": list(rng.choice(["late=1", "[late]", "bad"]))})
            if rng.random() < .85:
                ep.append({"op": "Open", "f": f})
            if rng.random() < .5:
                ep.append({"op": "Sections"})
            for _ in range(rng.choice([1, 4, 8])):
                s, key = rng.choice(fields) if fields and rng.random() < .85 else (rng.choice(SECS + ["no"]), rng.choice(KEYS + ["no"]))
                op = rng.choice(["LoadStr", "LoadNum", "LoadStrs", "LoadNums"])
                o = {"op": op, "s": s, "k": key}
                if op in ("LoadNum", "LoadNums"):
                    o["type"] = rng.choice(["int", "double"])
                if op in ("LoadStrs", "LoadNums"):
                    o["kind"] = rng.choice(["vector", "list", "set"])
                    o["pre"] = [str(rng.randint(0, 9)) for _ in range(rng.choice([0, 0, 1, 3]))]
                ep.append(o)
        eps.append(ep)
    return eps
