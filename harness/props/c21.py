"""C21: InvertibleDict under histories of operations on both sides, against a plain relation."""
from core import Violation

CASES = {"quick": 12000, "thorough": 300000}
RULE = ("histories of 1-40 operations (add, remove, lookups of present and missing keys, membership, keys, items, inversion, adds of existing pairs, refused removals) on the "
        "dictionary or on its inverse, inversion before or between edits, default and strict mode, keys of mixed kinds (int, str, pairs) and overlapping key/value domains; "
        "non-trivial: distinct (mode, first inversion, sequence of operation kinds and sides)")
REQUIRED = {"ops": 100000, "add": 20000, "remove": 8000, "missing_default": 2000, "missing_strict": 2000, "refused_removal": 2000, "via_inverse": 20000, "add_existing": 2000}


def gen(rng, i, tier):
    nk, nv = rng.randint(1, 6), rng.randint(1, 6)
    kinds = rng.choice(["int", "str", "mixed", "pair"])
    init = [[k, [v for v in range(nv) if rng.random() < 0.35]] for k in range(nk) if rng.random() < 0.6]
    ops = []
    for _ in range(rng.randint(1, 40)):
        o = rng.choice(["add"] * 5 + ["remove"] * 4 + ["get", "in", "keys", "items", "inv", "badremove", "getmissing"])
        ops.append([o, rng.random() < 0.45, rng.randrange(nk + 1), rng.randrange(nv + 1), rng.randrange(1 << 20)])
    return {"kinds": kinds, "init": init, "default": rng.random() < 0.5, "ops": ops}


def name(kinds, i, side):
    if kinds == "int":
        return i
    if kinds == "str":
        return "abcdefgh"[i]
    if kinds == "pair":
        return (i, i % 2) if side else "s%d" % i
    return [i, "k%d" % i, (i, "x"), i, None, frozenset([i]), True][i % 7] if side else i


def run(c, mon):
    from switss.utils import InvertibleDict
    K = lambda i: name(c["kinds"], i, True)
    V = lambda i: name(c["kinds"], i, False)
    original = {K(k): {V(v) for v in vs} for k, vs in c["init"]}
    given = {k: set(v) for k, v in original.items()}
    d = InvertibleDict(given, is_default=c["default"])
    rel = {(k, v) for k, vs in original.items() for v in vs}
    for bad in ([(1, {2})], {1: [2]}, {1: {2}, 3: (4,)}, {1: 2}, None, {1: "ab"}):
        try:
            InvertibleDict(bad, is_default=c["default"])
        except Exception:
            mon.ev("refused_construction")
        else:
            raise Violation("construction", "a dictionary was made of %r" % (bad,))
    known = [set(original), None]   # keys that certainly exist on each side (may hold the empty set)
    trace = []

    def compare(what):
        for x, side in ((d, 0),):
            got = {(k, v) for k, vs in x.items() for v in vs}
            mon.check(got == rel, "relation", "after %s the dictionary describes %s, expected %s", what, got, rel)
        mon.check(given == original, "caller", "after %s the dictionary given at construction is %s, was %s", what, given, original)

    def compare_inv(what):
        got = {(k, v) for v, ks in d.inv.items() for k in ks}
        mon.check(got == rel, "inverse", "after %s the inverse describes %s, expected %s", what, got, rel)
        mon.check(d.inv.inv is d or {(k, v) for k, vs in d.inv.inv.items() for v in vs} == rel, "double-inverse", "after %s inverting twice gives %s", what, d.inv.inv)
        mon.check(d.inv.is_default == c["default"], "default-mode", "the inverse has is_default %s", d.inv.is_default)

    inverted = False
    for o, viainv, ki, vi, pick in c["ops"]:
        what = "%s %s of %s" % (o, (ki, vi), trace[-4:])
        side = d.inv if viainv else d
        inverted |= viainv
        k, v = K(ki), V(vi)
        a, b = (v, k) if viainv else (k, v)
        mon.ev("ops"); trace.append((o, viainv))
        if viainv:
            mon.ev("via_inverse")
        if o == "add":
            mon.ev("add")
            if (k, v) in rel:
                mon.ev("add_existing")
            side.add(a, b); rel.add((k, v)); known[0].add(k)
        elif o == "remove":
            if not rel:
                continue
            k, v = sorted(rel, key=repr)[pick % len(rel)]
            a, b = (v, k) if viainv else (k, v)
            side.remove(a, b); rel.discard((k, v))
            mon.ev("remove")
        elif o == "badremove":
            if (k, v) in rel:
                continue
            try:
                side.remove(a, b)
            except Exception:
                mon.ev("refused_removal")
            else:
                raise Violation("removal", "removing the missing pair %s was accepted" % ((a, b),))
        elif o in ("get", "getmissing"):
            expected = {y for x, y in rel if x == k} if not viainv else {x for x, y in rel if y == v}
            before = list(side.keys())
            try:
                got = side[a]
            except KeyError:
                mon.check(not expected and not c["default"], "lookup", "lookup of %s raised KeyError, expected %s (default mode %s)", a, expected, c["default"])
                mon.check(viainv or k not in known[0], "lookup", "lookup of existing key %s raised KeyError", k)
                mon.ev("missing_strict")
            else:
                mon.check(set(got) == expected, "lookup", "lookup of %s gives %s, expected %s", a, got, expected)
                if a not in side:
                    mon.check(c["default"], "lookup", "lookup of the missing key %s gave %s in strict mode", a, got)
                    mon.ev("missing_default")
                    got.add("garbage")    # a fresh set: must not become part of the dictionary
            mon.check(list(side.keys()) == before, "lookup", "lookup of %s changed the keys from %s to %s", a, before, list(side.keys()))
        elif o == "in":
            e = {y for x, y in rel if x == k} if not viainv else {x for x, y in rel if y == v}
            mon.check(not e or a in side, "contains", "%s not in the dictionary, but it maps to %s", a, e)
        elif o == "keys":
            ks = set(side.keys()); need = {x for x, _ in rel} if not viainv else {y for _, y in rel}
            mon.check(need <= ks, "keys", "keys %s, expected at least %s", ks, need)
            if not viainv:
                mon.check(ks == known[0], "keys", "keys %s, expected %s", ks, known[0])
        elif o == "inv":
            inverted = True
            compare_inv("inv")
            mon.check(side.inv.inv is side, "double-inverse", "inverting twice gives another object")
        compare(what)
        if inverted and pick % 3 == 0:
            compare_inv(what)
    compare("the end"); compare_inv("the end")
    mon.nontrivial(c["default"], trace)
