"""Harness registration."""
CASES = []


def case(prop, quick, thorough=(), budget=60, tbudget=240, name=None, after=True):
    """quick/thorough: parameter dicts (sizes) the harness is explored with; thorough adds to quick.
    after: the harness is also explored in modules that were used before (by itself, with other values)."""
    def deco(fn):
        CASES.append(dict(prop=prop, fn=fn, quick=list(quick), thorough=list(thorough), budget=budget,
                          tbudget=tbudget, name=name or fn.__name__, after=after))
        return fn
    return deco


def find(prop, name):
    return [c for c in CASES if c["prop"] == prop and c["name"] == name][0]


def label(name, p):
    return "%s(%s)" % (name, ",".join("%s=%s" % kv for kv in sorted(p.items())))


def instances(prop, tier):
    """[(label, case, parameters, earlier uses)]; an earlier use is (case name, parameters, variant)."""
    out = []
    mine = [c for c in CASES if c["prop"] == prop]
    for c in mine:
        ps = c["quick"] + (c["thorough"] if tier == "thorough" else [])
        for p in ps:
            out.append((label(c["name"], p), c, p, []))
    for c in mine:
        if not c["after"]:
            continue
        # the smallest size in modules used with the largest and the smallest before
        first, last = c["quick"][0], c["quick"][-1]
        used = [(c["name"], last, 0), (c["name"], first, 1)]
        out.append((label(c["name"], first) + " used before", c, first, used))
        if tier == "thorough":
            others = [(o["name"], o["quick"][0], v) for o in mine for v in (0, 1)]
            out.append((label(c["name"], last) + " used before", c, last, [(c["name"], first, 0)]))
            out.append((label(c["name"], first) + " after all others", c, first, others))
    return out
