"""Programs of operations on the practice stores and lists."""
NAMES = ["a", "ab", "abc", "A", "a_b", "axb", "a%b", "%", "_", "a::b", "a::b::c", "é", "éa", "b'c", "x\"y", "0", " a"]
PREFIXES = ["", "a", "ab", "A", "a_", "%", "_", "a%", "a::", "a::b", "é", "b'", "x\"", "zzz", " "]
DAY = 86400
EMPTY = {"courses": {}, "lessons": {}, "exs": {}}


def times(r, mode, base):
    if mode == "ties":
        return base + r.choice([0, 0, 1])
    if mode == "days":
        return base + r.choice([0, 1, DAY - 1, DAY, DAY + 1, 2 * DAY, 5 * DAY])
    if mode == "wild":
        return r.choice([-2000000000, -1, 0, 1, base, base + DAY, 2000000000])
    return base + r.randint(-400000, 400000)


def store_program(r, pid, kinds, length=(8, 30), lib=None, rewards_many=False):
    units = r.sample(NAMES, r.randint(3, 6))
    many = r.random() < .1 and any(k in ("bl", "rv") for k in kinds)
    if many:
        units += [f"{r.choice(['a', 'ab', 'm'])}::{i}" for i in range(r.choice([10, 20, 40, 150]))]
    n = len(units)
    mode = r.choice(["ties", "days", "wild", "any", "any"])
    base = r.choice([0, 1_600_000_000])
    ev = []
    if many:
        ev += [{"op": "add", "store": k, "u": u} for k in kinds if k in ("bl", "rv") for u in range(1, n + 1) if r.random() < .9]
    pool = [[r.randint(1, n), r.choice([-1000, -500, 300, 400, 800]), r.choice([200, 297, 303, 397, 403, 1000])] for _ in range(r.randint(2, 5))]
    rv = [-1000, -500, -300, 400, 800]
    for _ in range(r.randint(*length)):
        k = r.choice(kinds)
        x = r.random()
        if x < .07:
            ev.append({"op": "reopen"})
            continue
        if k in ("bl", "rv"):
            if x < .55:
                ev.append({"op": "add", "store": k, "u": r.randint(1, n)})
            elif x < .8 or k == "rv":
                ev.append({"op": "rm", "store": k, "u": r.randint(1, n)})
            else:
                ev.append({"op": "rmp", "store": k, "p": r.choice(PREFIXES)})
            continue
        if x < .62:
            m = r.choice([1, 1, 2, 3, 5])
            if k == "stats":
                l = [[r.randint(1, n), 1000 * r.randint(1, 5), times(r, mode, base)] for _ in range(m)]
            elif k == "deltas":
                l = [[r.randint(1, n), r.choice([-4000, -1500, 0, 250, 3000]), times(r, mode, base)] for _ in range(m)]
            elif rewards_many:
                l = [[1 if r.random() < .8 else r.randint(1, n), r.choice(rv), r.choice([200, 350, 500, 650, 800, 1000]),
                      base + r.randint(0, 60) * DAY // 2] for _ in range(r.choice([3, 6]))]
            else:
                l = [r.choice(pool) + [times(r, mode, base)] for _ in range(m)]
                l = [x for x in l]
            ev.append({"op": "rec", "store": k, "list": l})
        elif x < .8:
            ev.append({"op": "read", "store": k, "u": r.randint(1, n), "n": r.choice([0, 1, 2, 3, 5, 20, 4000000])})
        elif x < .9:
            ev.append({"op": "trim", "store": k, "n": r.choice([0, 1, 2, 3, 5, 10, 30])})
        else:
            ev.append({"op": "rmp", "store": k, "p": r.choice(PREFIXES)})
    return {"id": pid, "units": units, "exs": [], "backend": r.choice(["local", "facade"]), "lib": lib or EMPTY, "ev": ev}


def scoring_program(r, pid, L):
    """A student scoring exercises through the scheduler, and everything else that must not touch the history."""
    units = list(L["courses"]) + list(L["lessons"]) + list(L["exs"]) + ["nope"]
    exs = list(L["exs"])
    ev = []
    base = 1_700_000_000
    at = lambda us: units.index(r.choice(us)) + 1
    for _ in range(r.randint(8, 20)):
        x = r.random()
        if x < .55 and exs:
            ev.append({"op": "score", "u": at(exs), "g": r.randint(1, 5), "t": base + r.choice([0, 1, 100, 1000]) * r.randint(0, 100)})
        elif x < .6:
            ev.append({"op": "score", "u": at(units), "g": r.randint(1, 5), "t": base})
        elif x < .68:
            ev.append({"op": "batch"})
        elif x < .74:
            ev.append({"op": "scores"})
        elif x < .8:
            ev.append({"op": "reopen"})
        elif x < .88:
            ev.append({"op": r.choice(["add", "rm"]), "store": r.choice(["bl", "rv"]), "u": at(units)})
        elif x < .92:
            ev.append({"op": "rmp", "store": "bl", "p": r.choice(["", "c0", "c0::l0", "c1"])})
        elif x < .96:
            ev.append({"op": "trim", "store": r.choice(["stats", "deltas", "rewards"]), "n": r.choice([0, 1, 2])})
        else:
            ev.append({"op": "rmp", "store": r.choice(["stats", "deltas", "rewards"]), "p": r.choice(["c0::l0", "c0::l", "c1::", "c0::l0::e0"])})
    return {"id": pid, "units": units, "exs": exs, "backend": "facade", "lib": L, "ev": ev}


def replay(i, kind, ops):
    return {"id": f"mc-{kind}{i}", "units": ["a", "ab", "A"], "exs": [], "backend": "local", "lib": EMPTY, "ev": ops}


PREFS = [{"ignored_paths": ["foo"]}, {"scheduler": {"batch_size": 7}}, {"ignored_paths": ["x" * 200] * 40 + ["é"], "scheduler": {"batch_size": None}},
         {"transcription": {"instruments": [{"name": "Guitar", "id": "guitar"}], "download_path": "a/b", "download_path_alias": None}}]


def inject_program(r, pid, inject, lib=None, targets=(1, 2), backend=None):
    """Some operations without faults, then some with a write failing, or a kill, at every point."""
    if lib is None:
        p = store_program(r, pid, ["stats", "deltas", "rewards", "bl", "rv"], length=(4, 14), rewards_many=r.random() < .3)
    else:
        p = scoring_program(r, pid, lib)
    units = p["units"]
    n = len(units)
    if backend:
        p["backend"] = backend
    base = 1_700_000_000
    for _ in range(r.randint(*targets)):
        x = r.random()
        some = lambda: r.randint(1, n)
        if lib is not None and x < .6 and p["exs"]:
            op = {"op": "score", "u": units.index(r.choice(p["exs"])) + 1, "g": r.randint(1, 5), "t": base + 200000 + r.randint(0, 1000)}
        elif x < .35:
            k = r.choice(["stats", "deltas", "rewards", "rewards"])
            m = r.choice([1, 2, 3, 30]) if r.random() < .8 else 200
            if k == "rewards":
                l = [[some(), r.choice([400, 500, -300]), r.choice([300, 1000]), base + r.randint(-20, 20) * DAY] for _ in range(min(m, 12))]
            else:
                l = [[some(), 1000 * r.randint(1, 5), base + r.randint(0, 1000)] for _ in range(m)]
            op = {"op": "rec", "store": k, "list": l}
        elif x < .5:
            op = {"op": "trim", "store": r.choice(["stats", "deltas", "rewards"]), "n": r.choice([0, 1, 2])}
        elif x < .65:
            op = {"op": "rmp", "store": r.choice(["stats", "deltas", "rewards", "bl"]), "p": r.choice(["", units[0], units[-1][:1]])}
        elif x < .85:
            op = {"op": r.choice(["add", "add", "rm"]), "store": r.choice(["bl", "rv"]), "u": some()}
        elif x < .93 or inject == "faults":
            op = {"op": "set", "store": "prefs", "v": r.randint(0, len(PREFS))}
        else:
            op = {"op": "reopen"}
        op["inject"] = inject
        p["ev"].append(op)
    p["prefs"] = PREFS
    p["inject"] = inject
    p["limit"] = 40
    p["offset"] = r.randint(0, 1000)
    return p
