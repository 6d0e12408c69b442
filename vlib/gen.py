"""Seeded generators of libraries and programs (sequences of user-level operations).

They only decide which situations are tried. What should happen in them is decided by the TLA+
specification, and what does happen by the real code."""
import random

NAMES = ["alpha", "alpha_2", "alphaX2", "Alpha", "beta", "be%a", "gamma", "alpha::z"]


def acyclic(rel):
    state = {}

    def visit(u):
        if state.get(u) == 1:
            return False
        if state.get(u) == 2:
            return True
        state[u] = 1
        for v in rel.get(u, ()):
            if not visit(v):
                return False
        state[u] = 2
        return True

    return all(visit(u) for u in list(rel))


def library(r, courses=(1, 4), lessons=(0, 3), exs=(0, 3), dep=0.35, cross=0.15, missing=0.1, sup=0.0,
            enc=None, meta=False, names=False, prereq=None):
    """A random library whose dependencies are acyclic."""
    L = {"courses": {}, "lessons": {}, "exs": {}}
    nc = r.randint(*courses)
    cids = r.sample(NAMES, min(nc, len(NAMES))) if names else [f"c{i}" for i in range(nc)]
    nc = len(cids)
    for c in cids:
        L["courses"][c] = {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": []}
        for j in range(r.randint(*lessons)):
            l = f"{c}::l{j}"
            L["lessons"][l] = {"course": c, "deps": [], "sup": [], "enc": [], "meta": {}, "exs": []}
            L["courses"][c]["lessons"].append(l)
            for k in range(r.randint(*exs)):
                e = f"{l}::e{k}"
                L["exs"][e] = {"lesson": l, "type": r.choice("DP")}
                L["lessons"][l]["exs"].append(e)
    units = list(L["courses"]) + list(L["lessons"])
    rec = lambda u: L["courses"].get(u) or L["lessons"][u]
    order = list(units)
    r.shuffle(order)
    pos = {u: i for i, u in enumerate(order)}
    course_of = {l: L["lessons"][l]["course"] for l in L["lessons"]}
    for u in units:
        for v in units:
            if u == v or pos[v] >= pos[u]:
                continue
            own = course_of.get(u) == v or course_of.get(v) == u
            if own:
                continue
            same = u in course_of and v in course_of and course_of[u] == course_of[v]
            both_c = u not in course_of and v not in course_of
            p = dep if same or both_c else cross
            if r.random() < p:
                rec(u)["deps"].append(v)
        if r.random() < missing:
            rec(u)["deps"].append(r.choice(["ghost", "ghost2", "c0::ghost"]))
    # superseding: the score of a unit follows its superseding units, a course's its lessons
    if sup:
        rel = {c: list(L["courses"][c]["lessons"]) for c in L["courses"]}
        for l in L["lessons"]:
            rel[l] = []
        for u in units:
            for v in units:
                if u == v or r.random() >= sup:
                    continue
                rel[v].append(u)
                if acyclic(rel):
                    rec(u)["sup"].append(v)
                else:
                    rel[v].pop()
    if enc:
        order = list(units)
        if r.random() < 0.3:
            r.shuffle(order)
        pos = {u: i for i, u in enumerate(order)}
        rel = {u: list(d for d in rec(u)["deps"]) for u in units}
        for u in units:
            for v in units:
                if u == v or r.random() >= enc or course_of.get(u) == v:
                    continue
                rel[u].append(v)
                if acyclic(rel):
                    rec(u)["enc"].append([v, r.choice([1000, 1000, 900, 750, 600, 500, 400, 300, 150, 0])])
                else:
                    rel[u].pop()
            for d in rec(u)["deps"]:
                if d in pos and r.random() < 0.3:
                    rec(u)["enc"] = [e for e in rec(u)["enc"] if e[0] != d] + [[d, r.choice([0, 500, 800, 1000])]]
    if meta:
        for u in units:
            if r.random() < 0.2:
                rec(u)["meta"] = {"__none": []}
                continue
            for k in ["k1", "k2"]:
                if r.random() < 0.7:
                    rec(u)["meta"][k] = r.sample(["a", "b", "c"], r.choice([1, 1, 2, 3]))
    return L


def kv(r, depth=2):
    t = r.random()
    if depth == 0 or t < 0.5:
        return {"t": r.choice("cl"), "k": r.choice(["k1", "k2", "k3"]), "v": r.choice("abc"), "inc": r.random() < 0.7}
    return {"t": r.choice(["all", "any"]), "fs": [kv(r, depth - 1) for _ in range(r.randint(0 if r.random() < .1 else 1, 3))]}


def some(r, xs, lo=1, hi=3):
    xs = list(xs)
    if not xs:
        return []
    return r.sample(xs, min(len(xs), r.randint(lo, hi)))


def unit_filter(r, L, kinds=("course", "lesson", "meta", "review", "dependents", "deps")):
    k = r.choice(kinds)
    units = list(L["courses"]) + list(L["lessons"])
    if k == "course":
        ids = some(r, L["courses"]) or ["nope"]
        return {"t": k, "ids": ids}
    if k == "lesson":
        ids = some(r, L["lessons"]) or ["nope"]
        if r.random() < 0.2:
            ids = ids + [r.choice(ids)]
        return {"t": k, "ids": ids}
    if k == "meta":
        return {"t": k, "f": kv(r)}
    if k == "review":
        return {"t": k}
    ids = some(r, units)
    if r.random() < 0.1:
        ids = ids + ["nope"]
    if k == "dependents":
        return {"t": k, "ids": ids}
    return {"t": k, "ids": ids, "depth": r.randint(0, 3)}


def session(r, L, saved):
    parts = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 3])):
        d = r.randint(0, 5)
        k = r.choice(["none", "unit", "saved"])
        if k == "none":
            parts.append({"k": k, "dur": d})
        elif k == "unit":
            parts.append({"k": k, "dur": d, "f": unit_filter(r, L, ("course", "lesson", "meta", "dependents", "deps"))})
        else:
            parts.append({"k": k, "dur": d, "id": r.choice([s["id"] for s in saved] + (["gone"] if r.random() < 0.3 else []))
                          if saved else "gone"})
    # half a minute away from every boundary
    return {"t": "session", "elapsed": 60 * r.randint(0, 14) + 30, "parts": parts}


DAY = 86400
MASTER = [[50, 400], [50, 300], [50, 200], [50, 100]]
HIST = {
    "none": [],
    "fail": [[10, 500], [20, 300]],
    "one": [[40, 500]],
    "one5": [[50, 500]],
    "mid": [[30, 700], [30, 500], [40, 200]],
    "pass": [[40, 900], [40, 600], [40, 300]],
    "good": [[50, 900], [40, 600], [50, 300]],
    "top": [[50, 900], [50, 600], [50, 300]],
    "old": [[50, 40 * DAY + 7200], [50, 30 * DAY + 7200], [50, 20 * DAY + 7200]],
    "flat4": [[40, 300], [40, 250], [40, 200], [40, 150]],
    "flat3": [[30, 300], [30, 200]],
}
KINDS = list(HIST)
# Scores that are whole numbers, so that they meet a threshold exactly.
EXACT = {"none": [], "now1": [[10, 0], [10, 0]], "now3": [[30, 0], [30, 0]], "now4": [[40, 9], [40, 5], [40, 0]], "now5": [[50, 9], [50, 5], [50, 0]]}
HIST.update(EXACT)


def history(r, e, bias=None):
    k = r.choice(bias or KINDS)
    if not HIST[k]:
        return None
    ts = [list(t) for t in HIST[k]]
    return {"op": "rec", "ex": e, "ts": ts}


def histories(r, L, share=0.6, uniform=0.7, exact=False):
    """Gives many exercises a history, usually the same within a lesson."""
    out = []
    good = r.random()
    if exact:
        share, uniform = 1, .8
    some_kinds = list(EXACT) if exact else KINDS
    for l, v in L["lessons"].items():
        kind = r.choice(["now3", "now4", "now5"] if exact else ["top", "good", "flat4", "pass"]) if r.random() < good else r.choice(some_kinds)
        if r.random() > share:
            continue
        for e in v["exs"]:
            h = history(r, e, [kind] if r.random() < uniform else some_kinds)
            if h:
                out.append(h)
    return out


POOL_OPTS = {"batch": 50, "min_frac": 1000, "max_prog": 1000, "relearn": 100}


def pool_program(r, pid, lib_kw, filters=("none",), events=(3, 8), bl=0.0, rv=0.0, fail=0.0, opts=None, extra=None,
                 setopts=None):
    L = library(r, **lib_kw)
    o = dict(POOL_OPTS)
    if r.random() < 0.3:
        o["min_score"] = r.choice([2000, 3000, 3500, 4000])
    if r.random() < 0.3:
        o["min_trials"] = r.choice([1000, 2000, 3000, 500])
    if r.random() < 0.3:
        o["sup"] = r.choice([2000, 3000, 4500])
    exact = r.random() < .25
    if exact:
        o["min_score"] = r.choice([3000, 4000, 3500])
        o["sup"] = r.choice([3000, 4000, 5000, 4500])
    if opts:
        o.update(opts(r) if callable(opts) else opts)
    saved = [{"id": f"saved{i}", "f": unit_filter(r, L, ("course", "lesson", "meta", "dependents", "deps"))} for i in range(2)]
    units = list(L["courses"]) + list(L["lessons"]) + list(L["exs"])
    ev = []
    ev += histories(r, L, share=r.choice([0.2, 0.6, 0.9, 1.0]), exact=exact)
    for _ in range(r.randint(*events)):
        x = r.random()
        if x < bl:
            k = r.choice(["bl_add", "bl_add", "bl_add", "bl_rm", "bl_rmp"])
            u = r.choice(units if r.random() < .95 else ["gone", "c0::gone"])
            if k == "bl_rmp":
                u = u[: r.randint(0, len(u))]
            ev.append({"op": k, "u": u})
        elif x < bl + rv:
            gone = ["gone", "c0::gone", "c0::l0::gone"]      # as after a unit has been removed from the library
            ev.append({"op": r.choice(["rv_add", "rv_add", "rv_add", "rv_rm"]), "u": r.choice(units if r.random() < .85 else gone)})
        elif x < bl + rv + fail and L["exs"]:
            ev.append({"op": "score", "ex": r.choice(list(L["exs"])), "grade": r.choice([1, 1, 2, 2, 3, 5]), "ago": 0})
        elif x < bl + rv + fail + 0.25 and L["exs"]:
            l = r.choice(list(L["lessons"]))
            k = r.choice(list(EXACT) if exact else KINDS)
            for e in L["lessons"][l]["exs"]:
                if HIST[k]:
                    ev.append({"op": "rec", "ex": e, "ts": HIST[k]})
        elif extra and r.random() < 0.5:
            ev += extra(r, L, units)
        ev.append(batch(r, L, filters, saved))
    for f in filters:
        ev.append(batch(r, L, [f], saved))
    return {"id": pid, "backend": "parts", "pool": True, "opts": o, "saved": saved, "lib": L, "ev": ev}


def batch(r, L, filters, saved=()):
    k = r.choice(filters)
    if k == "none":
        f = {"t": "none"}
    elif k == "session":
        f = session(r, L, list(saved))
    else:
        f = unit_filter(r, L, (k,))
    return {"op": "batch", "f": f}


def walk_program(r, pid, lib_kw, steps=12, backend="parts"):
    """A student who masters every exercise the library holds, lesson by lesson, with batches in between."""
    L = library(r, **lib_kw)
    ev = [{"op": "batch", "f": {"t": "none"}}]
    ls = list(L["lessons"])
    r.shuffle(ls)
    for l in ls[:steps]:
        if r.random() < .3:      # not enough trials or too low a score at first
            k = r.choice(["one5", "one", "flat3", "fail"])
            ev += [{"op": "rec", "ex": e, "ts": HIST[k]} for e in L["lessons"][l]["exs"]]
            ev.append({"op": "batch", "f": {"t": "none"}})
        for e in L["lessons"][l]["exs"]:
            ev.append({"op": "rec", "ex": e, "ts": MASTER})
        ev.append({"op": "batch", "f": {"t": "none"}})
    return {"id": pid, "backend": backend, "opts": dict(POOL_OPTS), "lib": L, "ev": ev}


def dense_program(r, pid, kinds):
    """Many units with one exercise each and many dependencies, filters that select about half of them."""
    L = {"courses": {}, "lessons": {}, "exs": {}}
    for c in "ABCDEF"[:r.randint(3, 6)]:
        L["courses"][c] = {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": [f"{c}::{j}" for j in range(r.choice([1, 1, 1, 2]))]}
        for l in L["courses"][c]["lessons"]:
            L["lessons"][l] = {"course": c, "deps": [], "sup": [], "enc": [], "meta": {}, "exs": [l + "::x"]}
            L["exs"][l + "::x"] = {"lesson": l, "type": "D"}
    us = list(L["courses"]) + list(L["lessons"])
    if r.random() < .5:      # whole courses in order, so that no dependencies wait for each other through containment
        us.sort(key=lambda u: (u[0], len(u), u))
    else:
        r.shuffle(us)
    rec = lambda u: L["courses"].get(u) or L["lessons"][u]
    p = r.choice([.15, .25, .4])
    for i, u in enumerate(us):
        for v in us[:i]:
            if r.random() < p and not (u != v and u[0] == v[0] and ("::" in u) != ("::" in v)):
                rec(u)["deps"].append(v)
        rec(u)["meta"] = {k: [r.choice("ab")] for k in ("k1", "k2", "k3")}
    good = r.choice([.3, .5, .7])
    ev = [{"op": "rec", "ex": x, "ts": MASTER} for x in L["exs"] if r.random() < good]
    for _ in range(r.randint(4, 6)):
        k = r.choice(kinds)
        if k == "meta":
            one = lambda: {"t": r.choice("lllc"), "k": r.choice(["k1", "k2", "k3"]), "v": r.choice("ab"), "inc": r.random() < .8}
            f = {"t": "meta", "f": one() if r.random() < .6 else {"t": r.choice(["all", "any"]), "fs": [one(), one()]}}
        elif k == "deps":
            f = {"t": k, "ids": some(r, us[len(us) // 2:], 1, 2), "depth": r.randint(1, 4)}
        else:
            pick = {"course": sorted(L["courses"]), "lesson": sorted(L["lessons"])}.get(k, us)
            f = {"t": k, "ids": some(r, pick, 1, 2)}
        ev.append({"op": "batch", "f": f})
    return {"id": pid, "backend": "parts", "pool": True, "opts": dict(POOL_OPTS), "lib": L, "ev": ev}


def search_replay(r, pid, run):
    """A library and a student of the model MCSearch, for the real code: every way the search could go is one it may take."""
    ids = run["us"]
    L = {"courses": {}, "lessons": {}, "exs": {}}
    for u in ids:
        rec = {"deps": [e[1] for e in run["e"] if e[0] == u] + (["ghost"] if u in run["w"] else []),
               "sup": [e[1] for e in run["s"] if e[0] == u], "enc": [], "meta": {}}
        if "::" in u:
            L["lessons"][u] = dict(rec, course=u[0], exs=[u + "::x"])
            L["exs"][u + "::x"] = {"lesson": u, "type": "D"}
        else:
            L["courses"][u] = dict(rec, lessons=[l for l in ids if l.startswith(u + "::")])
    filtered = set(run["p"]) != set(ids)
    f = {"t": "none"}
    if filtered:
        whole = [c for c in L["courses"] if c in run["p"]]
        for u in run["p"]:
            if u in whole or not whole:
                (L["courses"].get(u) or L["lessons"][u])["meta"] = {"k": ["a"]}
        f = {"t": "meta", "f": {"t": "c" if whole else "l", "k": "k", "v": "a", "inc": True}}
    ev = [{"op": "rec", "ex": l + "::x", "ts": MASTER} for l in run["m"]]
    ev += [{"op": "bl_add", "u": u} for u in run["b"]]
    ev += [{"op": "batch", "f": f} for _ in range(2)]
    return {"id": pid, "backend": "parts", "pool": True, "opts": dict(POOL_OPTS), "lib": L, "ev": ev}


def all_units(L):
    return list(L["courses"]) + list(L["lessons"]) + list(L["exs"])


def score_ev(r, L, grades=(1, 2, 3, 4, 5), ago=0):
    return {"op": "score", "ex": r.choice(list(L["exs"])), "grade": r.choice(grades), "ago": ago}


ANY = ("course", "lesson", "meta", "review", "dependents", "deps")


def shape_program(r, pid, lib_kw):
    """Batches of every kind under all sorts of options, with overlapping review list and filter entries."""
    L = library(r, **lib_kw)
    backend = r.choice(["facade", "facade", "parts"])
    o = {"batch": r.choice([1, 2, 3, 4, 5, 8, 9, 10, 11, 15, 20, 30, 50]), "relearn": r.choice([0, 0, 100, 200, 500, 1000]),
         "max_prog": r.choice([1, 2, 10, 1000]), "min_frac": r.choice([0, 300, 500, 1000])}
    if r.random() < .3:      # windows without an extent, at either end
        o["cuts"] = r.choice([[100, 3000, 4000, 5000], [100, 3000, 5000, 5000], [1000, 1000, 4000, 5000], [5000, 5000, 5000, 5000], [100, 3000, 4000, 4800]])
    if r.random() < .3:
        o["pct"] = r.choice([[50, 100, 700, 100, 50], [200, 200, 200, 200, 200], [1000, 0, 0, 0, 0], [0, 0, 0, 0, 1000],
                             [500, 500, 0, 0, 0]])
    units = all_units(L)
    ev = histories(r, L, share=r.choice([0.2, 0.6, 1.0]), exact=r.random() < .4)
    for _ in range(r.randint(3, 7)):
        x = r.random()
        if x < .35:
            u = r.choice(units)
            ev += [{"op": "rv_add", "u": v} for v in sorted({u, u.rsplit("::", 1)[0], r.choice(units)}) if v in units]
            if r.random() < .2:
                ev.append({"op": "rv_add", "u": r.choice(["gone", "c0::gone", "c0::l0::gone"])})
        elif x < .5:
            ev.append({"op": "bl_add", "u": r.choice(units)})
        elif x < .8 and L["exs"]:
            ev += [score_ev(r, L, (1, 2, 1, 4)) for _ in range(r.randint(1, 4))]
        elif x < .9:
            u = r.choice(units)
            ev.append({"op": "bl_rmp", "u": u[:r.randint(0, len(u))]})
        f = batch(r, L, ("none", "review") + ANY)
        if "ids" in f["f"] and r.random() < .4:
            f["f"]["ids"] = f["f"]["ids"] + f["f"]["ids"]
        ev.append(f)
        if r.random() < .5:
            ev.append(dict(f))
    return {"id": pid, "backend": backend, "pool": r.random() < .5, "opts": o, "lib": L, "ev": ev}


def stress_op(r, L, rewards=True, past=()):
    """One operation of the public interface that changes what scores are computed from."""
    units = all_units(L)
    nonex = list(L["courses"]) + list(L["lessons"])
    pre = lambda: (lambda u: u[:r.randint(0, len(u))])(r.choice(units))
    exs = list(L["exs"]) or ["nope"]
    k = r.choice(["score"] * 6 + ["bl_add"] * 3 + ["bl_rm"] * 2 + ["bl_rmp", "st_trim", "st_rmp", "de_trim", "de_rmp", "inval", "invalp", "recs", "derecs"]
                 + (["rw_trim", "rw_rmp", "rwrecs"] if rewards else []))
    ago = lambda: r.choice([0, 60, 400, 3 * DAY])
    if k in ("recs", "derecs", "rwrecs"):
        some = [r.choice(nonex if k == "rwrecs" else exs) for _ in range(r.randint(1, 4))]
        return [{"op": k, "all": [[x, r.choice([10, 20, 40, 50]), ago()] if k == "recs" else [x, r.choice([-20, -10, 10, 20]), ago()] if k == "derecs"
                                  else [x, r.choice([-1000, -500, 500, 1000]), r.choice([1000, 500]), ago()] for x in some]}]
    if k == "score":
        g = r.choice([1, 2, 3, 4, 5, 5])
        return [{"op": "score", "ex": r.choice(exs), "grade": g, "ago": r.choice([0, 0, 60, 400])}]
    if k in ("bl_add", "bl_rm"):
        listed = [e["u"] for e in past if e["op"] == "bl_add"]
        return [{"op": k, "u": r.choice(listed if listed and k == "bl_rm" and r.random() < .8 else units)}]
    if k == "bl_rmp":
        return [{"op": k, "u": pre()}]
    if k in ("st_trim", "de_trim", "rw_trim"):
        return [{"op": k, "n": r.choice([0, 1, 1, 2, 3])}]
    if k in ("st_rmp", "de_rmp", "rw_rmp", "invalp"):
        return [{"op": k, "p": pre()}]
    return [{"op": k, "u": r.choice(units)}]


def stress_program(r, pid, lib_kw, n=(4, 9), setopts=0.0, backend="facade"):
    """Reads everything, changes something, reads everything: any stale value shows up."""
    L = library(r, **lib_kw)
    ev = histories(r, L, share=r.choice([.6, 1.0]), uniform=r.choice([.5, 1.0]))
    ev += [{"op": "reopen"}, {"op": "scores"}]
    for _ in range(r.randint(*n)):
        if r.random() < setopts:
            ev += [setopts_ev(r)] if r.random() < .85 else [{"op": "resetopts"}]
        else:
            for _ in range(r.choice([1, 1, 2])):
                ev += stress_op(r, L, past=ev)
        x = r.random()
        if x < .3:
            ev += [{"op": "read", "u": r.choice(all_units(L))} for _ in range(r.randint(1, 2))]
        elif x < .9:
            ev.append({"op": "scores"})
        if r.random() < .4:
            ev.append(batch(r, L, ("none", "none", "dependents", "lesson")))
    ev += [{"op": "scores"}, batch(r, L, ("none",))]
    return {"id": pid, "backend": backend, "opts": {}, "lib": L, "ev": ev}


def route_program(r, pid, lib_kw):
    """Every record of every unit counts, every score is read; then records go by one of the routes that take many units
    at once, and every score is read again."""
    L = library(r, **lib_kw)
    exs, nonex = list(L["exs"]) or ["nope"], list(L["courses"]) + list(L["lessons"])
    ago = lambda: r.choice([0, 60, DAY, 3 * DAY])
    fill = {"recs": lambda: [[x, r.choice([10, 20, 30, 40, 50]), ago()] for x in exs for _ in range(r.randint(1, 3))],
            "derecs": lambda: [[x, r.choice([-20, -10, 10, 20]), ago()] for x in exs],
            "rwrecs": lambda: [[x, r.choice([-1000, -500, 500, 1000]), r.choice([1000, 500]), ago()] for x in nonex for _ in range(r.randint(1, 2))]}
    ev = [{"op": k, "all": f()} for k, f in fill.items()] + [{"op": "scores"}]
    units = all_units(L)

    def prefix():
        u = r.choice(units)
        return r.choice(["", "c", u.split("::")[0], u, u[:r.randint(0, len(u))], u[:-1]])
    for _ in range(r.randint(3, 6)):
        k = r.choice(["st_rmp", "de_rmp", "de_rmp", "rw_rmp", "bl_rmp", "st_trim", "de_trim", "rw_trim"])
        if k == "bl_rmp":
            ev += [{"op": "bl_add", "u": r.choice(units)} for _ in range(r.randint(1, 3))] + [{"op": "scores"}]
            ev.append({"op": k, "u": prefix()})
        else:
            ev.append({"op": k, "n": r.choice([0, 0, 1])} if k.endswith("trim") else {"op": k, "p": prefix()})
        ev.append({"op": "scores"})
        if k[:2] in ("st", "de", "rw") and r.random() < .5:
            k = {"st": "recs", "de": "derecs", "rw": "rwrecs"}[k[:2]]
            ev += [{"op": k, "all": fill[k]()}, {"op": "scores"}]
    return {"id": pid, "backend": "facade", "opts": {}, "lib": L, "ev": ev}


def setopts_ev(r):
    o = {}
    for k, vs in (("num_trials", [1, 2, 3, 20]), ("num_deltas", [1, 2, 10]), ("num_rewards", [1, 2, 10]), ("sup", [2000, 3000, 4000, 4800]),
                  ("min_score", [2000, 3000, 3500]), ("min_trials", [1000, 1800, 3000]), ("min_frac", [500, 1000]),
                  ("batch", [3, 10, 20, 50]), ("relearn", [0, 100, 500, 1000]), ("max_prog", [1, 2, 10])):
        if r.random() < .4:
            o[k] = r.choice(vs)
    return {"op": "setopts", "o": o}


def cache_pool_program(r, pid, lib_kw, n=(4, 8)):
    """As stress_program, on a scheduler whose batches show the whole pool."""
    L = library(r, **lib_kw)
    ev = histories(r, L, share=r.choice([.6, 1.0]), uniform=r.choice([.5, 1.0]))
    ev.append({"op": "batch", "f": {"t": "none"}})
    exs = list(L["exs"])
    for _ in range(r.randint(*n)):
        if r.random() < .6 and exs:
            ev += [{"op": "score", "ex": r.choice(exs), "grade": r.choice([1, 3, 4, 5]), "ago": 0}]
        else:
            ev += [e for e in stress_op(r, L, past=ev) if e["op"] not in ("inval", "invalp")]
        ev.append({"op": "batch", "f": {"t": "none"}})
    return {"id": pid, "backend": "parts", "pool": True, "opts": dict(POOL_OPTS), "lib": L, "ev": ev}


def trial_program(r, pid, lib_kw):
    """Students who only get top grades, so that the number of trials decides what is mastered."""
    L = library(r, **lib_kw)
    backend = r.choice(["parts", "parts", "parts", "facade"])
    o = dict(POOL_OPTS, min_trials=r.choice([1000, 1200, 1500, 1800, 1800, 2000, 2500])) if backend == "parts" else {}
    def trials(n):
        return [[50, 100 * (n - i)] for i in range(n)]
    ev = []
    for l, v in L["lessons"].items():
        k = r.choice([None, None, 0, 1, 1, 2, 2, 3])
        ev += [{"op": "rec", "ex": e, "ts": trials(n)} for e in v["exs"] for n in [r.choice([0, 1, 2, 2, 3]) if k is None else k] if n]
    ev.append({"op": "batch", "f": {"t": "none"}})
    listed = []
    for _ in range(r.randint(4, 9)):
        x = r.random()
        if x < .55 and L["exs"]:
            l = r.choice(list(L["lessons"]))
            ev += [{"op": "score", "ex": e, "grade": 5, "ago": 0} for e in L["lessons"][l]["exs"] if r.random() < .7]
        elif x < .66 and L["exs"]:
            # What is left of a lesson has enough trials, what goes has few.
            l = r.choice([l for l in L["lessons"] if L["lessons"][l]["exs"]])
            es = r.sample(L["lessons"][l]["exs"], len(L["lessons"][l]["exs"]))
            k = r.randint(0, len(es) - 1)
            ev += [{"op": "bl_add", "u": e} for e in es[:k] if e not in listed]
            listed += [e for e in es[:k] if e not in listed]
            ev += [{"op": "rec", "ex": e, "ts": trials(r.choice([2, 3]))} for e in es[k:]] + [{"op": "inval", "u": l}]
        elif x < .78:
            u = r.choice(listed) if listed and r.random() < .4 else r.choice(all_units(L))
            ev.append({"op": "bl_rm" if u in listed else "bl_add", "u": u})
            listed = [v for v in listed if v != u] + ([] if u in listed else [u])
        else:
            ev.append({"op": "setopts", "o": r.choice([{"num_trials": 1}, {"num_trials": 20}, {"num_trials": r.choice([1, 2, 3])},
                                                         {"min_trials": r.choice([1000, 1500, 1800, 2500])}])})
        if r.random() < .2:
            ev.append({"op": "scores"})
        ev.append({"op": "batch", "f": {"t": "none"}})
    return {"id": pid, "backend": backend, "pool": True, "opts": o, "lib": L, "ev": ev}


def mix_program(r, pid):
    """Libraries without gates, so that the number of candidates per mastery window is known."""
    x = r.random()
    if x < .25:      # many ends of the search
        L = library(r, courses=(6, 12), lessons=(1, 2), exs=(2, 6), dep=0, cross=0, missing=0)
    elif x < .4:     # enough for large batches
        L = library(r, courses=(4, 4), lessons=(4, 5), exs=(8, 14), dep=0, cross=0, missing=0)
    else:
        L = library(r, courses=(1, 3), lessons=(1, 5), exs=(1, 14), dep=0, cross=0, missing=0)
    o = {"batch": r.choice([30, 45, 50] if .25 <= x < .4 else [3, 5, 7, 8, 10, 12, 16, 20, 30, 45, 50]), "min_frac": 1000, "max_prog": 1000, "relearn": r.choice([0, 100])}
    if r.random() < .5:
        o["pct"] = r.choice([[50, 150, 400, 250, 150], [200, 200, 200, 200, 200], [100, 300, 300, 200, 100], [50, 50, 800, 50, 50],
                             [300, 300, 200, 100, 100], [500, 100, 100, 200, 100], [100, 480, 100, 170, 150], [100, 100, 100, 200, 500],
                             [100, 150, 100, 450, 200], [250, 250, 0, 250, 250], [200, 300, 20, 280, 200], [0, 0, 0, 500, 500], [600, 200, 0, 100, 100]])
    if r.random() < .3:
        o["cuts"] = r.choice([[100, 2000, 3500, 4600], [500, 2500, 3500, 4500], [100, 3000, 4000, 4800]])
    ev = []
    one = r.random() < .4      # all in the same windows
    mixes = [["none"], ["fail"], ["fail"], ["fail", "none"], ["fail", "one", "mid", "none"], ["flat4", "pass", "good"], ["top", "top", "good"], KINDS, KINDS,
             ["none", "top"], ["mid", "flat4", "top", "none"]]
    if r.random() < .3:      # scores on the boundaries of the windows
        mixes = [list(EXACT)]
        one = False
        o["cuts"] = r.choice([[100, 3000, 4000, 4800], [1000, 3000, 4000, 5000], [100, 2000, 3000, 4000]])
    if one:
        mixes = r.sample(mixes, 1)
    for l in L["lessons"].values():
        bias = r.choice(mixes)
        for e in l["exs"]:
            h = history(r, e, bias)
            if h:
                ev.append(h)
    exs = list(L["exs"])
    for _ in range(r.randint(2, 4)):
        x = r.choice(exs)
        rate = r.choice([[], [4], [1, 4], [1, 1, 1, 5], [1, 4, 4, 4, 5], [1, 4, 4], [1, 4, 4, 5], [1] + [4] * 9])
        low, high = r.choice([(1, 4), (2, 3), (2, 5), (1, 3)])
        ev += [{"op": "score", "ex": x, "grade": low if g == 1 else g if g == 5 else high, "ago": 0} for g in rate]
        ev.append({"op": "batch", "f": {"t": "none"}, "mix": True})
    return {"id": pid, "backend": r.choice(["parts", "facade"]), "pool": False, "opts": o, "lib": L, "ev": ev}


def cover_program(r, pid):
    """Well known exercises that the practice of many others covers."""
    L = {"courses": {}, "lessons": {}, "exs": {}}

    def course(c, lessons, exs):
        L["courses"][c] = {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": [f"{c}::{j}" for j in range(lessons)]}
        for l in L["courses"][c]["lessons"]:
            L["lessons"][l] = {"course": c, "deps": [], "sup": [], "enc": [], "meta": {}, "exs": [f"{l}::x{k}" for k in range(exs)]}
            for e in L["lessons"][l]["exs"]:
                L["exs"][e] = {"lesson": l, "type": r.choice("DP")}
    bases = [f"B{i}" for i in range(r.choice([1, 1, 2]))]
    for b in bases:
        course(b, r.randint(1, 2), r.randint(1, 4))
    covers = [f"C{i}" for i in range(r.choice([3, 5, 6, 9, 10, 11, 12]))]
    for c in covers:
        course(c, 1, r.choice([1, 1, 2]))
    rec = lambda u: L["courses"].get(u) or L["lessons"][u]
    base_units = [u for u in list(L["courses"]) + list(L["lessons"]) if u[0] == "B"]
    targets = r.sample(base_units, min(len(base_units), r.randint(1, 3)))
    ws = r.choice([[1000], [1000], [1000, 500], [500], [1000, 900, 250, 0], [300, 700]])
    by = r.choice(["course", "lesson", "any"])
    far = r.choice([0, 0, .3])
    for i, c in enumerate(covers):
        for u in [c, c + "::0"]:
            if by == "any" and r.random() < .5 or (by == "course") == (u == c) and by != "any":
                for t in targets:
                    if r.random() < .9:
                        rec(u)["enc"].append([t, r.choice(ws)])
            if i and r.random() < far:
                rec(u)["enc"].append([r.choice([covers[i - 1], covers[i - 1] + "::0"]), r.choice(ws)])
    if r.random() < .3:
        L["lessons"][bases[0] + "::0"]["enc"].append([bases[-1] + "::0", r.choice(ws)]) if len(bases) > 1 else None
    high = r.choice([["top"], ["top", "now5"], ["now5"], ["now4", "flat4", "good"], ["top", "flat4", "none"]])
    ev = [h for e in L["exs"] for h in [history(r, e, high if e[0] == "B" else r.choice([["none"], ["top"], KINDS]))] if h]
    mix = r.random() < .35
    o = dict(POOL_OPTS)
    if mix:
        o.update(batch=r.choice([4, 7, 10, 12]))
    f = lambda: {"t": "none"} if mix or r.random() < .6 else {"t": "lesson", "ids": sorted(set(some(r, L["lessons"], 2, 12) + [bases[0] + "::0"]))}
    for _ in range(r.randint(2, 4)):
        ev.append(dict({"op": "batch", "f": f()}, **({"mix": True} if mix else {})))
        ev.append({"op": "bl_add", "u": r.choice(covers + [c + "::0" for c in covers])} if r.random() < .7 else
                  {"op": "rec", "ex": r.choice([e for e in L["exs"] if e[0] == "B"]), "ts": HIST[r.choice(["top", "now5", "fail"])]})
    ev.append(dict({"op": "batch", "f": f()}, **({"mix": True} if mix else {})))
    return {"id": pid, "backend": "parts", "pool": not mix, "opts": o, "lib": L, "ev": ev}


def fraction_program(r, pid):
    """Lessons with many exercises around the passing score, of which a part is offered."""
    L = library(r, courses=(1, 3), lessons=(1, 4), exs=(1, 13), dep=0, cross=0, missing=0)
    o = dict(POOL_OPTS, batch=1000, min_frac=r.choice([0, 0, 100, 250, 300, 500, 600, 900, 1000]), min_score=r.choice([3000, 3000, 3500, 2000]))
    kinds = ["fail", "mid", "mid", "pass", "flat4", "flat3", "flat3", "good", "top", "one", "none", "now3", "now4"]
    ev = []
    for l in L["lessons"].values():
        two = r.sample(kinds, r.choice([1, 2, 2, 3]))
        ev += [h for h in (history(r, e, two) for e in l["exs"]) if h]
    ev += [batch(r, L, ("none", "none", "lesson", "course", "meta", "deps")) for _ in range(2)]
    return {"id": pid, "backend": "parts", "pool": True, "opts": o, "lib": L, "ev": ev}


def bridge_program(r, pid):
    """Chains of units that a filter leaves out, so that what they wait for is waited for by those behind them."""
    L = {"courses": {}, "lessons": {}, "exs": {}}
    names = "ABCDEF"[:r.randint(4, 6)]
    for c in names:
        n = r.choice([1, 1, 2, 2, 3])
        L["courses"][c] = {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": [f"{c}::{j}" for j in range(n)]}
        for j, l in enumerate(L["courses"][c]["lessons"]):
            L["lessons"][l] = {"course": c, "deps": [f"{c}::{j - 1}"] if j and r.random() < .6 else [], "sup": [], "enc": [], "meta": {}, "exs": [l + "::x"]}
            L["exs"][l + "::x"] = {"lesson": l, "type": "D"}
    rec = lambda u: L["courses"].get(u) or L["lessons"][u]
    for i, c in enumerate(names):
        before = [u for u in list(L["courses"]) + list(L["lessons"]) if u[0] in names[:i]]
        for u in [c] + L["courses"][c]["lessons"]:
            for v in r.sample(before, min(len(before), r.choice([0, 1, 1, 2]))):
                rec(u)["deps"].append(v)
    out = set(r.sample(names[1:-1], r.randint(1, len(names) - 2)))
    by = r.choice("lllc")
    for u in list(L["courses"]) + list(L["lessons"]):
        hidden = u[0] in out and (("::" not in u) == (by == "c") or by == "l") and r.random() < .85 or r.random() < .1
        rec(u)["meta"] = {"k": ["a"]} if not hidden else {}
    good = r.choice([.4, .6, .8])
    ev = [{"op": "rec", "ex": x, "ts": MASTER} for x in L["exs"] if r.random() < good]
    f = {"t": "meta", "f": {"t": by, "k": "k", "v": "a", "inc": True}}
    todo = [x for x in L["exs"]]
    for _ in range(4):
        ev.append({"op": "batch", "f": f})
        ev.append({"op": "rec", "ex": r.choice(todo), "ts": r.choice([MASTER, HIST["fail"]])})
    ev.append({"op": "batch", "f": f})
    return {"id": pid, "backend": "parts", "pool": True, "opts": dict(POOL_OPTS), "lib": L, "ev": ev}


def even_program(r, pid):
    """Many exercises that nothing tells apart, asked for again and again."""
    L = {"courses": {}, "lessons": {}, "exs": {}}
    nc, nl = r.choice([(1, 10), (2, 5), (10, 1)])
    for i in range(nc):
        c = f"c{i}"
        L["courses"][c] = {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": [f"{c}::l{j}" for j in range(nl)]}
        for l in L["courses"][c]["lessons"]:
            L["lessons"][l] = {"course": c, "deps": [], "sup": [], "enc": [], "meta": {}, "exs": [f"{l}::e{k}" for k in range(20)]}
            for e in L["lessons"][l]["exs"]:
                L["exs"][e] = {"lesson": l, "type": "D"}
    h = r.choice([[], [], [[30, 60 * DAY], [30, 50 * DAY]], [[40, 90 * DAY]],
                  [[50, 60 * DAY + 21600], [10, 60 * DAY]]])      # never practised, long overdue, or fallen within hours
    ev = [{"op": "rec", "ex": e, "ts": h} for e in L["exs"]] if h else []
    f = r.choice([{"t": "none"}, {"t": "lesson", "ids": list(L["lessons"])}, {"t": "course", "ids": list(L["courses"])}, {"t": "review"}])
    if f["t"] == "review":
        ev += [{"op": "rv_add", "u": x} for x in L["exs"]]
    ev.append({"op": "batches", "n": 30, "f": f})
    return {"id": pid, "backend": r.choice(["parts", "facade"]), "pool": False,
            "opts": {"batch": 50, "min_frac": 1000, "max_prog": 1000}, "lib": L, "ev": ev}


def arranged_program(r, pid):
    """Batches of all kinds over courses with weak and strong exercises side by side."""
    L = library(r, courses=(1, 5), lessons=(1, 3), exs=(1, 8), dep=r.choice([0, .3]), cross=0, missing=0)
    o = {"batch": r.choice([5, 10, 20, 30, 50]), "relearn": r.choice([0, 0, 0, 100]), "max_prog": r.choice([10, 1000]), "min_frac": r.choice([500, 1000])}
    if r.random() < .4:
        o["cuts"] = r.choice([[100, 2000, 3500, 4600], [100, 3000, 4000, 4800], [1000, 3000, 4000, 5000], [100, 4000, 4500, 4800]])
    ev = histories(r, L, share=r.choice([.2, .6, 1.0]), exact=r.random() < .4, uniform=r.choice([0, .5]))
    for _ in range(r.randint(2, 5)):
        if r.random() < .3:
            u = r.choice(all_units(L))
            ev.append({"op": r.choice(["bl_add", "rv_add", "rv_add"]), "u": u})
        if r.random() < .2:
            ev.append(score_ev(r, L, (3, 4, 5)))
        ev.append(batch(r, L, ("none", "none", "none", "review") + ANY))
    return {"id": pid, "backend": r.choice(["facade", "parts"]), "pool": False, "opts": o, "lib": L, "ev": ev}


def order_program(r, pid):
    """The same batch many times, of courses never attempted and others well known."""
    L = {"courses": {}, "lessons": {}, "exs": {}}
    new, known = r.choice([(2, 6), (3, 6), (2, 8), (1, 6), (4, 8)])
    sizes = {"new": r.choice([3, 4, 7, 8, 12]), "known": r.randint(3, 6)}
    ev = []
    for i in range(new + known):
        kind = "new" if i < new else "known"
        c = f"c{i}"
        L["courses"][c] = {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": [f"{c}::0"]}
        L["lessons"][f"{c}::0"] = {"course": c, "deps": [], "sup": [], "enc": [], "meta": {}, "exs": [f"{c}::0::{k}" for k in range(sizes[kind])]}
        for e in L["lessons"][f"{c}::0"]["exs"]:
            L["exs"][e] = {"lesson": f"{c}::0", "type": "D"}
            if kind == "known":
                ev.append({"op": "rec", "ex": e, "ts": r.choice([[[50, 90], [50, 50], [50, 0]], [[40, 90], [40, 0]], [[30, 90], [40, 0]]])})
    f = r.choice([{"t": "none"}, {"t": "course", "ids": list(L["courses"])}, {"t": "review"}])
    if f["t"] == "review":
        ev += [{"op": "rv_add", "u": x} for x in L["courses"]]
    ev.append({"op": "batches", "n": 100, "order": True, "f": f})
    return {"id": pid, "backend": r.choice(["facade", "parts"]), "pool": False, "lib": L, "ev": ev,
            "opts": {"batch": r.choice([20, 50]), "min_frac": 1000, "max_prog": 1000, "relearn": r.choice([0, 100])}}


def progress_program(r, pid, lib_kw):
    L = library(r, **lib_kw)
    o = dict(POOL_OPTS)
    o["max_prog"] = r.choice([1, 1, 2, 2, 3, 5])
    if r.random() < .3:
        o["cuts"] = r.choice([[100, 2000, 3500, 4600], [100, 3000, 4000, 4800]])
    exact = r.random() < .3
    if exact:
        o["cuts"] = r.choice([[100, 3000, 4000, 4800], [100, 4000, 4500, 4800], [100, 2000, 3000, 4000]])
    ev = histories(r, L, share=r.choice([0, .3, .6, .9]), exact=exact)
    for _ in range(r.randint(2, 5)):
        ev.append(batch(r, L, ("none", "none", "none", "meta", "dependents", "deps", "course")))
        if L["lessons"]:
            l = r.choice(list(L["lessons"]))
            k = r.choice([k for k in (EXACT if exact else KINDS) if HIST[k]])
            ev += [{"op": "rec", "ex": e, "ts": HIST[k]} for e in L["lessons"][l]["exs"]]
    ev.append({"op": "batch", "f": {"t": "none"}})
    return {"id": pid, "backend": "parts", "pool": True, "opts": o, "lib": L, "ev": ev}


def pile_program(r, pid, lib_kw):
    L = library(r, **lib_kw)
    exs = list(L["exs"]) or ["nope"]
    o = {"batch": r.choice([5, 10, 20, 50]), "relearn": r.choice([0, 100, 200, 500, 1000]), "max_prog": 1000, "min_frac": 1000}
    ev = histories(r, L, share=r.choice([0, .5]))
    hot = r.sample(exs, min(len(exs), r.randint(1, 6)))
    for _ in range(r.randint(6, 14)):
        x = r.random()
        if x < .6:
            ev.append({"op": "score", "ex": r.choice(hot), "grade": r.choice([1, 1, 2, 2, 2, 3, 4, 5]), "ago": r.choice([0, 0, 30])})
        elif x < .66:
            ev.append({"op": "score", "ex": r.choice(["nope", "c0", "c0::l0", exs[0] + "x", ""]), "grade": r.choice([1, 5]), "ago": 0})
        elif x < .8:
            e = r.choice(hot)
            u = r.choice([e, e, e.rsplit("::", 1)[0], e.split("::")[0]])
            ev.append({"op": r.choice(["bl_add", "bl_rm"]), "u": u})
        if r.random() < .6:
            ev.append(batch(r, L, ("none", "none", "lesson", "course", "review", "dependents")))
    ev.append(batch(r, L, ("none",)))
    return {"id": pid, "backend": r.choice(["facade", "parts"]), "pool": r.random() < .6, "opts": o, "lib": L, "ev": ev}


def lattice_program(r, pid, _):
    """Layers of lessons, each related to all of the layer before: few units, but very many paths between them."""
    w, rel = r.choice([2, 2, 3]), r.choice(["deps", "deps", "sup", "enc"])
    n = {"deps": 36, "sup": 26, "enc": 30}[rel] if w == 2 else {"deps": 26, "sup": 18, "enc": 20}[rel]
    L = {"courses": {"c0": {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": []}}, "lessons": {}, "exs": {}}
    ls = [[f"c0::l{i}_{j}" for j in range(w)] for i in range(n)]
    for i in range(n):
        for l in ls[i]:
            d = {"course": "c0", "deps": [], "sup": [], "enc": [], "meta": {"k": ["v"]} if i in (0, n - 1) or r.random() < .1 else {}, "exs": [l + "::e0"]}
            if i:
                d[rel] = [[x, r.choice([1000, 900, 500])] for x in ls[i - 1]] if rel == "enc" else list(ls[i - 1])
            L["lessons"][l] = d
            L["courses"]["c0"]["lessons"].append(l)
            L["exs"][l + "::e0"] = {"lesson": l, "type": r.choice("DP")}
    done = r.choice([n, n, r.randint(1, n)])
    ev = [{"op": "recs", "all": [[l + "::e0", 50, t] for i in range(n) for l in ls[i] for t in ([900, 600, 300] if i < done or rel == "sup" else [])]}]
    none, last = {"op": "batch", "f": {"t": "none"}}, ls[n - 1][0]
    deps = lambda: {"op": "batch", "f": {"t": "deps", "ids": [r.choice(ls[r.randint(n // 2, n - 1)])], "depth": r.choice([n, n // 2, 2 * n, 3])}}
    ev += [none, {"op": "batch", "f": {"t": "deps", "ids": [last], "depth": n}}, {"op": "score", "ex": last + "::e0", "grade": r.choice([1, 5]), "ago": 0},
           none, deps(), {"op": "bl_add", "u": r.choice(ls[r.randint(0, n - 1)])}, {"op": "batch", "f": {"t": "dependents", "ids": [ls[0][0]]}}, deps(),
           {"op": "batch", "f": {"t": "meta", "f": {"t": "l", "k": "k", "v": "v", "inc": True}}}, none]
    return {"id": pid, "backend": "facade", "opts": {}, "lib": L, "ev": ev}


def turns_program(r, pid):
    """More failed exercises than a batch has room for, asked for many batches of something else."""
    L = library(r, courses=(2, 2), lessons=(1, 3), exs=(2, 5), dep=0, cross=0, missing=0)
    fail = [x for x in L["exs"] if x.startswith("c0")]
    ev = [{"op": "score", "ex": x, "grade": r.choice([1, 2]), "ago": r.choice([0, 0, 50])} for x in fail]
    if r.random() < .3:
        ev.append({"op": "bl_add", "u": fail[0]})
    k = r.randint((len(fail) + 3) // 4, max(1, len(fail) - 1)) + 1
    b = r.choice([10, 20, 50])
    f = r.choice([{"t": "lesson", "ids": [l for l in L["lessons"] if l.startswith("c1")]}, {"t": "course", "ids": ["c1"]}])
    ev.append({"op": "batches", "n": 80, "pile": True, "f": f})
    return {"id": pid, "backend": r.choice(["facade", "parts"]), "pool": False, "lib": L, "ev": ev,
            "opts": {"batch": b, "relearn": min(1000, (1000 * k + b // 2) // b), "max_prog": 1000}}


def reward_program(r, pid, lib_kw):
    L = library(r, **lib_kw)
    ev = []
    for _ in range(r.randint(2, 5)):
        if not L["exs"]:
            break
        ev.append(score_ev(r, L, (1, 2, 3, 4, 5), r.choice([0, 0, 100, 90000, 200000])))
        if r.random() < .3:
            ev.append(dict(ev[-1]))
    return {"id": pid, "backend": r.choice(["facade", "parts"]), "opts": {}, "lib": L, "rwobs": True, "ev": ev}


def rewarded_program(r, pid, setopts=False):
    """Stored rewards of every size and age over exercises with every kind of history."""
    L = library(r, courses=(1, 2), lessons=(1, 2), exs=(1, 3), dep=.2, cross=0, missing=0)
    ev = histories(r, L, share=1, uniform=r.choice([0, .5]))
    for e in L["exs"]:      # some old histories: the recency rule no longer applies
        if r.random() < .3:
            s = r.choice([10, 10, 20, 30, 40, 50])
            d = r.choice([2, 6, 8, 20, 60, 100])
            ev.append({"op": "rec", "ex": e, "ts": [[s, (d + 2 - i) * DAY + 7200] for i in range(r.randint(1, 4))]})
    units = list(L["courses"]) + list(L["lessons"])
    harsh = r.random() < .25     # penalties only, some of which weigh more than what is left of the score
    if harsh:
        ev = [{"op": "rec", "ex": e, "ts": [[r.choice([10, 10, 10, 20]), (d + i) * DAY + 7200] for i in range(r.randint(3, 5))]}
              for e in L["exs"] for d in [r.choice([6, 20, 60, 100])] if r.random() < .8]
    for u in units:
        if r.random() < .7:
            for _ in range(r.randint(1, 4)):
                ev.append({"op": "rwrec", "u": u, "v": r.choice([-1000, -1000, -900] if harsh else [1000, 800, 500, 300, 100, -100, -300, -600, -1000]),
                           "w": r.choice([1000, 800, 500, 200, 100, 60, 30]),
                           "ago": r.choice([0, 0, 1] if harsh else [0, 1, 2, 5, 13, 14, 15, 20, 30, 60, -3, -20]) * DAY + 7200})
    ev += [{"op": "reopen"}, {"op": "scores"}]
    for _ in range(r.randint(2, 4) if setopts else 0):
        ev += [{"op": "setopts", "o": {"num_rewards": r.choice([1, 2, 3, 10]), "num_deltas": r.choice([1, 2, 3, 10]), "num_trials": r.choice([2, 3, 4, 20])}},
               {"op": "scores"}]
    if r.random() < .5:
        ev += [{"op": "batch", "f": {"t": "none"}}]
    o = {k: r.choice(vs) for k, vs in (("num_rewards", [1, 3, 10]), ("num_deltas", [1, 3]), ("num_trials", [3, 5])) if r.random() < .25}
    return {"id": pid, "backend": r.choice(["facade", "parts"]), "opts": o,
            "lib": L, "ev": ev}


def session_program(r, pid, lib_kw):
    """Sessions, many of which name a filter that is not saved, among failed exercises waiting to be relearned."""
    p = pool_program(r, pid, lib_kw, filters=("session", "session", "none"), events=(5, 9), fail=.3,
                     opts={"relearn": 500, "batch": r.choice([10, 50])})
    for e in p["ev"]:
        if e["op"] == "batch" and e["f"]["t"] == "session":
            for part in e["f"]["parts"]:
                if r.random() < .15:
                    part.clear()
                    part.update({"k": "saved", "dur": r.randint(0, 5), "id": r.choice(["gone", "saved", ""])})
    return p


def par_call(r, L, own, edits):
    """A call of one thread. Only exercises in `own` are scored."""
    units = all_units(L)
    k = r.choice(["score"] * 5 + ["read"] * 3 + ["batch"] * 2 + ["inval", "invalp", "trials", "query", "query"] + (["bl_add", "bl_add", "bl_rm", "bl_rmp", "rv_add", "rv_rm"] if edits else []))
    if k == "score" and own:
        return {"op": k, "ex": r.choice(own), "grade": r.choice([1, 2, 3, 4, 5, 5]), "ago": r.choice([0, 0, 60, 400])}
    if k == "batch":
        return batch(r, L, ("none", "none", "lesson", "dependents"))
    if k in ("invalp", "bl_rmp"):
        u = r.choice(units)
        return {"op": k, "u": u[:r.randint(0, len(u))], "p": u[:r.randint(0, len(u))]}
    if k == "score":
        k = "read"
    return {"op": k, "u": r.choice(units)}


def par_event(r, L, edits=True, opts=False):
    exs = list(L["exs"])
    r.shuffle(exs)
    if r.random() < .6:
        own = [exs[0:2], exs[2:4]] if r.random() < .7 or len(exs) < 4 else [exs[:2], exs[:2]]
        a = [par_call(r, L, own[0], edits)]
        b = [par_call(r, L, own[1] or own[0], edits) for _ in range(r.randint(1, 2))]
        # often about the same units
        if "u" in a[0] and "p" not in a[0] and r.random() < .5:
            for c in b:
                if "u" in c:
                    c["u"] = a[0]["u"]
        return {"op": "par", "mode": "pause", "k": r.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30, 50]), "max": 12, "th": [a, b]}
    n = r.randint(2, 4)
    th = [[par_call(r, L, exs[i::n][:3], edits) for _ in range(r.randint(2, 5))] for i in range(n)]
    if opts and r.random() < .3:
        th[0].append(setopts_ev(r))
    return {"op": "par", "mode": "random", "k": 0, "max": 0, "seed": r.randint(1, 1 << 30), "th": th}


def par_program(r, pid, lib_kw, n=(4, 9), backend="parts"):
    """Threads sharing an instance, with everything read in between."""
    L = library(r, **lib_kw)
    ev = histories(r, L, share=r.choice([.6, 1.0]), uniform=r.choice([.5, 1.0]))
    if r.random() < .7:
        ev += [{"op": "reopen"}, {"op": "scores"}]
    for _ in range(r.randint(*n)):
        if not L["exs"]:
            break
        if r.random() < .5:
            # nothing cached
            ev.append({"op": "invalp", "p": ""})
        ev.append(par_event(r, L, edits=True, opts=backend == "facade"))
        ev.append({"op": "scores"})
        if r.random() < .5:
            ev.append({"op": "batch", "f": {"t": "none"}})
    ev += [{"op": "scores"}, {"op": "batch", "f": {"t": "none"}}]
    return {"id": pid, "backend": backend, "pool": True, "opts": dict(POOL_OPTS), "lib": L, "ev": ev}


def conc_library():
    """Two lessons superseded by a third, and one behind a dependency."""
    L = {"courses": {"c0": {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": []}}, "lessons": {}, "exs": {}}
    for l, deps, sup in (("l0", [], []), ("l1", [], ["c0::l0", "c0::l3"]), ("l2", ["c0::l0"], []), ("l3", [], [])):
        l = "c0::" + l
        L["courses"]["c0"]["lessons"].append(l)
        L["lessons"][l] = {"course": "c0", "deps": deps, "sup": sup, "enc": [], "meta": {}, "exs": []}
        for k in range(2):
            L["exs"][f"{l}::e{k}"] = {"lesson": l, "type": "P"}
            L["lessons"][l]["exs"].append(f"{l}::e{k}")
    return L


def conc_replays(r, progs, ks, backend):
    """The programs of the model's threads as calls on the real code, each with a thread stopped at several points."""
    todo = [(p, k) for p in progs for k in ks(p)]
    r.shuffle(todo)
    out = []
    for i in range(0, len(todo), 8):
        L = conc_library()
        ev = []
        for l, g in (("c0::l0", 40), ("c0::l1", r.choice([40, 45, 50])), ("c0::l3", 30)):
            ev += [{"op": "rec", "ex": x, "ts": [[g, 50], [g, 100]]} for x in L["lessons"][l]["exs"]]
        for p, k in todo[i:i + 8]:
            r.shuffle(p)
            u = r.choice(["c0", "c0::l0", "c0::l1", "c0::l3", "c0::l0::e0"])
            ex = r.choice(["c0::l0", "c0::l1", "c0::l3"])
            call = lambda op, t: {"read": {"op": "read", "u": u}, "inval": {"op": "inval", "u": u},
                                  "score": {"op": "score", "ex": f"{ex}::e{t % 2}", "grade": r.randint(1, 5), "ago": 0},
                                  "edit": {"op": r.choice(["bl_add", "bl_rm"]), "u": r.choice([ex, ex + "::e0"])}}[op]
            th = [[call(op, t) if r.random() < .85 or op != "read" else {"op": "batch", "f": {"t": "none"}} for op in ops] for t, ops in enumerate(p)]
            if r.random() < .7:
                ev.append({"op": "invalp", "p": ""})
            ev.append({"op": "par", "mode": "pause", "k": k, "max": 12, "th": th})
            ev.append({"op": "scores"})
            if r.random() < .3:
                ev.append({"op": "batch", "f": {"t": "none"}})
        out.append({"id": f"conc{i}", "backend": backend, "pool": True, "opts": dict(POOL_OPTS) if backend == "parts" else {}, "lib": L, "ev": ev})
    return out


def cache_replay(r, pid, run):
    """A library, a student and a change of the model MCCache: every score is read before and after the change."""
    c = run["chg"]
    lv = c["lv"] if isinstance(c["lv"], dict) else {}
    L = {"courses": {}, "lessons": {}, "exs": {}}
    for x in sorted(lv):
        l, home = x[:4], x[0]
        sup = lambda u: [e[1] for e in run["s"] if e[0] == u]
        L["courses"].setdefault(home, {"deps": [], "sup": sup(home), "enc": [], "meta": {}, "lessons": []})["lessons"].append(l)
        L["lessons"][l] = {"course": home, "deps": [], "sup": sup(l), "enc": [], "meta": {}, "exs": [x]}
        L["exs"][x] = {"lesson": l, "type": "D"}
    ev = [{"op": "rec", "ex": x, "ts": [[], HIST["flat3"], MASTER][v]} for x, v in sorted(lv.items()) if v]
    ev += [{"op": "bl_add", "u": u} for u in c["bl"]]
    ev.append({"op": "scores"})
    kind, z, u = c["kind"], c["z"], c["us"][0]
    if kind == "practice" and z:
        ev += [{"op": "score", "ex": u, "grade": g, "ago": 0} for g in ([5, 5, 5, 5] if z == 2 else [1, 2] if lv[u] == 2 else [3])]
    elif kind == "practice":
        ev.append({"op": "st_rmp", "p": u})
    elif kind in ("block", "unblock"):
        ev.append({"op": "bl_add" if kind == "block" else "bl_rm", "u": u})
    elif kind == "clear":
        ev.append({"op": "bl_rmp", "p": ""})
    else:      # all the exercises of the unit change behind the scheduler's back, which is then told about the unit
        ev += [{"op": "rec", "ex": x, "ts": [[(10, 30, 50)[z], 0]] * 6} for x in sorted(lv) if x.startswith(u)]
        ev.append({"op": "inval", "u": u})
    ev.append({"op": "scores"})
    return {"id": pid, "backend": r.choice(["parts", "facade"]), "opts": {"sup": 4000}, "lib": L, "ev": ev}


def prefer_program(r, pid, why, steep=False):
    """Two groups of exercises in one mastery window, one of which is the better choice, asked of many fresh instances."""
    L = {"courses": {"c0": {"deps": [], "sup": [], "enc": [], "meta": {}, "lessons": []}}, "lessons": {}, "exs": {}}

    def lesson(i, n, deps=(), enc=()):
        l = f"c0::l{i}"
        L["courses"]["c0"]["lessons"].append(l)
        L["lessons"][l] = {"course": "c0", "deps": [f"c0::l{d}" for d in deps], "sup": [], "meta": {}, "exs": [f"{l}::e{k}" for k in range(n)],
                           "enc": [[f"c0::l{d}", 0] for d in deps] + [[f"c0::l{d}", 1000] for d in enc]}
        for x in L["lessons"][l]["exs"]:
            L["exs"][x] = {"lesson": l, "type": "D"}
        return list(L["lessons"][l]["exs"])
    k = 22
    run = lambda d, *gs, step=2: [[g, (d - step * i) * DAY + 7200] for i, g in enumerate(gs)]
    even = lambda d, g=30: run(d, g, g, g)
    d = r.choice([60, 100])
    base = [[50, d * DAY + 21600], [10, d * DAY]] if steep and why != "backwards" else even(d)     # grades that fell within hours, or stayed
    hist = {}
    if why == "deep":
        ls = [lesson(i, k if i in (0, 1, 12, 13) else 1, [i - 1] if i else []) for i in range(14)]
        good, rest = ls[12] + ls[13], ls[0] + ls[1]
    elif why in ("blocked", "untried"):       # by the score, or by the number of trials alone
        fill = [lesson(i, 60) for i in (0, 1)]
        good, rest = fill[0][:k] + fill[1][:k], lesson(2, k) + lesson(3, k)
        for x in fill[0][k:] + fill[1][k:]:
            hist[x] = []
    elif why == "covers":
        z = [lesson(i, 1) for i in range(10, 18)]
        good, rest = lesson(0, k, enc=range(10, 18)) + lesson(1, k, enc=range(10, 18)), lesson(2, k) + lesson(3, k)
    elif why == "covered":
        good, rest = lesson(0, k) + lesson(1, k), lesson(2, k) + lesson(3, k)
        z = [lesson(i, 1, enc=(2, 3)) for i in range(10, 20)]
    else:
        good, rest = lesson(0, k) + lesson(1, k), lesson(2, k) + lesson(3, k)
        for x in rest:
            hist[x] = {"urgent": even(8), "backwards": run(d // 2, 50, 30, 10), "forwards": run(24, 50, 30, 10, step=1), "moving": even(11, 48)}[why]
        for x in good:
            hist[x] = {"urgent": even(200), "forwards": run(250, 10, 30, 50, step=1), "moving": run(14, 35, 50, 50)}.get(why, base)
    ev = []
    for x in L["exs"]:
        h = hist.get(x, base)
        if h:
            ev += [[x, s, t] for s, t in h]
    ev = [{"op": "recs", "all": ev}]
    ev.append({"op": "batches", "n": 100, "fresh": True, "why": why, "good": good, "rest": rest, "f": {"t": "none"}})
    return {"id": pid, "backend": r.choice(["parts", "facade"]), "pool": False,
            "opts": {"batch": 22, "min_frac": 1000, "max_prog": 1000, "min_score": 600 if why == "blocked" else 100, "min_trials": 1500 if why == "untried" else 1000, "relearn": 0,
                     "cuts": [100, 200, 4990, 4995]}, "lib": L, "ev": ev}
