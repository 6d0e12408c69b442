"""What each check does: which models are checked, which programs are run on the real code, and which judgements of the
trace specifications decide the property."""
import json

from vlib import gen, gen_filters, gen_generators, gen_graph, gen_library, gen_options, gen_scorer, gen_stores

POOL = {"POOL_EXTRA", "POOL_MISSING"}
FPOOL = {"FPOOL_EXTRA", "FPOOL_MISSING"}
SCORES = {"EXSCORE", "USCORE", "USCORE_AFTER", "SUPSCORE", "RWSCORE", "RANGE", "SCORE_ERROR", "UNKNOWN_SCORE"}
FILTERS = ("course", "lesson", "meta", "review", "dependents", "deps")


def lib_kw(r, **over):
    kw = dict(dep=r.choice([.2, .35, .6]), cross=r.choice([0, .1, .25]), missing=r.choice([0, .1, .3]),
              courses=(1, r.choice([3, 4, 5])), lessons=(0, r.choice([2, 3])), exs=(0, r.choice([2, 3])))
    kw.update(over)
    return kw


def pools(c, salt, n, **kw):
    r = c.rng(salt)
    out = []
    for i in range(n):
        k = dict(kw)
        lk = lib_kw(r, **{a: (v(r) if callable(v) else v) for a, v in k.pop("lib", {}).items()})
        k["filters"] = k.get("filters", ("none",))
        out.append(gen.pool_program(r, f"{salt}{i}", lk, **k))
    return out


def walks(c, salt, n, **lib):
    r = c.rng(salt)
    return [gen.walk_program(r, f"{salt}{i}", lib_kw(r, exs=(1, 2), **lib)) for i in range(n)]


def sample_runs(r, mode, runs, n):
    if len(runs) <= n:
        return runs
    if mode != "filter":
        return r.sample(runs, n)

    def into_partial(x):   # a dependency on a course of which only lessons are selected
        x = json.loads(x)
        return any("::" not in v and v not in x["p"] and any(p.startswith(v + "::") for p in x["p"]) for _, v in x["e"])
    odd = [x for x in runs if into_partial(x)]
    half = r.sample(odd, min(len(odd), n // 2))
    return half + r.sample(runs, n - len(half))


def search_model(c, modes, n, tags, weak=()):
    """The search as a stack machine over all libraries of small shapes, and some of them on the real code."""
    r = c.rng("search")
    for mode in modes:
        sizes = [("2-1", 2), ("1-0-1", 3)] if mode == "plain" else [("1-1", 4)]
        if c.thorough:
            sizes = {"plain": [("2-1", 5), ("1-1-1", 3), ("4", 12), ("1-0-1", 5), ("2-0", 6)], "filter": [("2-1", 4), ("1-1-1", 2)],
                     "black": [("2-1", 3), ("1-1-1", 2)], "super": [("2-1", 3), ("1-1-1", 1)], "missing": [("2-1", 3), ("1-1-1", 1)]}[mode]
        for shape, edges in sizes:
            env = {"SHAPE": shape, "EDGES": str(edges), "MODE": mode, "WITHOUT": ""}
            c.mc("MCSearch", env=env, what=f"all libraries of shape {shape} with up to {edges} dependencies, {mode}")
        runs = c.behaviours("MCSearch", {"SHAPE": "2-1" if mode in ("plain", "filter") else "1-1", "EDGES": str(c.n(2, 3)), "MODE": mode, "WITHOUT": ""},
                            f"the libraries to be replayed, {mode}", cfg="MCSearchEmit")
        seen = sorted({json.dumps(x, sort_keys=True) for x in runs})
        picked = sample_runs(r, mode, seen, c.n(n, 12000))
        c.trace("world", [gen.search_replay(r, f"ms-{mode}{i}", json.loads(x)) for i, x in enumerate(picked)], "TraceWorld", tags,
                f"libraries and students of the model replayed, {mode}")
    for w in weak:
        c.refuted("MCSearch", {"SHAPE": "2-1", "EDGES": "2", "MODE": "plain", "WITHOUT": w}, f"without the rule {w!r}")


def trials(c, salt, n, tags, need):
    st = c.trace("world", many(c, salt, n, gen.trial_program, exs=(1, 3), lessons=(1, 3), courses=(2, 4), dep=lambda r: r.choice([.35, .6]),
                               sup=lambda r: r.choice([0, .1, .2])),
                 "TraceWorld", tags, "the number of trials decides what is mastered")
    c.need(st, pools=need)


def c01(c):
    search_model(c, ["plain", "missing"], 300, {"POOL_EXTRA"}, ["enter"])
    st = c.trace("world", pools(c, "gate", c.n(260, 4000), bl=.1, lib={"sup": lambda r: r.choice([0, 0, .1])}), "TraceWorld",
                 {"POOL_EXTRA", "PILE_MANY"}, "dependency-heavy libraries, no filter")
    c.need(st, pools_gated=100)
    st = c.trace("world", walks(c, "walk", c.n(60, 600)), "TraceWorld", {"POOL_EXTRA"}, "a student mastering a library lesson by lesson")
    c.need(st, pools_gated=50)
    trials(c, "trials", c.n(120, 2000), {"POOL_EXTRA"}, 200)


def c02(c):
    search_model(c, ["plain", "missing"], 300, {"POOL_MISSING", "EMPTY"}, ["return"])
    st = c.trace("world", walks(c, "walk", c.n(150, 2000)), "TraceWorld", {"POOL_MISSING", "EMPTY"},
                 "a student mastering a library lesson by lesson")
    c.need(st, pools_nonempty=200)
    st = c.trace("world", pools(c, "reach", c.n(200, 3000), bl=.15, lib={"sup": lambda r: r.choice([0, 0, .1])}), "TraceWorld",
                 {"POOL_MISSING", "EMPTY"}, "random histories and blacklists, no filter")
    c.need(st, pools_nonempty=200)
    r = c.rng("limit")
    st = c.trace("world", [gen.mix_program(r, f"limit{i}") for i in range(c.n(100, 1500))], "TraceWorld", {"MIX"},
                 "batches from pools below the limit on candidates")
    c.need(st, mixes=100)
    st = c.trace("world", [gen.fraction_program(r, f"frac{i}") for i in range(c.n(100, 1500))], "TraceWorld", {"POOL_MISSING", "FPOOL_MISSING", "SELECT_MANY", "EMPTY"},
                 "parts of lessons that just pass")
    c.need(st, pools=100)
    trials(c, "trials2", c.n(100, 2000), {"POOL_MISSING", "EMPTY"}, 200)


def c03(c):
    search_model(c, ["black"], 400, {"BLACKLISTED"} | POOL)
    st = c.trace("world", pools(c, "bl", c.n(300, 4000), bl=.45, rv=.1, fail=.15, events=(5, 10),
                                filters=("none", "none") + FILTERS + ("session",), lib={"meta": True}),
                 "TraceWorld", {"BLACKLISTED"} | POOL | FPOOL, "blacklist entries added and removed between batches of every kind")
    c.need(st, pools_blacklist=300)
    trials(c, "trials3", c.n(80, 1500), POOL | {"BLACKLISTED"}, 150)


def c04(c):
    search_model(c, ["filter"], 400, FPOOL | {"EMPTY"})
    for k in FILTERS + ("session",):
        st = c.trace("world", pools(c, "f-" + k, c.n(60, 900), bl=.1, rv=.4 if k == "review" else .05, events=(4, 7), filters=(k,),
                                    lib={"meta": True, "sup": lambda r: r.choice([0, 0, .1])}),
                     "TraceWorld", FPOOL | {"EMPTY"}, f"filter {k}")
        c.need(st, pools=100)


    r = c.rng("dense")
    st = c.trace("world", [gen.dense_program(r, f"dense{i}", ("meta", "meta", "deps", "dependents", "course")) for i in range(c.n(200, 3000))],
                 "TraceWorld", FPOOL | {"EMPTY"}, "many dependencies, filters that select half of the units")
    st = c.trace("world", [gen.bridge_program(r, f"bridge{i}") for i in range(c.n(200, 3000))], "TraceWorld", FPOOL | {"EMPTY"},
                 "courses left out by a filter between those it selects")
    c.need(st, pools=500)
    c.need(st, pools=500)


def c06(c):
    search_model(c, ["super"], 400, POOL)
    st = c.trace("world", pools(c, "sup", c.n(300, 4000), bl=.1, events=(5, 9), filters=("none", "none", "lesson", "dependents"),
                                lib={"sup": lambda r: r.choice([.15, .3, .5])}, extra=lambda r, L, u: [{"op": "scores"}]),
                 "TraceWorld", POOL | FPOOL | SCORES, "libraries with superseding units, histories crossing the thresholds")
    c.need(st, pools_superseded=100, superseded_units=50)
    trials(c, "trials6", c.n(80, 1500), POOL, 150)


def c08(c):
    r = c.rng("agg")
    progs = []
    for i in range(c.n(300, 4000)):
        L = gen.library(r, **lib_kw(r, sup=r.choice([0, 0, .15]), exs=(0, 4)))
        units = list(L["courses"]) + list(L["lessons"]) + list(L["exs"])
        ev = [{"op": "bl_add", "u": r.choice(units)} for _ in range(r.randint(0, 3))]
        ev += gen.histories(r, L, share=r.choice([.5, 1]), uniform=r.choice([0, .5, 1]))
        ev += [{"op": "reopen"}, {"op": "scores"}]
        for _ in range(r.randint(0, 2)):
            ev += [{"op": "bl_add", "u": r.choice(units)}, {"op": "reopen"}, {"op": "scores"}]
        o = {"num_trials": r.choice([1, 2, 3, 20]), "num_deltas": r.choice([1, 10])} if r.random() < .2 else {}
        progs.append({"id": f"agg{i}", "backend": r.choice(["parts", "facade"]), "opts": o, "lib": L, "ev": ev})
    st = c.trace("world", progs, "TraceWorld", SCORES - {"USCORE_AFTER"}, "scores of freshly opened instances")
    c.need(st, unit_scores=1000, ex_scores=1000)


def many(c, salt, n, f, **lib):
    r = c.rng(salt)
    return [f(r, f"{salt}{i}", lib_kw(r, **{a: (v(r) if callable(v) else v) for a, v in lib.items()})) for i in range(n)]


def c05(c):
    st = c.trace("world", many(c, "shape", c.n(300, 4000), gen.shape_program, meta=True, exs=(0, 5)), "TraceWorld",
                 {"DUP", "UNKNOWN_EX", "MANIFEST", "SIZE", "BATCH_ERROR", "EMPTY"}, "batches of every kind under all sorts of options")
    c.need(st, batches=800)
    st = c.trace("world", many(c, "lattice", c.n(12, 150), gen.lattice_program), "TraceWorld",
                 {"DUP", "UNKNOWN_EX", "MANIFEST", "SIZE", "BATCH_ERROR", "EMPTY"}, "batches of libraries with very many paths between few units", timeout=150)
    c.need(st, batches=40)


CACHE = POOL | FPOOL | SCORES | {"EMPTY"}


FORGETTING = ["lesson of exercise", "course of exercise", "course of lesson", "exercises of lesson", "lessons of course", "exercises of course",
              "origin up", "origin down", "course of superseded", "superseded", "superseded of superseded"]


def cache_model(c, n):
    """Which scores may be kept after a change: all small libraries, students and changes, and some of them on the real code."""
    r = c.rng("cachemodel")
    sizes = [("2-1", 2, 0), ("1-1", 2, 1)]
    if c.thorough:
        sizes = [("2-1", 2, 1), ("1-1", 4, 3), ("2-0", 3, 2), ("1-1-1", 2, 1), ("2-1", 3, 0)]
    runs = []
    for shape, edges, bl in sizes:
        runs += c.behaviours("MCCache", {"SHAPE": shape, "EDGES": str(edges), "BL": str(bl), "WITHOUT": ""},
                             f"every change in libraries of shape {shape} with up to {edges} superseding pairs", cfg="MCCacheEmit")
    seen = sorted({json.dumps(x, sort_keys=True) for x in runs})
    picked = r.sample(seen, min(len(seen), c.n(n, 12000)))
    st = c.trace("world", [gen.cache_replay(r, f"mk{i}", json.loads(x)) for i, x in enumerate(picked)], "TraceWorld", CACHE,
                 "changes of the model that reach beyond their unit, replayed")
    c.need(st, unit_scores=200)
    for w in FORGETTING if c.thorough else FORGETTING[7:10]:
        c.refuted("MCCache", {"SHAPE": "2-1", "EDGES": "2", "BL": "0", "WITHOUT": w}, f"without forgetting the {w!r}")


def c07(c):
    cache_model(c, 300)
    st = c.trace("world", many(c, "stress", c.n(220, 3000), gen.stress_program, exs=(1, 3), sup=lambda r: r.choice([0, .15, .3]),
                               enc=lambda r: r.choice([None, .2, .4])),
                 "TraceWorld", CACHE, "reads of all scores between mutations of every kind")
    c.need(st, unit_scores=1000)
    st = c.trace("world", many(c, "cpool", c.n(120, 2000), gen.cache_pool_program, exs=(1, 3), sup=lambda r: r.choice([0, .15, .3])),
                 "TraceWorld", CACHE, "pools between mutations of every kind")
    c.need(st, pools_nonempty=200)
    st = c.trace("world", many(c, "route", c.n(100, 2000), gen.route_program, courses=(1, 3), exs=(1, 3), sup=lambda r: r.choice([0, .15])),
                 "TraceWorld", CACHE, "records removed by every route that takes many units at once")
    c.need(st, unit_scores=1000)
    trials(c, "trials7", c.n(150, 3000), CACHE, 200)


REWARD = {"REWARD_EXTRA", "REWARD_VALUE", "REWARD_MISSING"}


def c19(c):
    st = c.trace("world", many(c, "prop", c.n(350, 5000), gen.reward_program, enc=lambda r: r.choice([.2, .4, .7]), courses=(1, 4),
                               lessons=(1, 3), exs=(1, 1), missing=lambda r: r.choice([0, .1])),
                 "TraceWorld", REWARD, "trials in libraries with encompassing relations")
    c.need(st, trials_rewarded=300, rewards=500)


def c20(c):
    r = c.rng("rewarded")
    st = c.trace("world", [gen.rewarded_program(r, f"rw{i}") for i in range(c.n(300, 4000))], "TraceWorld", {"RWSCORE", "RANGE", "EXSCORE"},
                 "scores over stored rewards")
    c.need(st, rewarded_scores=300, to_nothing=5)


def c24(c):
    st = c.trace("world", many(c, "pile", c.n(300, 4000), gen.pile_program, courses=(1, 3), lessons=(1, 3), exs=(1, 3)), "TraceWorld",
                 {"PILE_MISSING", "PILE_MANY", "POOL_EXTRA", "DUP", "SCORE_UNKNOWN", "SCORE_FAILED"}, "failed exercises over several batches")
    c.need(st, piles=300)
    r = c.rng("turns")
    st = c.trace("world", [gen.turns_program(r, f"turn{i}") for i in range(c.n(24, 200))], "TraceWorld", {"PILE_TURNS", "PILE_MISSING"},
                 "more failed exercises than there is room for")
    c.need(st, turns=10)


def c25(c):
    st = c.trace("world", [gen.stress_program(c.rng(f"so{i}"), f"so{i}", lib_kw(c.rng(f"sl{i}"), exs=(1, 3), sup=.15), setopts=.6)
                           for i in range(c.n(200, 3000))],
                 "TraceWorld", CACHE | {"OPTIONS", "SIZE", "PILE_MISSING", "PILE_MANY"}, "options set between reads")
    c.need(st, unit_scores=1000)
    trials(c, "trials25", c.n(100, 2000), CACHE | {"OPTIONS"}, 200)
    r = c.rng("counts25")
    st = c.trace("world", [gen.rewarded_program(r, f"cn{i}", setopts=True) for i in range(c.n(100, 2000))], "TraceWorld", CACHE | {"OPTIONS", "RWSCORE"},
                 "how many trials, rewards and deltas count")
    c.need(st, rewarded_scores=200)
    r = c.rng("verify")
    st = c.trace("options", gen_options.verify_programs(r, c.n(3000, 60000)), "TraceOptions", {"VALIDATION"},
                 "options at and around every limit")
    c.need(st, valid=500, invalid=500)
    st = c.trace("options", [gen_options.prefs_program(r, f"pf{i}") for i in range(c.n(400, 5000))], "TraceOptions",
                 {"PREFS_OPEN", "OPTIONS", "PREFS"}, "libraries opened with preferences files of every kind")
    c.need(st, opened=300, not_opened=100, overridden=100)


def c26(c):
    st = c.trace("world", many(c, "prog", c.n(300, 4000), gen.progress_program, courses=(1, 5), lessons=(1, 3), exs=(0, 3), meta=True,
                               dep=lambda r: r.choice([0, .1, .3])),
                 "TraceWorld", {"PROGRESS_MANY", "PROGRESS_FEW", "EMPTY"} | POOL | FPOOL, "limits on lessons in progress")
    c.need(st, pools_limited=100)


def c27(c):
    r = c.rng("mix")
    st = c.trace("world", [gen.mix_program(r, f"mix{i}") for i in range(c.n(300, 4000))], "TraceWorld", {"MIX", "SIZE", "DUP"},
                 "the number of exercises from each mastery window")
    c.need(st, mixes=400)
    st = c.trace("world", [gen.even_program(r, f"even{i}") for i in range(c.n(16, 100))], "TraceWorld", {"EVEN"},
                 "exercises nothing tells apart, asked for again and again")
    c.need(st, evens=16)


PREFERENCES = ("deep", "blocked", "untried", "covers", "covered", "urgent", "backwards", "forwards", "moving")


def c33(c):
    r = c.rng("prefer")
    st = c.trace("world", [gen.prefer_program(r, f"{why}{i}", why, steep=i % 2 == 1) for i in range(c.n(2, 12)) for why in PREFERENCES], "TraceWorld", {"PREFERRED"},
                 "two groups of exercises, one of which is the better choice, asked of many fresh instances")
    c.need(st, prefers=17, **{f"prefers_{why}": 1 for why in PREFERENCES})


def c31(c):
    r = c.rng("cover")
    st = c.trace("world", [gen.cover_program(r, f"cover{i}") for i in range(c.n(300, 4000))], "TraceWorld",
                 {"COVERED", "POOL_MISSING", "FPOOL_MISSING", "MIX", "EMPTY"}, "well known exercises that many others cover")
    c.need(st, pools_covered=60, coverable=30, mixes=100, mixes_covered=20)


def c32(c):
    c.mc("MCArrange", what="what can be put down group after group is exactly what the judgement of an order accepts")
    for m in ("four", "split"):
        c.refuted("MCArrange", {"MUTANT": m}, f"with groups put down otherwise ({m})")
    r = c.rng("arranged")
    tags = {"ARRANGED", "UNVARIED", "NEW_LATER"}
    st = c.trace("world", [gen.arranged_program(r, f"arr{i}") for i in range(c.n(250, 4000))], "TraceWorld", tags, "the order of batches of weak and strong exercises")
    st2 = c.trace("world", [gen.order_program(r, f"ord{i}") for i in range(c.n(32, 400))], "TraceWorld", tags, "the orders of the same batch asked for many times")
    c.need(st, arranged=150)
    c.need(st2, orders=28, orders_split=3, orders_biased=24)


def c15(c):
    r = c.rng("graph")
    st = c.trace("graph", [gen_graph.random_graph(r, f"g{i}", conflict=0 if i % 3 else .7) for i in range(c.n(1500, 15000))], "TraceGraph",
                 {"QUERY", "SINKS", "DECLARE", "DOT"}, "declarations in any order, then every query")
    c.need(st, graphs=1000, rejected=100)


def c16(c):
    r = c.rng("cyc")
    progs = []
    for rel in ("deps", "sup", "enc"):
        for k in ("ccc", "lll", "clc"):
            progs += [gen_graph.relation_program(r, f"{rel}3{k}{i}", 3, e, rel, k) for i, e in enumerate(gen_graph.all_digraphs(3))]
        four = list(enumerate(gen_graph.all_digraphs(4)))
        for i, e in (four if c.thorough else r.sample(four, 700)):
            progs.append(gen_graph.relation_program(r, f"{rel}4{i}", 4, e, rel, r.choice(["cccc", "llll", "clcl"])))
    progs += gen_graph.containment_programs(r, c.n(1400, 100000))
    progs += [gen_graph.random_graph(r, f"r{i}", acyclic=i % 2 == 0) for i in range(c.n(300, 5000))]
    st = c.trace("graph", progs, "TraceGraph", {"CYCLE", "DECLARE"}, "cycle checks over all small relations")
    c.need(st, graphs=1000, cyclic=500)
    st = c.trace("library", libraries(c, "cyclib", c.n(300, 3000), [None, "cycle"]), "TraceLibrary", {"ACCEPTED", "REJECTED"},
                 "libraries with and without cycles opened from disk")
    c.need(st, rejected=50)


BROKEN = ["dup", "parse", "field", "badtype", "empty", "missing", "mismatch", "weight", "self", "cycle"]


def libraries(c, salt, n, kinds):
    r = c.rng(salt)
    return [gen_library.library_program(r, f"{salt}{i}", kinds[i % len(kinds)]) for i in range(n)]


def c17(c):
    st = c.trace("library", libraries(c, "lib", c.n(1400, 12000), [None] * len(BROKEN) + BROKEN), "TraceLibrary",
                 {"LOADED", "REJECTED", "ACCEPTED", "FILES", "GRAPH"}, "directories opened as libraries, well formed and not")
    c.need(st, libraries=500, units=1000, rejected=100, ignored=50)


def c18(c):
    st = c.trace("library", libraries(c, "ser", c.n(700, 8000), [None]), "TraceLibrary", {"SERIALIZED"},
                 "all library and graph queries after a round trip through the serialized form")
    c.need(st, libraries=300, units=1000)
    progs = pools(c, "serp", c.n(100, 1500), bl=.1, filters=("none", "none") + FILTERS,
                  lib={"meta": True, "sup": lambda r: r.choice([0, .1])}, extra=lambda r, L, u: [{"op": "scores"}])
    progs += many(c, "serr", c.n(60, 800), gen.reward_program, enc=lambda r: r.choice([None, .2, .4]), exs=(1, 1), lessons=(1, 3))
    for p in progs:
        p["serialized"] = True
    st = c.trace("world", progs, "TraceWorld", POOL | FPOOL | SCORES | REWARD | {"EMPTY", "MANIFEST", "UNKNOWN_EX"},
                 "practice, scores and pools in an instance opened from the serialized form")
    c.need(st, pools_nonempty=100, unit_scores=300)


def c29(c):
    st = c.trace("library", libraries(c, "list", c.n(1200, 10000), [None]), "TraceLibrary", {"LISTING"},
                 "listings, manifests and prefix searches of loaded libraries")
    c.need(st, libraries=500, units=1000)


def c21(c):
    c.mc("MCFilters", what="the part in force, for all sessions of up to four short parts")
    r = c.rng("parts")
    st = c.trace("filters", gen_filters.part_programs(r, c.n(150, 3000)), "TraceFilters", {"PART"},
                 "the part of a session at every boundary, for all short sessions and random long ones")
    c.need(st, moments=3000)
    progs = [gen_filters.saved_program(r, f"saved{i}", gen.library(r, meta=True)) for i in range(c.n(400, 5000))]
    st = c.trace("filters", progs, "TraceFilters", {"SAVED_OPEN", "LISTED", "FETCHED"}, "directories of saved filters and sessions")
    c.need(st, saved=300, saved_rejected=20)
    st = c.trace("world", many(c, "sess", c.n(250, 4000), gen.session_program, meta=True), "TraceWorld",
                 FPOOL | POOL | {"SESSION_MISSING", "SESSION_EFFECT", "BATCH_ERROR", "PILE_MISSING", "PILE_MANY", "EMPTY"},
                 "batches of study sessions, some naming filters that are not saved")
    c.need(st, failed_batches=50, pools_nonempty=200)


def c22(c):
    c.mc("MCFilters", what="all metadata filters of depth two: a selected course has only selected lessons")
    r = c.rng("kv")
    st = c.trace("filters", gen_filters.kv_programs(r, c.n(1500, 40000)), "TraceFilters", {"KVCOURSE", "KVLESSON"},
                 "all metadata filters of up to two conditions and random nested ones, over all kinds of metadata")
    c.need(st, filters=8000)
    st = c.trace("world", pools(c, "kvpool", c.n(150, 2500), filters=("meta",), events=(2, 4), lib={"meta": True}), "TraceWorld", FPOOL,
                 "batches with metadata filters")
    c.need(st, pools_nonempty=100)


def replayed(c, kind, depth):
    runs = c.behaviours("MCStores", {"KIND": kind, "DEPTH": str(depth)}, f"every sequence of {depth} operations on {kind}")
    return [gen_stores.replay(i, kind, ops) for i, ops in enumerate(runs)]


def stores(c, kinds, tags, quick, thorough):
    r = c.rng("stores" + "".join(kinds))
    for k in kinds:
        runs = replayed(c, k, 3 if not c.thorough else 4)
        if len(runs) > c.n(1200, 25000):
            runs = r.sample(runs, c.n(1200, 25000))
        c.trace("stores", runs, "TraceStores", tags, f"behaviours of the model of {k} replayed")
    return c.trace("stores", [gen_stores.store_program(r, f"st{i}", kinds, rewards_many=i % 4 == 0) for i in range(c.n(quick, thorough))],
                   "TraceStores", tags, "random operations")


def c10(c):
    st = stores(c, ["stats", "deltas"], {"STATS", "DELTAS", "SCORED"}, 250, 4000)
    c.need(st, reads=100, trims=50, prefixes=50)
    r = c.rng("scoring")
    st = c.trace("stores", [gen_stores.scoring_program(r, f"sc{i}", gen.library(r, **lib_kw(r, exs=(1, 3), lessons=(1, 2), courses=(1, 3))))
                            for i in range(c.n(150, 2500))],
                 "TraceStores", {"STATS", "DELTAS", "SCORED"}, "exercises scored through the scheduler among other operations")
    c.need(st, scored=300, deltas_scored=100)


def c11(c):
    st = stores(c, ["rewards"], {"REWARDS"}, 500, 6000)
    c.need(st, refused=100, capped=50, trims=50, prefixes=50)


def c12(c):
    st = stores(c, ["bl", "rv"], {"BLACKLIST", "REVIEW"}, 300, 4000)
    c.need(st, prefixes=50)


def injected(c, kind, n, tags):
    r = c.rng(kind)
    progs = [gen_stores.inject_program(r, f"{kind}{i}", kind) for i in range(n)]
    progs += [gen_stores.inject_program(r, f"{kind}s{i}", kind, gen.library(r, **lib_kw(r, exs=(1, 2), lessons=(1, 2), courses=(1, 3), enc=.4)))
              for i in range(n)]
    for p in progs:
        if c.thorough:
            p["limit"] = 100000
    return c.trace("stores", progs, "TraceStores", tags, f"operations with {kind} at every write")


STORES = {"STATS", "DELTAS", "SCORED", "REWARDS", "BLACKLIST", "REVIEW", "PREFS"}


def c13(c):
    st = injected(c, "faults", c.n(60, 800), STORES | {"FAULT", "FAULT_STORED", "FAULT_SCORES", "FAULT_PILE"})
    c.need(st, faults=1000, faults_failed=300)


def c14(c):
    st = injected(c, "crash", c.n(90, 800), STORES | {"CRASH"})
    c.need(st, crashes=1000)


PAR = {"HANG", "PAR_PANIC", "PAR_ERROR", "PAR_LIST", "PAR_TRIALS", "PAR_DELTAS", "PAR_RATE", "PAR_BATCH", "PAR_READ"}


def c23(c):
    both = {"LOCKED": "1", "RECURSIVE": "1"}
    c.mc("MCConc", env=dict(both, NTHREADS="3", LENGTH=str(c.n(1, 2))), what="three threads sharing an instance")
    small = {"NTHREADS": "2", "LENGTH": "1"}
    c.refuted("MCConc", dict(small, LOCKED="0", RECURSIVE="1"), "if calls of the scheduler do not exclude each other")
    c.refuted("MCConc", dict(small, LOCKED="1", RECURSIVE="0"), "if the blacklist is read twice behind a waiting writer")
    progs = c.behaviours("MCConc", dict(both, NTHREADS="2", LENGTH="2"), "two threads making two calls each")
    r = c.rng("conc")
    for backend, n in (("parts", 60), ("facade", 40)):
        ks = (lambda p: range(1, n, 2)) if c.thorough else (lambda p: [r.randint(1, n)])
        c.trace("world", gen.conc_replays(r, progs, ks, backend), "TraceWorld", PAR | CACHE | {"PILE_MISSING", "PILE_MANY"},
                f"threads of the model, stopped at a point of the {backend}")
    ps = many(c, "par", c.n(150, 2000), gen.par_program, exs=(1, 3), courses=(1, 3), sup=lambda r: r.choice([0, .15]), enc=lambda r: r.choice([None, .4]))
    ps += [dict(gen.par_program(c.rng(f"pf{i}"), f"pf{i}", lib_kw(c.rng(f"pfl{i}"), exs=(1, 3), courses=(1, 3), sup=.1, enc=.3), backend="facade"), opts={})
           for i in range(c.n(100, 1500))]
    st = c.trace("world", ps, "TraceWorld", PAR | CACHE | {"PILE_MISSING", "PILE_MANY"}, "threads sharing an instance")
    c.need(st, pars=200, paused=20, par_batches=30, par_trials=100, unit_scores=1000)


LAWS = {"WAIT", "FLOOR", "MEAN", "GRADE", "STREAK", "TYPE", "SHIFT", "DELTA", "TREND", "EMPTY", "ORDER", "RANGE"}


def c09(c):
    r = c.rng("scorer")
    hs = c.behaviours("MCScorer", {"DEPTH": str(c.n(3, 4))}, "all short histories of one exercise")
    if len(hs) > c.n(1500, 20000):
        hs = [h for h in hs if len(h) < 3] + r.sample([h for h in hs if len(h) >= 3], c.n(1300, 20000))
    c.trace("scorer", gen_scorer.replays(r, hs), "TraceScorer", LAWS, "short histories of the model evaluated")
    st = c.trace("scorer", gen_scorer.programs(r, c.n(120, 2500)), "TraceScorer", LAWS, "random histories evaluated")
    c.need(st, wait=1000, grade=1000, streak=200, type=100, shift=1000, delta=1000, trend=100, unsorted=300, floors=100, cram=200, grow=30, fade=20)


def c28(c):
    r = c.rng("gen")
    progs = [gen_generators.generator_program(r, f"g{i}") for i in range(c.n(500, 8000))]
    progs += [gen_generators.generator_program(r, f"b{i}", gen_generators.BAD[i % len(gen_generators.BAD)]) for i in range(c.n(150, 2000))]
    st = c.trace("library", progs, "TraceLibrary", {"LOADED", "REJECTED", "ACCEPTED", "FILES", "GRAPH", "LISTING", "SERIALIZED", "AGAIN"},
                 "libraries with generated courses of every kind")
    c.need(st, libraries=500, generated=1500, units=4000, rejected=50)


def c30(c):
    r = c.rng("build")
    progs = []
    for kind, bads in (("plain", (None, None, None, "missing", "clash", "same")), ("kb", (None, None, None, "clash", "again", "same")), ("simple", (None, None, "clash", "again"))):
        progs += [gen_generators.builder_program(r, f"{kind}{i}", kind, bads[i % len(bads)]) for i in range(c.n(250, 3000))]
    st = c.trace("library", progs, "TraceLibrary", {"BUILT", "LOADED", "REJECTED", "ACCEPTED", "GRAPH", "LISTING"},
                 "courses written by the builders and opened")
    c.need(st, libraries=500, units=2000, generated=300, not_built=80, files=2000)


CHECKS = {"C28": c28, "C30": c30, "C23": c23, "C09": c09, "C13": c13, "C14": c14, "C10": c10, "C11": c11, "C12": c12, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C21": c21, "C22": c22, "C29": c29, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C19": c19, "C20": c20,
          "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C31": c31, "C32": c32, "C33": c33}

TECH_TRACE = "TLA+ specification checked with TLC; traces of the real code validated against it"
TECHNIQUE = {}
MODELS = {"C32": ["MCArrange"], "C01": ["MCSearch"], "C02": ["MCSearch"], "C03": ["MCSearch"], "C04": ["MCSearch"], "C06": ["MCSearch"], "C23": ["MCConc"], "C07": ["MCCache"], "C09": ["MCScorer"], "C21": ["MCFilters"], "C22": ["MCFilters"], "C10": ["MCStores"], "C11": ["MCStores"], "C12": ["MCStores"]}
NOTES = {}
NOT_APPLICABLE = {}
