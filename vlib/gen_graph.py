"""Programs of declarations to the unit graph."""
import itertools
import random


def build(r, courses, lessons, exs):
    """The declarations of units, in an order in which parents come first."""
    cs = [f"c{i}" for i in range(courses)]
    ls = [f"l{i}" for i in range(lessons)]
    es = [f"e{i}" for i in range(exs)]
    ops = [{"op": "course", "u": c} for c in cs]
    ops += [{"op": "lesson", "u": l, "p": r.choice(cs)} for l in ls] if cs else []
    ops += [{"op": "exercise", "u": e, "p": r.choice(ls)} for e in es] if ls and cs else []
    return cs, ls, es, ops


def random_graph(r, pid, conflict=0.0, acyclic=None):
    cs, ls, es, ops = build(r, r.randint(1, 4), r.randint(0, 5), r.randint(0, 4))
    r.shuffle(ops)
    kind = {"course": 0, "lesson": 1, "exercise": 2}
    ops.sort(key=lambda o: kind[o["op"]])
    if not cs:
        ls = []
    if not ls:
        es = []
    units = cs + ls
    univ = units + es + ["g0", "g1"]
    rels = []
    p = r.choice([.1, .2, .3])
    order = list(units)
    r.shuffle(order)
    pos = {u: i for i, u in enumerate(order)}
    for u in units:
        cand = [v for v in units if v != u and (not acyclic or pos[v] < pos[u])]
        deps = [v for v in cand if r.random() < p] + [g for g in ("g0", "g1") if r.random() < .1]
        enc = [[v, r.choice([0, 250, 500, 1000])] for v in cand if r.random() < r.choice([0, 0, .2])]
        if r.random() < .8:
            rels.append({"op": "rel", "u": u, "deps": deps, "enc": enc})
        else:       # in two steps
            rels.append({"op": "rel", "u": u, "deps": deps[:1], "enc": []})
            rels.append({"op": "rel", "u": u, "deps": deps[1:], "enc": enc})
        sup = [v for v in cand + ["g0"] if r.random() < r.choice([0, .15])]
        if sup:
            k = r.randint(1, len(sup)) if r.random() < .4 else len(sup)
            rels.append({"op": "sup", "u": u, "sup": sup[:k]})
            if sup[k:] or r.random() < .1:
                rels.append({"op": "sup", "u": u, "sup": sup[k:]})
    r.shuffle(rels)
    ops += rels
    if r.random() < conflict:
        for _ in range(r.randint(1, 4)):
            u, v = r.choice(univ), r.choice(univ)
            bad = r.choice([{"op": "course", "u": u}, {"op": "lesson", "u": u, "p": v}, {"op": "exercise", "u": u, "p": v},
                            {"op": "rel", "u": u, "deps": [v], "enc": []}, {"op": "rel", "u": u, "deps": [u], "enc": []},
                            {"op": "enc", "u": u, "enc": [[v, r.choice([-1, 1001, 5000, -1000000])]]}])
            ops.insert(r.randint(0, len(ops)), bad)
        # a declaration of relations may have become invalid for a unit that comes later: fine, it is judged too
    if all(not o.get("enc") for o in ops) or r.random() < .1:
        ops.append({"op": "eq"})
    complete = conflict == 0
    return {"id": pid, "univ": univ, "ops": ops, "finish": 1 if complete else 0}


def all_digraphs(n):
    edges = [(a, b) for a in range(n) for b in range(n) if a != b]
    for bits in range(1 << len(edges)):
        yield [e for i, e in enumerate(edges) if bits >> i & 1]


def relation_program(r, pid, n, edges, relation, kinds):
    """One relation over n units of the given kinds."""
    cs = ["c0"]
    names = []
    ops = [{"op": "course", "u": "c0"}]
    for i in range(n):
        if kinds[i] == "c":
            names.append(f"x{i}")
            ops.append({"op": "course", "u": f"x{i}"})
        else:
            names.append(f"y{i}")
            ops.append({"op": "lesson", "u": f"y{i}", "p": "c0"})
    rels = []
    by = {}
    for a, b in edges:
        by.setdefault(a, []).append(b)
    for a in range(n):
        vs = [names[b] for b in by.get(a, [])]
        r.shuffle(vs)
        if relation == "deps":
            rels.append({"op": "rel", "u": names[a], "deps": vs, "enc": []})
        elif relation == "enc":
            rels.append({"op": "rel", "u": names[a], "deps": [], "enc": [[v, r.choice([0, 500, 1000])] for v in vs]})
        elif vs:
            rels.append({"op": "sup", "u": names[a], "sup": vs})
    r.shuffle(rels)
    ops += rels
    if relation == "deps":
        ops.append({"op": "eq"})
    return {"id": pid, "univ": cs + names, "ops": ops, "finish": 1 if relation == "deps" else 0}


def containment_programs(r, limit):
    """Superseding among two courses and their lessons."""
    units = ["c0", "c1", "l0", "l1", "l2"]
    base = [{"op": "course", "u": "c0"}, {"op": "course", "u": "c1"}, {"op": "lesson", "u": "l0", "p": "c0"},
            {"op": "lesson", "u": "l1", "p": "c0"}, {"op": "lesson", "u": "l2", "p": "c1"}]
    edges = [(a, b) for a in units for b in units if a != b]
    out = []
    for k in range(0, 4):
        for es in itertools.combinations(edges, k):
            ops = list(base)
            for u in units:
                vs = [b for a, b in es if a == u]
                if vs:
                    ops.append({"op": "sup", "u": u, "sup": vs})
            out.append({"id": f"cont{len(out)}", "univ": units, "ops": ops, "finish": 0})
    if len(out) > limit:
        out = r.sample(out, limit)
    return out
