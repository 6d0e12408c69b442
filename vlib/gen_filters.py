"""Programs about metadata filters, study sessions, and saved filters and sessions."""
import itertools

from vlib import gen

METAS = [{"__none": []}, {}, {"g": []}, {"g": ["a"]}, {"g": ["c", "a", "b"]}, {"k": ["a"]}, {"g": ["b", "A"], "k": ["a", "b", " a"]}, {"G": ["A"]}]
LEAVES = [{"t": t, "k": k, "v": v, "inc": i} for t in "cl" for k in ("g", "k") for v in ("a", "b") for i in (True, False)]


def comb(t, *fs):
    return {"t": t, "fs": list(fs)}


def all_flat():
    """All conditions, and all combinations of up to two of them."""
    out = list(LEAVES)
    for t in ("all", "any"):
        out.append(comb(t))
        out += [comb(t, a) for a in LEAVES]
        out += [comb(t, a, b) for a, b in itertools.product(LEAVES, LEAVES)]
    return out


def random_filter(r, depth):
    if depth == 0 or r.random() < .3:
        return r.choice(LEAVES)
    return comb(r.choice(["all", "any"]), *[random_filter(r, depth - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 3]))])


def kv_programs(r, n_nested):
    flat = all_flat()
    out = []
    for i, c in enumerate(METAS):
        fs = flat + [random_filter(r, r.choice([2, 3, 3, 4])) for _ in range(n_nested)]
        for j in range(0, len(fs), 150):
            out.append({"id": f"kv{i}-{j}", "kind": "kv", "course": c, "lessons": METAS, "fs": fs[j:j + 150]})
    return out


def part_programs(r, n):
    out = []
    durs = [d for k in range(4) for d in itertools.product((0, 1, 2), repeat=k)]
    for k in range(n):
        durs.append([r.choice([0, 1, 2, 5, 15, 30, 60, 600, 2**31, 2**32 - 1, 2**32 - 10]) for _ in range(r.randint(1, 5))])
    for i, ds in enumerate(durs):
        parts = []
        for j, d in enumerate(ds):
            k = r.choice(["none", "unit", "saved"])
            parts.append({"k": "unit", "dur": d, "f": {"t": "lesson", "ids": [f"l{j}"]}} if k == "unit"
                         else {"k": "saved", "dur": d, "id": f"s{j}"} if k == "saved" else {"k": "none", "dur": d})
        total = min(sum(ds), 5000)
        mins = {0, 1, 2, 3, 4, 5, 6, 7, total, total - 1, total + 1, 1000, 100_000_000, -1, -5, r.randint(0, total + 2)}
        s = 0
        for d in ds:
            s += d
            mins |= {m for m in (s - 1, s, s + 1) if abs(m) < 10**9}
        at = sorted({60_000 * m + x for m in mins for x in (0, 1, 30_000, 59_999)})
        out.append({"id": f"part{i}", "kind": "part", "parts": parts, "at": at})
    return out


def saved_program(r, pid, L):
    names = ["a", "b", "B", "a b", "ab", "é", "10", "9", "filter", "_x"]
    files = []
    bad = r.random() < .3
    for where in ("filters", "study_sessions"):
        ids = r.sample(names, r.randint(0, 6))
        if bad and r.random() < .5 and ids:
            ids.append(r.choice(ids))
        for j, u in enumerate(ids):
            # names of files and identifiers need not agree
            f = {"where": where, "name": r.choice([f"{j}.json", f"z{9 - j}.json", f"{j}"]), "id": u, "desc": r.choice(["", "about it", f"desc {j}"])}
            while any(g["where"] == where and g["name"] == f["name"] for g in files):
                f["name"] += "x"
            if where == "filters":
                f["f"] = gen.unit_filter(r, L, ("course", "lesson", "meta", "review", "dependents", "deps"))
            else:
                f["parts"] = gen.session(r, L, [{"id": "a"}])["parts"] if r.random() < .8 else []
            if bad and r.random() < .15:
                f["ok"] = False
                f["text"] = r.choice(["", "{}", "not json", '{"id": "x"' ])
            files.append(f)
    return {"id": pid, "kind": "saved", "files": files, "univ": sorted(names + ["gone"], key=lambda s: s.encode())}
