"""Programs about options and preferences."""
import copy
import json

DEFAULT = {"batch": 50, "relearn": 100, "min_score": 3000, "min_trials": 1800, "min_frac": 500, "max_prog": 10,
           "win": [[200, 0, 100], [200, 100, 2500], [300, 2500, 3750], [200, 3750, 4500], [100, 4500, 5000]]}
EDGES = {"batch": [0, 1, 50, 1000], "relearn": [-1, -100, 0, 1, 999, 1000, 1001, 2000], "min_score": [-1, 0, 1, 2999, 3999, 4000, 4001, 5000],
         "min_trials": [-1000, 0, 999, 1000, 1001, 5000], "min_frac": [-1, 0, 1, 500, 999, 1000, 1001], "max_prog": [0, 1, 10]}


def dyadic(r):
    """Shares that add up to exactly one in binary."""
    cut = sorted(r.choice(range(0, 1001, 125)) for _ in range(4))
    return [b - a for a, b in zip([0] + cut, cut + [1000])]


def random_options(r, spoil):
    o = copy.deepcopy(DEFAULT)
    for k, vs in EDGES.items():
        if r.random() < .4:
            ok = {"batch": lambda v: v > 0, "relearn": lambda v: 0 <= v <= 1000, "min_score": lambda v: 0 <= v < 4000,
                  "min_trials": lambda v: v >= 1000, "min_frac": lambda v: 0 <= v <= 1000, "max_prog": lambda v: v > 0}[k]
            o[k] = r.choice([v for v in vs if ok(v)])
    if r.random() < .6:
        for w, p in zip(o["win"], dyadic(r)):
            w[0] = p
    if r.random() < .6:
        cuts = [0] + sorted(r.sample(range(1, 5000), 4)) + [5000]
        for i in range(5):
            o["win"][i][1:] = cuts[i:i + 2]
    for _ in range(spoil):
        x = r.random()
        if x < .5:
            k = r.choice(list(EDGES))
            o[k] = r.choice(EDGES[k])
        elif x < .7:
            o["win"][r.randrange(5)][0] += r.choice([-1, 1, 10, 125])
        else:
            o["win"][r.randrange(5)][r.choice([1, 2])] += r.choice([-1, 1, 100])
    return o


def verify_programs(r, n):
    fixed = [DEFAULT]
    for k, vs in EDGES.items():
        fixed += [dict(copy.deepcopy(DEFAULT), **{k: v}) for v in vs]
    for w in range(5):
        for j in range(3):
            for d in (-100, -1, 1, 100):
                o = copy.deepcopy(DEFAULT)
                o["win"][w][j] += d
                fixed.append(o)
                if j == 0:      # moved to another window: still adds up, up to rounding, when in eighths
                    for w2 in range(5):
                        if w2 != w:
                            q = copy.deepcopy(DEFAULT)
                            for x, p in zip(q["win"], [250, 125, 250, 125, 250]):
                                x[0] = p
                            q["win"][w][0] += 125
                            q["win"][w2][0] -= 125
                            fixed.append(q)
    fixed += [random_options(r, r.choice([0, 0, 1, 1, 2])) for _ in range(n)]
    return [{"id": f"verify{i}", "kind": "verify", "ev": fixed[i:i + 100]} for i in range(0, len(fixed), 100)]


VALUES = [({}, -1), ({"scheduler": {}}, -1), ({"scheduler": {"batch_size": 1}}, 1), ({"scheduler": {"batch_size": 0}}, 0),
          ({"scheduler": {"batch_size": 50}}, 50), ({"scheduler": {"batch_size": 51}}, 51), ({"scheduler": {"batch_size": 100000}}, 100000),
          ({"ignored_paths": ["a", "b/c"]}, -1), ({"ignored_paths": ["é\n\"x\\"], "scheduler": {"batch_size": 7}}, 7),
          ({"transcription": {"instruments": [{"name": "Bass", "id": "b"}, {"name": "Guitar", "id": "g"}], "download_path": "/d",
                              "download_path_alias": "D:"}, "scheduler": {"batch_size": 9}, "ignored_paths": []}, 9),
          ({"transcription": {}}, -1)]
BROKEN = ["", "{", "7", "null", "nope", '{"scheduler": 3}', '{"scheduler": {"batch_size": -1}}', '{"scheduler": {"batch_size": "7"}}',
          '{"scheduler": {"batch_size": 1.5}}', '{"ignored_paths": "a"}', '{"ignored_paths": [1]}', '{"transcription": 1}', "{} {}"]


def text(r, v):
    if r.random() < .3:
        v = dict({"unknown": [1]}, **v)
    if r.random() < .3 and "scheduler" not in v:
        v = dict(v, scheduler=None)
    return json.dumps(v, indent=r.choice([None, 2]), ensure_ascii=r.random() < .5) + r.choice(["", "\n"])


def prefs_program(r, pid):
    values = [VALUES[0]] + r.sample(VALUES[1:], 5)
    n = len(values)
    ev = []
    for _ in range(r.randint(4, 12)):
        x = r.random()
        if x < .25:
            v = r.randint(1, n)
            # An absent scheduler section and an empty one are different values.
            ev.append({"op": "file", "v": v, "text": text(r, values[v - 1][0])})
        elif x < .33:
            ev.append({"op": "file", "v": -1, "text": r.choice(BROKEN)})
        elif x < .38:
            ev.append({"op": "nofile"})
        elif x < .65:
            ev.append({"op": "open"})
        elif x < .83:
            ev.append({"op": "set", "v": r.randint(1, n)})
        elif x < .9:
            ev.append({"op": "reset"})
        else:
            ev.append({"op": "setopts", "o": random_options(r, 0)})
    ev.append({"op": "open"})
    return {"id": pid, "kind": "prefs", "values": [v for v, _ in values], "batch": [b for _, b in values], "ev": ev}
