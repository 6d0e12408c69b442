"""Families of evaluations of the scorer. A history is a list of [grade, time], newest first."""
DAY = 86400
WAITS = [0, 1, 60, 3600, DAY // 2, DAY - 1, DAY, DAY + 1, 2 * DAY, 5 * DAY, 12 * DAY, 30 * DAY, 49 * DAY, 50 * DAY - 1, 50 * DAY,
         50 * DAY + 1, 60 * DAY, 100 * DAY, 365 * DAY, 1000 * DAY, 5000 * DAY]
BIG = ["0", "1700000000", "-1700000000", "9223372036854775807", "-9223372036854775808", "9000000000000000000"]


def case(ty, h, ds, now, base=None):
    c = {"type": ty, "trials": h, "deltas": ds, "now": now}
    if base is not None:
        c["base"] = base
    return c


def history(r, n=None, grades=(1, 2, 3, 4, 5)):
    n = n or r.choice([1, 2, 2, 3, 4, 6, 10, 20])
    mode = r.choice([[0], [0, 1, 60], [3600, 7200], [DAY], [DAY, 3 * DAY], [DAY, 10 * DAY, 60 * DAY, 0], [365 * DAY], [1, DAY, 200 * DAY]])
    t = r.choice([0, 1_000_000])
    out = []
    for _ in range(n):
        out.insert(0, [r.choice(grades), t])
        t += r.choice(mode)
        if r.random() < .1:
            t += r.randint(0, DAY)
        t = min(t, 1_000_000_000)
    return out


def deltas(r, h):
    sign = r.choice([(-4000, 0), (0, 4000), (-4000, 4000), (-5000, 5000)])
    ts = [t for _, t in h]
    n = r.choice([0, 1, 2, 3, 5, 10])
    return [[r.randint(*sign), t] for t in sorted((r.choice(ts) + r.choice([0, 0, -100, DAY]) for _ in range(n)), reverse=True)]


def laws(r, h, ds):
    """Everything that relates evaluations around one history."""
    last = h[0][1]
    ev = []
    for ty in "dp":
        waits = [w for w in sorted(r.sample(WAITS, 8) + [-DAY, 0, 50 * DAY - 1, 50 * DAY])]
        waits = sorted(set(waits))
        for d in ([], ds) if ds else ([],):
            ev.append({"law": "wait", "info": {"trials": h, "deltas": d, "waits": waits},
                       "cases": [case(ty, h, [], last)] + [case(ty, h, d, last + w) for w in waits]})
        for cls in ((1, 2), (3, 4, 5)):
            now = last + r.choice(WAITS)
            ev.append({"law": "grade", "info": {"trials": h, "deltas": ds, "wait": now - last},
                       "cases": [case(ty, [[g, last]] + h[1:], ds, now) for g in cls]})
        if all(g >= 3 for g, _ in h):
            cs = []
            for w in r.sample(WAITS, 4):
                t = last + r.choice([0, 1, 3600, DAY, 7 * DAY, 100 * DAY])
                cs += [case(ty, h, [], last + w), case(ty, [[r.randint(4, 5), t]] + h, [], t + w)]
            ev.append({"law": "streak", "info": {"trials": h}, "cases": cs})
        if all(g >= 3 for g, _ in h) or all(g < 3 for g, _ in h):
            same = (3, 4, 5) if h[0][0] >= 3 else (1, 2)
            cs = []
            for w in r.sample(WAITS, 4):
                more = [[r.choice(same), last] for _ in range(r.choice([1, 1, 3]))]
                cs += [case(ty, h, [], last + w), case(ty, more + h, [], last + w)]
            ev.append({"law": "cram", "info": {"trials": h}, "cases": cs})
        spaced = len(h) > 1 and all(a[1] - b[1] >= DAY for a, b in zip(h, h[1:]))
        if spaced and (all(g >= 4 for g, _ in h) or all(g < 3 for g, _ in h)):
            cs = []
            for w in (2 * DAY, 10 * DAY, 30 * DAY, 90 * DAY):
                cs += [case(ty, h[:1], [], last + w), case(ty, h, [], last + w)]
            ev.append({"law": "grow" if h[0][0] >= 4 else "fade", "info": {"trials": h}, "cases": cs})
        now = last + r.choice(WAITS)
        base = [r.choice([0, -1, 1, 12345, 10 ** 8, -10 ** 8])]
        ev.append({"law": "shift", "info": {"trials": h, "deltas": ds},
                   "cases": [case(ty, h, ds, now, str(b)) for b in [0, 10 ** 9, -10 ** 12, 4 * 10 ** 18] + base]})
        up = [[d + r.choice([0, 100, 2000]), t] for d, t in ds]
        ev.append({"law": "delta", "info": {"deltas": ds, "trials": h},
                   "cases": [case(ty, h, [], now), case(ty, h, ds, now), case(ty, h, up, now)]})
    if len(h) == 1 or all(g <= 3 for g, _ in h):
        ev.append({"law": "type", "info": {"trials": h},
                   "cases": [case(ty, h, [], last + w) for w in WAITS for ty in "dp"]})
    if len(h) == 1:
        ev.append({"law": "first", "info": {"trials": h}, "cases": [case(ty, h, [], last + DAY) for ty in "dp"]})
    gs = [g for g, _ in h][::-1]
    ts = [t for _, t in h][::-1]
    spaced = all(b - a >= DAY for a, b in zip(ts, ts[1:])) and (len(ts) < 2 or ts[-1] - ts[0] < 4000 * DAY)
    up, down = all(a <= b for a, b in zip(gs, gs[1:])), all(a >= b for a, b in zip(gs, gs[1:]))
    if (up or down) and (spaced or len(gs) == 1):
        ev.append({"law": "trend", "info": {"trials": h, "dir": 0 if up and down else 1 if up else -1},
                   "cases": [case(ty, h, ds, last) for ty in "dp"]})
    bad = [list(x) for x in h]
    if len(bad) > 1:
        i, j = r.sample(range(len(bad)), 2)
        bad[i][1], bad[j][1] = bad[j][1], bad[i][1]
    ev.append({"law": "order", "info": {"trials": bad}, "cases": [case(ty, bad, ds, last) for ty in "dp"]})
    return ev


def wild(r):
    """Extreme times and deltas: only the ranges are judged."""
    n = r.choice([1, 2, 3, 8])
    ts = sorted((r.choice([int(b) for b in BIG]) if r.random() < .6 else r.randint(-2 ** 63, 2 ** 63 - 1) for _ in range(n)), reverse=True)
    h = [[r.randint(1, 5), str(t)] for t in ts]
    ds = [[r.choice([-5000, 5000, 0, -1, 4999]), r.choice(BIG)] for _ in range(r.choice([0, 1, 2, 5]))]
    return {"law": "range", "cases": [case(ty, h, ds, r.choice(BIG)) for ty in "dp"]}


def programs(r, n, per=10):
    out = []
    for i in range(n):
        ev = []
        for _ in range(per):
            h = history(r, grades=r.choice([(1, 2, 3, 4, 5), (4, 5), (3, 4, 5), (1, 2), (5,), (1, 5), (1, 2, 3)]))
            if r.random() < .15:
                gs = sorted((g for g, _ in h), reverse=r.random() < .5)
                h = [[g, x[1]] for g, x in zip(gs, h)]
            ev += laws(r, h, deltas(r, h))
            ev.append(wild(r))
        ev.append({"law": "empty", "cases": [case(ty, [], [], w) for ty in "dp" for w in (0, 10 ** 9)]})
        out.append({"id": f"sc{i}", "ev": ev})
    return out


def replays(r, hs, per=20):
    out = []
    for i in range(0, len(hs), per):
        ev = []
        for h in hs[i:i + per]:
            ev += laws(r, h, [] if r.random() < .7 else deltas(r, h))
        out.append({"id": f"mc{i}", "ev": ev})
    return out
