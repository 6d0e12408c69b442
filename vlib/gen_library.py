"""Programs that lay out a library directory file by file and open it.

A file is {"dir": [components], "name", "kind", "text", "m"}: `text` is what is written (ROOT/ stands
for the absolute path of the library), `m` says the same thing in the terms of the specification."""
import json

MANIFEST = {"course": "course_manifest.json", "lesson": "lesson_manifest.json", "exercise": "exercise_manifest.json"}
KEYS = ["genre", "key"]


def opt(x):
    return [] if x is None else [x]


class Tree:
    def __init__(self, r):
        self.r = r
        self.files = []
        self.units = {"course": [], "lesson": [], "exercise": []}

    def put(self, d, name, kind, text, m=None):
        if any(f["dir"] == d and f["name"] == name for f in self.files):
            return None
        f = {"dir": list(d), "name": name, "kind": kind, "text": text, "m": m or {}}
        self.files.append(f)
        return f

    def path(self, d, missing=False):
        """A path mentioned in a manifest in directory d: its text and its components."""
        r = self.r
        n = f"m{len(self.files)}" + r.choice([".md", ".md", ".md", ".pdf", ".mscz", ".MD", "", ".tar.gz", " 1.png"])
        k = r.random()
        if missing:
            return n, [n]
        if k < .5:
            self.put(d, n, "other", f"# text {len(self.files)}\n")
            return n, [n]
        if k < .7:
            s = r.choice(["assets", "a b", "ä"])
            self.put(d + [s], n, "other", f"# text {len(self.files)}\n")
            return f"{s}/{n}", [s, n]
        if k < .85:
            self.put(d[:-1], n, "other", f"# text {len(self.files)}\n")
            return f"../{n}", ["..", n]
        if k < .93:
            self.put(d, n, "other", f"# text {len(self.files)}\n")
            return f"./{n}", [".", n]
        self.put(d, n, "other", f"# text {len(self.files)}\n")
        return "ROOT/" + "/".join(d + [n]), ["/"] + d + [n]

    def basic(self, d, missing=False):
        k = self.r.random()
        if missing or k < .5:
            t, p = self.path(d, missing)
            return {"MarkdownAsset": {"path": t}}, {"t": "md", "x": [], "p": [p]}
        c = self.r.choice(["", "some text", "line\nline \"quoted\" ü"])
        if k < .75:
            return {"InlinedAsset": {"content": c}}, {"t": "inline", "x": [c], "p": []}
        return {"InlinedUniqueAsset": {"content": c}}, {"t": "unique", "x": [c], "p": []}

    def asset(self, d, missing=False):
        r = self.r
        k = r.choice(["basic", "flash", "slice"]) if missing else r.choice(["basic", "flash", "iflash", "literacy", "slice", "trans"])
        if k == "basic":
            j, a = self.basic(d, missing)
            return {"BasicAsset": j}, a
        if k == "flash":
            ft, fp = self.path(d, missing and r.random() < .5)
            j, a = {"front_path": ft}, {"t": "flash", "x": [], "p": [fp]}
            if missing and fp[0] in [f["name"] for f in self.files if f["dir"] == d] or missing and len(fp) > 1 or r.random() < .5:
                bt, bp = self.path(d, missing)
                j["back_path"] = bt
                a["p"].append(bp)
            return {"FlashcardAsset": j}, a
        if k == "iflash":
            j, a = {"front_content": "front?"}, {"t": "iflash", "x": ["front?"], "p": []}
            if r.random() < .5:
                j["back_content"] = "back"
                a["x"].append("back")
            return {"InlineFlashcardAsset": j}, a
        if k == "literacy":
            t = r.choice(["Reading", "Dictation"])
            ex = [["word", r.choice([None, "answer"])] for _ in range(r.randint(0, 2))]
            exc = [["odd", r.choice([None, "odd answer"])] for _ in range(r.randint(0, 1))]
            flat = [t] + [x for e in ex for x in (["e", e[0]] + opt(e[1]))] + [x for e in exc for x in (["x", e[0]] + opt(e[1]))]
            j = {"lesson_type": t}
            if ex or r.random() < .5:
                j["examples"] = ex
            if exc or r.random() < .5:
                j["exceptions"] = exc
            return {"LiteracyAsset": j}, {"t": "literacy", "x": flat, "p": []}
        if k == "slice":
            j, a = {"link": "https://x/y"}, {"t": "slice", "x": ["https://x/y"], "p": []}
            if r.random() < .5:
                j["description"] = "slowly"
                a["x"].append("slowly")
            if missing or r.random() < .5:
                t, p = self.path(d, missing)
                j["backup"] = t
                a["p"].append(p)
            return {"SoundSliceAsset": j}, a
        j, a = {}, {"t": "trans", "x": ["listen"], "p": []}
        j["content"] = "listen"
        if r.random() < .5:
            j["external_link"] = {"YouTube": "https://z"}
            a["x"].append("https://z")
        return {"TranscriptionAsset": j}, a

    def common(self, kind, u):
        """The fields that every manifest has; absent ones take their defaults."""
        r = self.r
        j, m = {"id": u}, {"id": u}
        m["name"] = ""
        if r.random() < .7:
            j["name"] = m["name"] = r.choice([f"Name of {u}", "ü \"x\"", ""])
        m["desc"] = opt(r.choice([None, None, f"About {u}"]))
        if m["desc"] or r.random() < .3:
            j["description"] = m["desc"][0] if m["desc"] else None
        return j, m

    def unit(self, kind, u, rel, d, missing=False):
        r = self.r
        j, m = self.common(kind, u)
        for key, short in (("dependencies", "deps"), ("superseded", "sup")):
            m[short] = list(rel.get(short, []))
            if m[short] or r.random() < .3:
                j[key] = m[short]
        m["enc"] = list(rel.get("enc", []))
        if m["enc"] or r.random() < .3:
            j["encompassed"] = [[v, w / 1000] for v, w in m["enc"]]
        m["meta"] = []
        if r.random() < .4:
            meta = {k: [r.choice(["a", "b"]) for _ in range(r.randint(0, 2))] for k in r.sample(KEYS, r.randint(0, 2))}
            j["metadata"] = meta
            m["meta"] = [[[k, v] for k, v in sorted(meta.items())]]
        m["authors"] = []
        if kind == "course" and r.random() < .3:
            j["authors"] = ["An Author"]
            m["authors"] = [["An Author"]]
        gone = r.choice(["material", "instructions"]) if missing else ""
        for a in ("material", "instructions"):
            m[a] = []
            if gone == a or r.random() < .25:
                ja, ma = self.basic(d, gone == a)
                j[f"{kind}_{a}"] = ja
                m[a] = [ma]
        return j, m

    def text(self, j):
        items = list(j.items())
        self.r.shuffle(items)
        return json.dumps(dict(items), indent=self.r.choice([None, 2]), ensure_ascii=self.r.random() < .5)


def sub(r, names=("a", "b", "ab", "a.b", "A", "course 1", "é")):
    return r.choice(names)


IDS = ["c0", "c1", "c0::x", "C1", "c", "d::0", "é::ü", "c1 b"]


def library_program(r, pid, broken=None):
    """broken: how the library must be rejected, if at all."""
    t = Tree(r)
    ids = r.sample(IDS, r.randint(1, 4))
    rels, order = {}, []
    for c in ids:
        ls = [f"{c}::l{i}" for i in range(r.randint(0, 3))]
        rels[c] = {"kind": "course", "ls": ls}
        for l in ls:
            rels[l] = {"kind": "lesson", "course": c, "es": [f"{l}::e{i}" for i in range(r.randint(0, 3))]}
    order = list(rels)
    r.shuffle(order)
    pos = {u: i for i, u in enumerate(order)}
    p = r.choice([0, .1, .3])
    for u in order:
        cand = [v for v in order if pos[v] < pos[u] and v != rels[u].get("course") and u != rels[v].get("course")]
        rels[u]["deps"] = [v for v in cand if r.random() < p] + ([r.choice(["gone", "c::"])] if r.random() < .1 else [])
        rels[u]["sup"] = [v for v in cand if r.random() < .1 and v.split("::l")[0] != u.split("::l")[0]]
        rels[u]["enc"] = [[v, r.choice([0, 250, 500, 1000])] for v in cand if r.random() < .1]
    lessons = [u for u in order if rels[u]["kind"] == "lesson"]
    exs = [(l, e) for l in lessons for e in rels[l]["es"]]
    victim = None
    if broken in ("dup",):
        pool = order + [e for _, e in exs]
        if len(pool) > 1:
            victim = r.choice(pool)
    elif broken in ("parse", "field", "empty", "missing", "mismatch", "badtype"):
        pool = {"mismatch": lessons + [e for _, e in exs]}.get(broken, order + [e for _, e in exs])
        victim = r.choice(pool) if pool else None
    elif broken == "weight":
        victim = r.choice(order)
        rels[victim]["enc"] = rels[victim]["enc"] + [[r.choice(["w::other", order[0]]), r.choice([-250, 1250, 2000])]]
        seen = set()
        rels[victim]["enc"] = [e for e in reversed(rels[victim]["enc"]) if not (e[0] in seen or seen.add(e[0]))]
    elif broken == "self":
        victim = r.choice(order)
        rels[victim]["deps"].append(victim)
    elif broken == "cycle" and len(order) > 1:
        a, b = r.sample(order, 2)
        key = r.choice(["deps", "sup", "enc"])
        for x, y in ((a, b), (b, a)):
            if key == "enc":
                rels[x]["enc"] = [e for e in rels[x]["enc"] if e[0] != y] + [[y, 500]]
            elif y not in rels[x][key]:
                rels[x][key].append(y)

    def finish(kind, u, j, m, d):
        text = t.text(j)
        bad = False
        if u == victim:
            if broken == "parse":
                text, bad = r.choice([text[:-1], "", "[]", text + "}"]), True
            elif broken == "field":
                k = r.choice([k for k in (["id"] if kind == "course" else ["id", "course_id"] if kind == "lesson"
                                          else ["id", "course_id", "lesson_id", "exercise_asset"])])
                j = {a: b for a, b in j.items() if a != k}
                text, bad = t.text(j), True
            elif broken == "badtype":
                j = dict(j)
                if kind == "exercise" and r.random() < .5:
                    j["exercise_type"] = "Strange"
                elif kind == "exercise":
                    j["exercise_asset"] = {"NoSuchAsset": {}}
                else:
                    j["dependencies"] = r.choice(["x", [1], {"a": 1}])
                text, bad = t.text(j), True
        t.put(d, MANIFEST[kind], "bad" if bad else kind, text, m)

    used = set()
    renamed = {}
    if broken == "dup" and victim:
        renamed[victim] = r.choice([x for x in order + [e for _, e in exs] if x != victim])
    if broken == "empty" and victim:
        renamed[victim] = ""
    nm = lambda u: renamed.get(u, u)
    dirs = []
    for c in ids:
        while True:
            d = [sub(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if tuple(d) not in used:
                break
        used.add(tuple(d))
        dirs.append(d)
        j, m = t.unit("course", nm(c), rels[c], d, broken == "missing" and victim == c)
        finish("course", c, j, m, d)
        for li, l in enumerate(rels[c]["ls"]):
            ld = d + [f"l{li}"]
            used.add(tuple(ld))
            j, m = t.unit("lesson", nm(l), rels[l], ld, broken == "missing" and victim == l)
            m["course"] = j["course_id"] = nm(c)
            if broken == "mismatch" and victim == l:
                m["course"] = j["course_id"] = r.choice(["other", c + "x", "", l])
            finish("lesson", l, j, m, ld)
            for ei, e in enumerate(rels[l]["es"]):
                ed = ld + [f"e{ei}"]
                used.add(tuple(ed))
                j, m = t.common("exercise", nm(e))
                m["course"] = j["course_id"] = nm(c)
                m["lesson"] = j["lesson_id"] = nm(l)
                if broken == "mismatch" and victim == e:
                    if r.random() < .5:
                        m["course"] = j["course_id"] = r.choice(["other", c + "x", ""])
                    else:
                        m["lesson"] = j["lesson_id"] = r.choice(["other", c, "", e])
                m["type"] = r.choice(["Procedural", "Declarative"])
                if m["type"] == "Declarative" or r.random() < .5:
                    j["exercise_type"] = m["type"]
                ja, ma = t.asset(ed, broken == "missing" and victim == e)
                j["exercise_asset"] = ja
                m["asset"] = [ma]
                finish("exercise", e, j, m, ed)

    # Files that are no manifests of the library: other names, other places.
    for _ in range(r.choice([0, 1, 3])):
        d = list(r.choice(dirs)) + r.choice([[], ["l0"], ["l0", "e0"], ["l0", "e0", "deep"], ["zzz"], ["l0", "zzz", "deep"]])
        name, kind = r.choice([("README.md", "other"), ("Course_manifest.json", "other"), ("lesson_manifest.json.bak", "other"),
                               ("lesson_manifest.json", "lesson"), ("exercise_manifest.json", "exercise"),
                               ("course_manifest.json", "course"), ("xexercise_manifest.json", "other"), ("lesson_manifest.yaml", "other")])
        if kind == "other":
            t.put(d, name, kind, "not a manifest")
            continue
        # A misplaced manifest is ignored, whatever it contains; a well placed one is part of the library.
        stray = f"stray{len(t.files)}"
        if r.random() < .4 and kind != "course":
            t.put(d, name, "bad", "{")
        elif kind == "lesson":
            j, m = t.unit("lesson", stray, {}, d)
            m["course"] = j["course_id"] = r.choice(ids)
            t.put(d, name, kind, t.text(j), m)
        elif kind == "exercise":
            j, m = t.common("exercise", stray)
            m["course"] = j["course_id"] = r.choice(ids)
            m["lesson"] = j["lesson_id"] = r.choice(lessons) if lessons else "none"
            m["type"] = "Procedural"
            j["exercise_asset"] = {"BasicAsset": {"InlinedAsset": {"content": "x"}}}
            m["asset"] = [{"t": "inline", "x": ["x"], "p": []}]
            t.put(d, name, kind, t.text(j), m)
        else:
            j, m = t.unit("course", stray, {}, d)
            t.put(d, name, kind, t.text(j), m)
    if r.random() < .1:
        j, m = t.unit("course", "at_the_root", {}, ["x"])
        j.pop("course_material", None), j.pop("course_instructions", None)
        m["material"], m["instructions"] = [], []
        t.put([], "course_manifest.json", "course", t.text(j), m)
    ignored, shown = [], []
    for _ in range(r.choice([0, 0, 1, 2])):
        d = list(r.choice(dirs))
        if r.random() < .3:
            d = d[:r.randint(1, len(d))]
        elif r.random() < .3:
            d[-1] = d[-1] + r.choice(["x", "b", ""])
        elif r.random() < .2:
            d[-1] = d[-1][:1]
        ignored.append(d)
        shown.append(r.choice(["", "", "./"]) + "/".join(d) + r.choice(["", "/"]))
    mentioned = {"no_such_unit", "gone", "c::"}
    for f in t.files:
        if f["m"]:
            m = f["m"]
            mentioned |= {m["id"]} | set(m.get("deps", [])) | set(m.get("sup", [])) | {e[0] for e in m.get("enc", [])}
            mentioned |= {m[k] for k in ("course", "lesson") if k in m}
    mentioned.discard("")
    univ = sorted(mentioned, key=lambda s: s.encode())
    prefixes = ["", "c", "c0", "c0::", "c0::l", "C", "é", "zzz", "c1::l0::e", "s"]
    return {"id": pid, "files": t.files, "ignored": ignored, "shown": shown, "univ": univ,
            "prefixes": r.sample(prefixes, 5), "relative": r.choice(["", "", "", "cwd", "near", "given"]), "broken": broken or ""}
