"""Libraries with generated courses, and courses written by the builders."""
import json

from vlib.gen_library import IDS, Tree, opt, sub

SHORTS = ["vowels", "blends", "words", "a.b", "x y", "é", "lesson"]
CARDS = ["one", "two", "lesson", "a.b", "x.front", "é", "three 3"]
TYPES = ["Procedural", "Declarative"]


class Gen:
    def __init__(self, r):
        self.r, self.t, self.n = r, Tree(r), 0
        self.names, self.marks = set(), []
        self.instr = []
        self.bad = None            # what must be wrong, if anything
        self.simple = self.build = False

    def mark(self, s="w", text=True):
        self.n += 1
        m = f"{s}{self.n}_"
        (self.marks.append if text else self.names.add)(m)
        return m

    def data(self, d, name, text, **c):
        full = {"ok": True, "s": "", "l": [], "e": [], "m": [], "a": [], "p": []}
        full.update(c)
        f = self.t.put(d, name, "other", text)
        if f:
            f["c"] = full
        return f

    def js(self, d, name, j, **c):
        """A JSON file; perhaps one that cannot be read."""
        text = json.dumps(j, ensure_ascii=self.r.random() < .5)
        if self.bad == "value" and self.r.random() < .5:
            self.bad = "done"
            return self.data(d, name, self.r.choice(["{", "", text[:-1], '{"x": 1}']), ok=False, **c)
        return self.data(d, name, text, **c)

    # ---- a course of each kind -------------------------------------------
    def config(self, t, **kw):
        g = {"t": t, "inlined": False, "dictation": False, "link": [], "path": [], "passages": {"start": "", "end": "", "subs": []},
             "deps": [], "dir": [], "inl": [], "skip_singing": False, "skip_advanced": False}
        g.update(kw)
        return g

    def music(self, c, d):
        r = self.r

        def passage(depth):
            s, e = self.mark("s"), self.mark("e")
            keys = r.sample(["0", "1", "2", "10", "7"], r.choice([0, 1, 2, 3]) if depth < 3 else 0)
            subs = [[k, passage(depth + 1)] for k in keys]
            return {"start": s, "end": e, "subs": subs}

        def js(p):
            return {"start": p["start"], "end": p["end"], "sub_passages": {k: js(q) for k, q in p["subs"]}}
        p = passage(0)
        if r.random() < .5:
            link = "https://s/" + self.mark("l")
            self.marks.pop()
            return self.config("music", link=[link], passages=p), {"MusicPiece": {"music_asset": {"SoundSlice": link}, "passages": js(p)}}
        path = self.mark("f") + ".pdf"
        self.marks[-1] = path
        return self.config("music", path=[path], passages=p), {"MusicPiece": {"music_asset": {"LocalFile": path}, "passages": js(p)}}

    def relations(self, shorts, s, outside, lit=False):
        """Dependencies by short name (on earlier lessons, so that there is no cycle) or by full name."""
        r = self.r
        before = shorts[:shorts.index(s)]
        pick = lambda p: [x for x in before if r.random() < p]
        deps, sup = pick(.4), pick(.2)
        enc = [[x, r.choice([0, 250, 500, 1000])] for x in pick(.2)]
        if outside and r.random() < .3:
            deps.append(r.choice(outside))
        if outside and r.random() < .15:
            sup.append(r.choice(outside))
        if outside and r.random() < .15:
            enc.append([r.choice(outside), r.choice([0, 1000, 300])])
        return deps, sup, enc

    def lesson_files(self, d, shorts, s, outside):
        r = self.r
        deps, sup, enc = self.relations(shorts, s, outside)
        if self.bad == "cycle" and len(shorts) > 1:
            k = shorts.index(s)
            deps = deps + [shorts[k - 1]] if shorts[k - 1] not in deps else deps
            if k == len(shorts) - 1:
                self.bad = "done"
        if self.bad == "weight" and r.random() < .5:
            enc = [["w::other", r.choice([-500, 1500])]]
            self.bad = "done"
        if deps or r.random() < .2:
            self.js(d, "lesson.dependencies.json", deps, l=deps)
        if sup or r.random() < .2:
            self.js(d, "lesson.superseded.json", sup, l=sup)
        if enc or r.random() < .2:
            self.js(d, "lesson.encompassed.json", [[x, w / 1000] for x, w in enc], e=enc)
        if not self.simple and r.random() < .4:
            n = r.choice(["The \"name\"", self.mark("n", False)])
            self.names.add(n)
            self.js(d, "lesson.name.json", n, s=n)
        if not self.simple and r.random() < .4:
            self.js(d, "lesson.description.json", "about it ü", s="about it ü")
        if r.random() < .4:
            self.data(d, "lesson.instructions.md", "do it\nso", s="do it\nso")

    def noise(self, d, kind):
        """Files that are no part of a lesson."""
        r = self.r
        for n in r.sample(["README.md", "front.md", "notes.txt", "x.frontmd", "lesson.names.json", "X.FRONT.MD"], r.choice([0, 1, 2])):
            self.t.put(d, n, "other", "{")
        if kind == "kb" and r.random() < .2:
            self.t.put(d, ".front.md", "other", "no name")
        if r.random() < .1:
            self.t.put(d + ["deeper"], "one.front.md" if kind == "kb" else "one.example.md", "other", "too deep")

    def shorts(self, kind):
        s = self.r.sample(SHORTS, self.r.randint(0, 4))
        self.names |= set(s)
        return s

    def kb(self, c, d, outside):
        r = self.r
        shorts = self.shorts("kb")
        for s in shorts:
            ld = d + [s + ".lesson"]
            self.t.put(ld, "README.md", "other", "x")
            self.lesson_files(ld, shorts, s, outside)
            if r.random() < .3:
                self.data(ld, "lesson.material.md", "read", s="read")
            if r.random() < .3:
                meta = {k: r.choice([[], ["v"], ["v", "w"]]) for k in r.sample(["genre", "key"], r.randint(0, 2))}
                self.js(ld, "lesson.metadata.json", meta, m=[[[k, v] for k, v in sorted(meta.items())]])
            if not self.simple and r.random() < .3:
                ty = r.choice(TYPES)
                self.js(ld, "lesson.default_exercise_type.json", ty, s=ty)
            cards = r.sample(CARDS, r.randint(0, 4))
            self.names |= set(cards)
            for e in cards:
                text = lambda k: r.choice([f"{k} {e}", f"{k} {e}", f"{k} {e}\n", f"\n {k} {e} \n\nmore  ", "", f"{k}\n{e}\tü"])
                front, back = text("front"), text("back")
                self.data(ld, e + ".front.md", front, s=front)
                if r.random() < .6:
                    self.data(ld, e + ".back.md", back, s=back)
                if self.simple:
                    continue
                if r.random() < .3 and e != "lesson":
                    n = r.choice([f"Card {e}", "", "ü"])
                    self.js(ld, e + ".name.json", n, s=n)
                if r.random() < .3 and e != "lesson":
                    self.js(ld, e + ".description.json", f"about {e}", s=f"about {e}")
                if r.random() < .3:
                    ty = r.choice(TYPES)
                    self.js(ld, e + ".type.json", ty, s=ty)
            if r.random() < .3:      # a back without a front
                self.data(ld, "zzz.back.md", "back", s="back")
            self.noise(ld, "kb")
        for n in r.sample([["nolesson"], ["lesson"], ["xlesson"], ["!bad.lesson"], ["deep", "inner.lesson"]][::2 if self.build else 1],
                          0 if self.simple else r.choice([0, 1, 2])):
            self.t.put(d + n, "one.front.md", "other", "not in a lesson")
        inl = r.random() < .4
        return self.config("kb", inlined=inl), {"KnowledgeBase": {"inlined": inl} if inl or r.random() < .5 else {}}

    def literacy(self, c, d, outside):
        r = self.r
        shorts = self.shorts("literacy")
        for s in shorts:
            ld = d + [s + ".lesson"]
            self.t.put(ld, "README.md", "other", "x")
            self.lesson_files(ld, shorts, s, outside)
            for suffix, ans in ((".example.md", ".answer.md"), (".exception.md", ".exception_answer.md")):
                for e in r.sample(["one", "two", "a.b", "simple", "é"], r.choice([0, 0, 1, 2, 4])):
                    t = r.choice(["same", f"word {e}", "two\nlines"])
                    self.data(ld, e + suffix, t, s=t)
                    if r.random() < .4:
                        self.data(ld, e + ans, f"answer {e}", s=f"answer {e}")
                if r.random() < .2:      # an answer to nothing
                    self.data(ld, "zzz" + ans, "no question", s="no question")
            for n, f in (("example", "examples"), ("exception", "exceptions")):
                if r.random() < .4:
                    ls = [r.choice(["cat", "dog", "same", "z y"]) for _ in range(r.randint(0, 3))]
                    # Blank lines and spaces around a line mean nothing.
                    text = "".join(r.choice(["", "", " ", "\t", "\n  \n"]) + x + r.choice(["", "", " ", "  "]) + r.choice(["\n", "\n", "\n\n", "\r\n"]) for x in ls)
                    self.data(ld, f"simple_{f}.md", text.rstrip("\n") if r.random() < .3 else text, l=ls)
                if r.random() < .4:
                    es = [[r.choice(["cat", "dog", "same"]), opt(r.choice([None, "miau"]))] for _ in range(r.randint(1, 3))]
                    text = "".join(f'- {n}: "{a}"\n' + (f'  answer: "{b[0]}"\n' if b else "") for a, b in es)
                    bad = self.bad == "value" and r.random() < .3
                    if bad:
                        self.bad = "done"
                        text = "- nothing: true\n"
                    self.data(ld, f"simple_{f}_with_answers.yaml", text, a=es, ok=not bad)
            self.noise(ld, "literacy")
        for n in r.sample([["nolesson"], [".lesson"], ["!bad.lesson"]], r.choice([0, 0, 1])):
            self.t.put(d + n, "one.example.md", "other", "not in a lesson")
        if r.random() < .4:
            self.data(d, "course.instructions.md", "own *instructions*", s="own *instructions*")
        dic = r.random() < .6
        return self.config("literacy", dictation=dic), {"Literacy": {"generate_dictation": dic} if dic or r.random() < .5 else {}}

    def passage(self, short):
        r = self.r
        p = {"short": short, "marks": [], "link": [], "iv": [], "artist": [], "album": []}
        a = {"short_id": short, "track_name": self.mark("t")}
        p["marks"].append(a["track_name"])
        for k in ("artist", "album"):
            if r.random() < .5:
                v = r.choice(["Same Artist", self.mark("a")]) if k == "artist" else self.mark("b")
                if v == "Same Artist" and v not in self.marks:
                    self.marks.append(v)
                a[k + "_name"] = v
                p[k] = [v]
                p["marks"].append(v)
        if r.random() < .3:
            a["duration"] = self.mark("d")
            p["marks"].append(a["duration"])
        if r.random() < .4:
            a["external_link"] = {"YouTube": "https://y/" + self.mark("y")}
            self.marks[-1] = a["external_link"]["YouTube"]
            p["link"] = [self.marks[-1]]
        j = {"asset": {"Track": a}}
        iv = {}
        for k in r.sample(["0", "1", "2", "12"], r.choice([0, 0, 1, 2, 3])):
            iv[k] = [self.mark("s"), self.mark("e")]
            p["iv"].append([k, *iv[k]])
        if iv or r.random() < .3:
            j["intervals"] = iv
        return p, j

    def transcription(self, c, d, others):
        r = self.r
        shorts = r.sample(["t1", "t2", "t3", "t::4", "é", "t 5"], r.randint(0, 4))
        where, text = r.choice([([], ""), (["passages"], "passages"), (["sub", "p"], "sub/p"), ([".", "passages"], "./passages"),
                                (["..", "pp" + d[-1]], "../pp" + d[-1]),
                                (["/"] + d + ["abs"], "ROOT/" + "/".join(d + ["abs"]))])
        real = {"passages": d + ["passages"], "sub/p": d + ["sub", "p"], "./passages": d + ["passages"], "../pp" + d[-1]: d[:-1] + ["pp" + d[-1]]}.get(
            text, d + ["abs"])
        inl, jinl, n = [], [], 0
        for s in shorts:
            p, j = self.passage(s)
            if where and r.random() < .6:
                n += 1
                ext = r.choice([".json", ".json", ".JSON"])
                self.js(real, f"p{n}{ext}", j, p=[p])
            else:
                inl.append(p)
                jinl.append(j)
        if self.bad == "same" and shorts:
            p, j = self.passage(r.choice(shorts))
            if where and r.random() < .6:
                self.js(real, "again.json", j, p=[p])
            else:
                inl.append(p)
                jinl.append(j)
            self.bad = "done"
        if where:
            if self.bad == "nodir" and not n:
                self.bad = "done"
            else:
                self.t.put(real, r.choice(["README.md", "x.json.bak", "jsonx"]), "other", "{")
            if r.random() < .3 and self.bad != "done":
                self.t.put(real + ["deeper"], "p9.json", "other", "{")
        deps = [x for x in others if r.random() < .5] + (["no_such_course"] if r.random() < .2 else [])
        if self.bad == "selfdep":
            deps.append(c)
            self.bad = "done"
        j = {}
        ss, sa = r.random() < .3, r.random() < .3
        for k, v, e in (("transcription_dependencies", deps, []), ("passage_directory", text, ""), ("inlined_passages", jinl, []),
                        ("skip_singing_lessons", ss, False), ("skip_advanced_lessons", sa, False)):
            if v != e or r.random() < .3:
                j[k] = v
        return self.config("transcription", dir=where, inl=inl, deps=deps, skip_singing=ss, skip_advanced=sa), {"Transcription": j}


def lessons_of(c, g, shorts, instr):
    if g["t"] == "kb":
        return [f"{c}::{s}" for s in shorts]
    if g["t"] == "literacy":
        return [f"{c}::{s}::reading" for s in shorts]
    if g["t"] == "transcription":
        return [f"{c}::singing"] + [f"{c}::transcription::{i['id']}" for i in instr]
    return [f"{c}::0"]


BAD = ["value", "cycle", "weight", "same", "nodir", "selfdep", "instr"]


def generator_program(r, pid, bad=None, only=None):
    g = Gen(r)
    g.bad = bad
    ids = r.sample(IDS, r.randint(1, 3))
    for _ in range(r.choice([0, 1, 2])):
        k = r.choice(["piano", "guitar", "sax é"])
        if k not in [i["id"] for i in g.instr]:
            g.instr.append({"name": g.mark("i"), "id": k})
            g.names.add(g.instr[-1]["name"])
    if bad == "instr" and g.instr:
        g.instr.append({"name": g.mark("i"), "id": g.instr[0]["id"]})
        g.names.add(g.instr[-1]["name"])
    outside, trans = ["far::away"], []
    used = set()
    for c in ids:
        kind = only or r.choice(["music", "kb", "kb", "literacy", "literacy", "transcription", "transcription", "plain"])
        if bad in ("same", "nodir", "selfdep", "instr"):
            kind = "transcription"
        d = [sub(r) for _ in range(r.choice([1, 1, 2]))]
        while any(tuple(d[:len(u)]) == u or u[:len(d)] == tuple(d) for u in used):
            d = [sub(r) + str(len(used)) for _ in range(r.choice([1, 2]))]
        used.add(tuple(d))
        rel = {"deps": [x for x in outside if r.random() < .2]}
        j, m = g.t.unit("course", c, rel, d)
        if kind in ("literacy", "transcription") and r.random() < .2:
            meta = {"genre": ["g"], r.choice(["literacy_course", "transcription_artist", "transcription_course"]): ["mine"]}
            j["metadata"] = meta
            m["meta"] = [[[k, v] for k, v in sorted(meta.items())]]
        # The name is a marked word, so that it can be recognized in the names of what is generated.
        name = g.mark("c", False) if r.random() < .8 else ""
        m["name"] = name
        j["name"] = name
        g.names |= {name, c}
        if name == "" and r.random() < .5:
            j.pop("name", None)
        before = len(g.t.files)
        cfg = None
        if kind == "music":
            cfg, jc = g.music(c, d)
        elif kind == "kb":
            cfg, jc = g.kb(c, d, outside)
        elif kind == "literacy":
            cfg, jc = g.literacy(c, d, outside)
        elif kind == "transcription":
            cfg, jc = g.transcription(c, d, trans)
            trans.append(c)
        if cfg:
            j["generator_config"] = jc
            shorts = sorted({f["dir"][len(d)][:-7] for f in g.t.files[before:]
                             if len(f["dir"]) > len(d) and f["dir"][len(d)].endswith(".lesson") and f["dir"][len(d)][0] not in "!."})
            outside += lessons_of(c, cfg, shorts, g.instr)
        elif r.random() < .3:
            j["generator_config"] = None
        f = g.t.put(d, "course_manifest.json", "course", g.t.text(j), m)
        if cfg:
            f["gen"] = cfg
        # A course may have lessons of its own besides those generated for it.
        for i in range(r.choice([0, 0, 1])):
            l, ld = f"{c}::own{i}", d + [f"own{i}"]
            jl, ml = g.t.unit("lesson", l, {"deps": [x for x in outside[1:] if x.startswith(c + "::") and r.random() < .4]}, ld)
            ml["course"] = jl["course_id"] = c
            g.t.put(ld, "lesson_manifest.json", "lesson", g.t.text(jl), ml)
            je, me = g.t.common("exercise", l + "::e")
            me["course"], me["lesson"], me["type"] = c, l, "Procedural"
            je["course_id"], je["lesson_id"] = c, l
            je["exercise_asset"], ma = g.t.asset(ld + ["e"])
            me["asset"] = [ma]
            g.t.put(ld + ["e"], "exercise_manifest.json", "exercise", g.t.text(je), me)
        outside.append(c)
    return finish(r, g, pid)


def finish(r, g, pid, **kw):
    univ = {"no_such_unit", "far::away", "no_such_course"}
    for f in g.t.files:
        univ |= {f["m"][k] for k in ("id", "course", "lesson") if k in f["m"]}
        univ |= {u for k in ("deps", "sup") for u in f["m"].get(k, [])} | {e[0] for e in f["m"].get("enc", [])}
        univ |= {u for u in f.get("c", {}).get("l", [])} | {e[0] for e in f.get("c", {}).get("e", [])}
    univ |= generated_ids(g)
    univ.discard("")
    prefixes = ["", "c", "c0", "c0::", "c0::0", "c1::v", "C", "é", "zzz"]
    p = {"id": pid, "files": g.t.files, "ignored": [], "shown": [], "univ": sorted(univ, key=lambda s: s.encode()),
         "prefixes": r.sample(prefixes, 2), "relative": r.choice(["", "", "", "cwd", "near", "given"]), "instr": g.instr, "transcription": r.random() < .5,
         "names": sorted(g.names), "marks": g.marks, "twice": r.random() < .5}
    p.update(kw)
    return p


def generated_ids(g):
    """Every identifier that generation could come up with; what is really there is for the specification to say."""
    out = set()
    for f in g.t.files:
        if "gen" not in f:
            continue
        c, d, cfg = f["m"]["id"], f["dir"], f["gen"]
        if cfg["t"] == "music":
            def walk(i, p):
                out.add(i)
                out.add(i + "::exercise")
                for k, q in p["subs"]:
                    walk(f"{i}::{k}", q)
            walk(c + "::0", cfg["passages"])
        for h in g.t.files:
            if len(h["dir"]) == len(d) + 1 and h["dir"][:len(d)] == d and h["dir"][-1].endswith(".lesson"):
                s = h["dir"][-1][:-len(".lesson")]
                if s.startswith("!"):
                    continue
                l = f"{c}::{s}"
                out |= {l, l + "::reading", l + "::dictation", l + "::reading::exercise", l + "::dictation::exercise"}
                if h["name"].endswith(".front.md"):
                    out.add(l + "::" + h["name"][:-len(".front.md")])
                for x in h.get("c", {}).get("l", []):
                    out |= {f"{c}::{x}", f"{c}::{x}::reading", f"{c}::{x}::dictation"}
        if cfg["t"] == "transcription":
            ids = [i["id"] for i in g.instr]
            ls = ["singing", "advanced_singing"] + [f"{a}transcription::{i}" for a in ("", "advanced_") for i in ids]
            for x in cfg["deps"]:
                out |= {f"{x}::{l}" for l in ls}
            ps = cfg["inl"] + [h["c"]["p"][0] for h in g.t.files if h.get("c", {}).get("p")]
            for l in ls:
                out.add(f"{c}::{l}")
                for p in ps:
                    out |= {f"{c}::{l}::{p['short']}"} | {f"{c}::{l}::{p['short']}::{iv[0]}" for iv in p["iv"]}
    return out


# ---- courses written by the builders ---------------------------------------
def owner(f, dirs):
    """The directory of the unit that a file is written with."""
    return max((d for d in dirs if f["dir"][:len(d)] == d), key=len, default=None)


def assets_of(g, d, dirs, skip=lambda f: False):
    out = []
    for f in g.t.files:
        if f["kind"] == "other" and not skip(f) and owner(f, dirs) == d:
            out.append(["/".join(f["dir"][len(d):] + [f["name"]]), f["text"]])
    return out


def clash(r, lists):
    """The same file twice."""
    lists = [x for x in lists if x]
    if lists:
        x = r.choice(lists)
        x.append([r.choice(x)[0], "again"])
        return True
    return False


def plain_build(r, g, c, d, bad):
    """A course with lessons and exercises, through the builder of courses."""
    rels = {}
    ls = [f"{c}::l{i}" for i in range(r.randint(0, 3))]
    for i, l in enumerate(ls):
        rels[l] = {"deps": [x for x in ls[:i] if r.random() < .4], "sup": [x for x in ls[:i] if r.random() < .2],
                   "enc": [[x, r.choice([0, 500, 1000])] for x in ls[:i] if r.random() < .2]}
    es = {l: [f"{l}::e{i}" for i in range(r.randint(0, 3))] for l in ls}
    victim = r.choice([c] + ls + [e for l in ls for e in es[l]]) if bad == "missing" else None
    dirs = {c: d}
    for i, l in enumerate(ls):
        dirs[l] = d + [f"l{i}"]
        for k, e in enumerate(es[l]):
            dirs[e] = dirs[l] + [f"e{k}"]
    j, m = g.t.unit("course", c, {}, d, victim == c)
    g.t.put(d, "course_manifest.json", "course", "", m)
    b = {"kind": "plain", "dir": d, "manifest": j, "lessons": []}
    for l in ls:
        jl, ml = g.t.unit("lesson", l, rels[l], dirs[l], victim == l)
        ml["course"] = jl["course_id"] = c
        g.t.put(dirs[l], "lesson_manifest.json", "lesson", "", ml)
        bl = {"dir": dirs[l][-1], "manifest": jl, "exercises": [], "type": r.choice(TYPES + [None])}
        for e in es[l]:
            je, me = g.t.common("exercise", e)
            me["course"] = je["course_id"] = c
            me["lesson"] = je["lesson_id"] = l
            own = r.random() < .5
            me["type"] = je["exercise_type"] = r.choice(TYPES) if own else (bl["type"] or "Procedural")
            je["exercise_asset"], ma = g.t.asset(dirs[e], victim == e)
            me["asset"] = [ma]
            g.t.put(dirs[e], "exercise_manifest.json", "exercise", "", me)
            bl["exercises"].append({"dir": dirs[e][-1], "manifest": je, "own": own, "unit": e})
        bl["unit"] = l
        b["lessons"].append(bl)
    every = list(dirs.values())
    mine = lambda u: assets_of(g, dirs[u], every)
    b["assets"] = mine(c)
    # A file next to the directory of the course.
    b["assets"] += [["../" + f["name"], f["text"]] for f in g.t.files if f["kind"] == "other" and f["dir"] == d[:-1]]
    for bl in b["lessons"]:
        bl["assets"] = mine(bl["unit"])
        for be in bl["exercises"]:
            be["assets"] = mine(be["unit"])
    hit = bad == "clash" and clash(r, [b["assets"]] + [x["assets"] for x in b["lessons"]] + [x["assets"] for y in b["lessons"] for x in y["exercises"]])
    k = [bl["exercises"] for bl in b["lessons"] if bl["exercises"]] + [b["lessons"]] * bool(ls)
    if bad == "same" and k:
        # Another one in the directory of the first.
        k = r.choice(k)
        x = json.loads(json.dumps(k[0]))
        x["assets"], x["manifest"]["name"] = [], "Another"
        if "exercises" in x:
            x["exercises"] = []
        k.append(x)
        hit = True
    return [b], hit


def kb_files(g, c, d):
    """What Gen.kb has laid out, lesson by lesson."""
    out = {}
    for f in g.t.files:
        if len(f["dir"]) == len(d) + 1 and f["dir"][:len(d)] == d and f["dir"][-1].endswith(".lesson"):
            out.setdefault(f["dir"][-1][:-7], {})[f["name"]] = f
    return out


def kb_build(r, g, c, d, bad, simple):
    g.simple, g.build = simple, True
    j, m = g.t.unit("course", c, {}, d)
    if simple:
        for k in ("material", "instructions"):
            j.pop("course_" + k, None)
            m[k] = []
        g.t.files = [f for f in g.t.files if f["dir"][:len(d)] != d and f["dir"] != d[:-1]]
    m["name"] = j["name"] = g.mark("c", False)
    g.names |= {c}
    cfg, jc = g.kb(c, d, ["far::away"])
    j["generator_config"] = jc
    f = g.t.put(d, "course_manifest.json", "course", "", m)
    f["gen"] = cfg
    lessons = []
    dirs = [d]
    files = kb_files(g, c, d)
    for s, fs in files.items():
        ld = d + [s + ".lesson"]
        dirs.append(ld)
        val = lambda n, k: fs[n]["c"][k] if n in fs else None
        enc = [[x, w / 1000] for x, w in val("lesson.encompassed.json", "e") or []]
        meta = val("lesson.metadata.json", "m")
        b = {"short": s, "dependencies": val("lesson.dependencies.json", "l") or [], "superseded": val("lesson.superseded.json", "l") or [],
             "encompassed": enc, "name": val("lesson.name.json", "s"), "description": val("lesson.description.json", "s"),
             "metadata": dict(meta[0]) if meta else None, "type": val("lesson.default_exercise_type.json", "s"), "exercises": []}
        cards = [n[:-len(".front.md")] for n in fs if n.endswith(".front.md") and n != ".front.md"]
        for e in cards:
            x = {"short": e, "front": fs[e + ".front.md"]["text"], "back": fs[e + ".back.md"]["text"] if e + ".back.md" in fs else None,
                 "name": None, "description": None, "type": None}
            if e != "lesson":
                x["name"], x["description"] = val(e + ".name.json", "s"), val(e + ".description.json", "s")
            x["type"] = val(e + ".type.json", "s")
            x["assets"] = [[e + ".front.md", x["front"]]] + ([[e + ".back.md", x["back"]]] if x["back"] is not None else [])
            b["exercises"].append(x)
        mine = {f"{e}.{k}" for e in cards for k in ("front.md", "back.md", "name.json", "description.json", "type.json")}
        skip = lambda f: f["dir"] == ld and (f["name"] in mine or f["name"].startswith("lesson.") and f["name"].endswith(".json"))
        b["assets"] = assets_of(g, ld, [ld], skip)
        lessons.append(b)
    if not simple:
        b = {"kind": "kb", "dir": d, "manifest": j, "lessons": lessons, "assets": assets_of(g, d, dirs)}
        b["assets"] += [["../" + f["name"], f["text"]] for f in g.t.files if f["kind"] == "other" and f["dir"] == d[:-1]]
        hit = bad == "clash" and clash(r, [b["assets"]] + [x["assets"] for x in lessons] + [x["assets"] for y in lessons for x in y["exercises"]])
        if bad == "again":
            return [b, b], True
        if bad == "same" and lessons:
            lessons.append(dict(r.choice(lessons), exercises=[], assets=[], name="Another"))
            return [b], True
        return [b], hit
    js = {"manifest": j, "lessons": []}
    for b in lessons:
        l = {"short_id": b["short"]}
        for k, n in (("dependencies",) * 2, ("superseded",) * 2, ("encompassed",) * 2, ("metadata",) * 2, ("assets", "additional_files")):
            v = [{"file_name": a, "contents": t} for a, t in b[k]] if k == "assets" else b[k]
            if v or (k == "metadata" and v is not None) or r.random() < .2:
                l[n] = v
        l["exercises"] = []
        for x in b["exercises"]:
            e = {"short_id": x["short"], "front": x["front"].split("\n")}
            if x["back"] is not None:
                e["back"] = x["back"].split("\n")
            l["exercises"].append(e)
        js["lessons"].append(l)
    if r.random() < .3:
        e = [["far::away", 500], ["far::off", 250], ["other", 1000]][:r.randint(1, 3)]
        js["encompassed"] = [[x, w / 1000] for x, w in e]
        m["enc"] = e
    if r.random() < .3:
        # The manifest may name some as well; those of the course come in their place.
        e = [["far::away", 1000], ["far::over", 500]][r.randint(0, 1):]
        j["encompassed"] = [[x, w / 1000] for x, w in e]
        if "encompassed" not in js:
            m["enc"] = e
    out = [{"kind": "simple", "dir": d, "course": js}]
    hit = False
    if bad == "clash" and js["lessons"]:
        l = r.choice(js["lessons"])
        k = r.choice(["lesson", "exercise", "noname", "nolesson"])
        if k in ("exercise", "noname") and l["exercises"]:
            x = dict(r.choice(l["exercises"]))
            if k == "noname":
                x["short_id"] = ""
            l["exercises"].append(x)
            hit = True
        elif k in ("lesson", "nolesson"):
            js["lessons"].append(dict(l, short_id=l["short_id"] if k == "lesson" else "", exercises=[]))
            hit = True
    elif bad == "again" and js["lessons"]:
        # An older version of the course is in place: its lessons are replaced.
        old = json.loads(json.dumps(js))
        for l in old["lessons"]:
            for x in l["exercises"]:
                x["front"] = ["old"]
                if r.random() < .5:
                    x["short_id"] += "old"
                x["back"] = ["old"]
            l["additional_files"] = [{"file_name": n, "contents": "old"} for n in r.sample(["lesson.instructions.md", "lesson.material.md", "x.front.md"], 2)]
            l["dependencies"] = r.choice([[], ["old"]])
            l["metadata"] = {"old": ["x"]}
        out.insert(0, {"kind": "simple", "dir": d, "course": old})
    return out, hit


def builder_program(r, pid, kind, bad=None):
    g = Gen(r)
    c = r.choice(IDS)
    d = [sub(r) for _ in range(r.choice([1, 1, 2]))]
    build, hit = plain_build(r, g, c, d, bad) if kind == "plain" else kb_build(r, g, c, d, bad, kind == "simple")
    return finish(r, g, pid, build=build, clash=hit, twice=False)
