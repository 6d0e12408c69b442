----------------------------- MODULE Generators -----------------------------
(* The courses whose lessons and exercises are generated when the library   *)
(* is opened. The file of such a course carries the configuration `gen`;    *)
(* other files may carry what they contain, `c`:                            *)
(*   ok : it can be read    s : a text or string      l : list of strings   *)
(*   e  : list of <<id, weight>>      m : metadata (none or one)            *)
(*   a  : list of <<text, none or one answer>>        p : one passage       *)
(* A generated unit is a file that is not there: `m` is its manifest as far *)
(* as it is determined, `want` what its texts have to say.                  *)
EXTENDS Library, SequencesExt

EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, (Len(s) - Len(x)) + 1, Len(s)) = x
Stem(s, x) == SubSeq(s, 1, Len(s) - Len(x))
In(fs, d) == {f \in fs : f.dir = d}
Has(fs, d, n) == \E f \in fs : f.dir = d /\ f.name = n
The(fs, d, n) == CHOOSE f \in fs : f.dir = d /\ f.name = n
List(fs, d, n) == IF Has(fs, d, n) THEN The(fs, d, n).c.l ELSE <<>>
Pairs(fs, d, n) == IF Has(fs, d, n) THEN The(fs, d, n).c.e ELSE <<>>
Opt(fs, d, n) == IF Has(fs, d, n) THEN <<The(fs, d, n).c.s>> ELSE <<>>
Generated(c) == "gen" \in DOMAIN c

(* What a name or a description must be, or must mention.                   *)
Exactly(s) == [is |-> <<s>>, has |-> {}]
Mentioning(S) == [is |-> <<>>, has |-> S]
Md(n) == [t |-> "md", x |-> <<>>, p |-> <<<<n>>>>]

(* desc: the description, if it is determined; instr: "any" if some         *)
(* instructions must be given, otherwise they are those of m; text: the     *)
(* marked words that the asset of an exercise mentions, if it is a text.    *)
GenLesson(c, dir, id, deps, sup, enc, meta, material, instructions, name, desc, instr) ==
  [kind |-> "lesson", name |-> "", dir |-> dir,
   m |-> [id |-> id, course |-> c.m.id, deps |-> deps, sup |-> sup, enc |-> enc, meta |-> meta,
          material |-> material, instructions |-> instructions],
   want |-> [name |-> name, desc |-> desc, instr |-> instr]]
GenExercise(l, id, type, asset, name, desc, text, ex, exc) ==
  [kind |-> "exercise", name |-> "", dir |-> l.dir,
   m |-> [id |-> id, course |-> l.m.course, lesson |-> l.m.id, type |-> type, asset |-> <<asset>>],
   want |-> [name |-> name, desc |-> desc, text |-> text, ex |-> ex, exc |-> exc]]
NoText == [some |-> FALSE, v |-> {}]
Text(S) == [some |-> TRUE, v |-> S]

(* ---- a piece of music: a lesson for every passage ----------------------- *)
RECURSIVE Nodes(_, _)
Nodes(id, n) == {<<id, n>>} \cup UNION {Nodes(id \o "::" \o n.subs[i][1], n.subs[i][2]) : i \in DOMAIN n.subs}
Music(c) ==
  LET g == c.gen
      lesson(x) == GenLesson(c, c.dir, x[1], [i \in DOMAIN x[2].subs |-> x[1] \o "::" \o x[2].subs[i][1]], <<>>, <<>>, <<>>, <<>>, <<>>,
                             Mentioning({c.m.name}), <<<<>>>>, "")
      asset == IF g.link # <<>> THEN [t |-> "slice", x |-> g.link, p |-> <<>>] ELSE [t |-> "inline", x |-> <<>>, p |-> <<>>]
      ex(x) == GenExercise(lesson(x), x[1] \o "::exercise", "Procedural", asset, Mentioning({c.m.name}), <<<<>>>>,
                           Text({x[2].start, x[2].end} \cup Rng(g.path)), <<>>, <<>>)
      ns == Nodes(c.m.id \o "::0", g.passages)
  IN {<<lesson(x), {ex(x)}>> : x \in ns}

(* ---- lessons in directories --------------------------------------------- *)
LessonSuffix == ".lesson"
(* A component that starts with an exclamation mark stands for a name that  *)
(* is not text, which names no lesson.                                      *)
IsText(n) == n = "" \/ SubSeq(n, 1, 1) /= "!"
ShortIds(fs, c) ==
  {Stem(f.dir[Len(c.dir) + 1], LessonSuffix) :
     f \in {g \in fs : Len(g.dir) > Len(c.dir) /\ Within(c.dir, g.dir) /\ IsText(g.dir[Len(c.dir) + 1]) /\ EndsWith(g.dir[Len(c.dir) + 1], LessonSuffix)}}
LessonDir(c, s) == Append(c.dir, s \o LessonSuffix)

(* ---- a knowledge base: a lesson for every directory, an exercise for     *)
(* every front of a card                                                    *)
KbValues == {"lesson.dependencies.json", "lesson.superseded.json", "lesson.encompassed.json", "lesson.name.json",
             "lesson.description.json", "lesson.metadata.json", "lesson.default_exercise_type.json"}
KbCards(fs, d) == {Stem(f.name, ".front.md") : f \in {g \in In(fs, d) : EndsWith(g.name, ".front.md")}} \ {""}
(* The file lesson.name.json names the lesson, whatever its exercises.      *)
KbFile(fs, d, s, x) == IF (s \o x) \in KbValues THEN <<>> ELSE Opt(fs, d, s \o x)
KbLesson(fs, c, s, shorts) ==
  LET d == LessonDir(c, s)
      full(u) == IF u \in shorts THEN c.m.id \o "::" \o u ELSE u
      map(q) == [i \in DOMAIN q |-> full(q[i])]
      pairs == Pairs(fs, d, "lesson.encompassed.json")
      name == Opt(fs, d, "lesson.name.json")
      kind == Opt(fs, d, "lesson.default_exercise_type.json")
      l == GenLesson(c, d, c.m.id \o "::" \o s, map(List(fs, d, "lesson.dependencies.json")), map(List(fs, d, "lesson.superseded.json")),
                     [i \in DOMAIN pairs |-> <<full(pairs[i][1]), pairs[i][2]>>],
                     IF Has(fs, d, "lesson.metadata.json") THEN The(fs, d, "lesson.metadata.json").c.m ELSE <<>>,
                     IF Has(fs, d, "lesson.material.md") THEN <<Md("lesson.material.md")>> ELSE <<>>,
                     IF Has(fs, d, "lesson.instructions.md") THEN <<Md("lesson.instructions.md")>> ELSE <<>>,
                     IF name = <<>> THEN Mentioning({s}) ELSE Exactly(name[1]), <<Opt(fs, d, "lesson.description.json")>>, "")
      ex(e) ==
        LET back == KbFile(fs, d, e, ".back.md")
            n == KbFile(fs, d, e, ".name.json")
            t == KbFile(fs, d, e, ".type.json") \o kind \o <<"Procedural">>
            asset == IF c.gen.inlined THEN [t |-> "iflash", x |-> <<The(fs, d, e \o ".front.md").c.s>> \o back, p |-> <<>>]
                     ELSE [t |-> "flash", x |-> <<>>, p |-> <<<<e \o ".front.md">>>> \o (IF back = <<>> THEN <<>> ELSE <<<<e \o ".back.md">>>>)]
        IN GenExercise(l, l.m.id \o "::" \o e, t[1], asset, IF n = <<>> THEN Mentioning({e}) ELSE Exactly(n[1]),
                       <<KbFile(fs, d, e, ".description.json")>>, NoText, <<>>, <<>>)
  IN <<l, {ex(e) : e \in KbCards(fs, d)}>>
Kb(fs, c) == LET shorts == ShortIds(fs, c) IN {KbLesson(fs, c, s, shorts) : s \in shorts}
KbReadable(fs, c) ==
  \A s \in ShortIds(fs, c) :
    LET d == LessonDir(c, s)
    IN \A f \in In(fs, d) : (f.name \in KbValues \/ \E e \in KbCards(fs, d) : f.name \in {e \o ".name.json", e \o ".description.json", e \o ".type.json"}) => f.c.ok

(* ---- literacy: reading, and dictation if it is asked for ----------------- *)
Answered(fs, d, suffix, answers) ==
  LET es == {f \in In(fs, d) : EndsWith(f.name, suffix)}
  IN SetToSeq({<<f.name, <<f.c.s, Opt(fs, d, Stem(f.name, suffix) \o answers)>>>> : f \in es})
Lines(fs, d, n) == LET q == List(fs, d, n) IN [i \in DOMAIN q |-> <<q[i], <<>>>>]
Listed(fs, d, n) == IF Has(fs, d, n) THEN The(fs, d, n).c.a ELSE <<>>
Seconds(q) == [i \in DOMAIN q |-> q[i][2]]
Examples(fs, d) == Seconds(Answered(fs, d, ".example.md", ".answer.md")) \o Lines(fs, d, "simple_examples.md") \o Listed(fs, d, "simple_examples_with_answers.yaml")
Exceptions(fs, d) == Seconds(Answered(fs, d, ".exception.md", ".exception_answer.md")) \o Lines(fs, d, "simple_exceptions.md") \o Listed(fs, d, "simple_exceptions_with_answers.yaml")
LiteracyLesson(fs, c, s, shorts, what) ==
  LET d == LessonDir(c, s)
      of(u) == IF u \in shorts THEN c.m.id \o "::" \o u \o "::" \o what ELSE u
      map(q) == [i \in DOMAIN q |-> of(q[i])]
      deps == List(fs, d, "lesson.dependencies.json")
      pairs == Pairs(fs, d, "lesson.encompassed.json")
      name == Mentioning({IF c.m.name = "" THEN c.m.id ELSE c.m.name} \cup
                         (IF Has(fs, d, "lesson.name.json") THEN Rng(Opt(fs, d, "lesson.name.json")) ELSE {s}))
      desc == <<Opt(fs, d, "lesson.description.json")>>
      l == GenLesson(c, c.dir, of(s),
                     IF what = "reading" THEN map(deps) ELSE map(SelectSeq(deps, LAMBDA u : u \in shorts)) \o <<c.m.id \o "::" \o s \o "::reading">>,
                     map(List(fs, d, "lesson.superseded.json")), [i \in DOMAIN pairs |-> <<of(pairs[i][1]), pairs[i][2]>>],
                     <<<<<<"literacy_lesson", <<what>>>>>>>>, <<>>,
                     IF Has(fs, d, "lesson.instructions.md") THEN <<[t |-> "inline", x |-> <<The(fs, d, "lesson.instructions.md").c.s>>, p |-> <<>>]>> ELSE <<>>,
                     name, desc, "")
      ex == GenExercise(l, l.m.id \o "::exercise", "Procedural",
                        [t |-> "literacy", x |-> <<IF what = "reading" THEN "Reading" ELSE "Dictation">>, p |-> <<>>],
                        name, desc, NoText, Examples(fs, d), Exceptions(fs, d))
  IN <<l, {ex}>>
Literacy(fs, c) ==
  LET shorts == ShortIds(fs, c) \ {""}
  IN {LiteracyLesson(fs, c, s, shorts, what) : s \in shorts, what \in {"reading"} \cup (IF c.gen.dictation THEN {"dictation"} ELSE {})}
LiteracyValues == {"lesson.dependencies.json", "lesson.superseded.json", "lesson.encompassed.json", "lesson.name.json", "lesson.description.json",
                   "simple_examples_with_answers.yaml", "simple_exceptions_with_answers.yaml"}
LiteracyReadable(fs, c) ==
  \A s \in ShortIds(fs, c) \ {""} : \A f \in In(fs, LessonDir(c, s)) : f.name \in LiteracyValues => f.c.ok

(* ---- transcription: singing, then every instrument ----------------------- *)
PassageFiles(fs, c) ==
  IF c.gen.dir = <<>> THEN {}
  ELSE {f \in In(fs, Walk(c.dir, c.gen.dir)) : \E x \in {".json", ".JSON", ".Json"} : EndsWith(f.name, x)}
PassageDir(fs, c) == c.gen.dir = <<>> \/ \E f \in fs : Within(Walk(c.dir, c.gen.dir), f.dir)
Passages(fs, c) == Rng([i \in DOMAIN c.gen.inl |-> c.gen.inl[i]]) \cup {f.c.p[1] : f \in PassageFiles(fs, c)}
TranscriptionReadable(fs, c) ==
  LET ps == PassageFiles(fs, c)
  IN /\ PassageDir(fs, c) /\ \A f \in ps : f.c.ok
     /\ \A f, h \in ps : f # h => f.c.p[1].short # h.c.p[1].short
TranscriptionLesson(c, ps, id, deps, sup, meta, marks, skip) ==
  LET l == GenLesson(c, c.dir, id, deps, sup, <<>>, meta, <<>>, <<>>, Mentioning({c.m.name} \cup marks), <<>>, "any")
      ids(p) == IF p.iv = <<>> THEN {<<id \o "::" \o p.short, {}>>}
                ELSE {<<id \o "::" \o p.short \o "::" \o p.iv[i][1], {p.iv[i][2], p.iv[i][3]}>> : i \in DOMAIN p.iv}
      exs(p) == {GenExercise(l, x[1], "Procedural", [t |-> "trans", x |-> p.link, p |-> <<>>], Mentioning({c.m.name} \cup marks), <<<<>>>>,
                             Text(Rng(p.marks) \cup Rng(p.link) \cup x[2] \cup marks), <<>>, <<>>) : x \in ids(p)}
  IN <<l, IF skip THEN {} ELSE UNION {exs(p) : p \in ps}>>
Transcription(fs, c, instr) ==
  LET ps == Passages(fs, c)
      g == c.gen
      id == c.m.id
      meta(what, i) == <<<<<<"instrument", <<i>>>>, <<"transcription_lesson", <<what>>>>>>>>
      deps(suffix) == [k \in DOMAIN g.deps |-> g.deps[k] \o suffix]
      T(i) == "::transcription::" \o i.id
      singing == TranscriptionLesson(c, ps, id \o "::singing", deps("::singing"), <<>>, meta("singing", "voice"), {}, g.skip_singing)
      advsinging == TranscriptionLesson(c, ps, id \o "::advanced_singing", <<id \o "::singing">>, <<id \o "::singing">>,
                                        meta("advanced_singing", "voice"), {}, g.skip_singing)
      transcr(i) == TranscriptionLesson(c, ps, id \o T(i), deps(T(i)) \o <<id \o "::singing">>, <<>>, meta("transcription", i.id), {i.name}, FALSE)
      advtranscr(i) == TranscriptionLesson(c, ps, id \o "::advanced_transcription::" \o i.id, <<id \o T(i), id \o "::advanced_singing">>, <<id \o T(i)>>,
                                           meta("advanced_transcription", i.id), {i.name}, FALSE)
  IN {singing} \cup {transcr(instr[k]) : k \in DOMAIN instr} \cup
     (IF g.skip_advanced THEN {} ELSE {advsinging} \cup {advtranscr(instr[k]) : k \in DOMAIN instr})
(* Units that would be generated more than once.                            *)
TranscriptionTwice(fs, c, instr) ==
  \/ \E i, j \in DOMAIN instr : i < j /\ instr[i].id = instr[j].id
  \/ (~c.gen.skip_singing \/ instr # <<>>) /\
     LET q == c.gen.inl
         keys(p) == IF p.iv = <<>> THEN {p.short} ELSE {p.short \o "::" \o p.iv[i][1] : i \in DOMAIN p.iv}
     IN \/ \E i, j \in DOMAIN q : i < j /\ keys(q[i]) \cap keys(q[j]) # {}
        \/ \E i \in DOMAIN q : \E f \in PassageFiles(fs, c) : keys(q[i]) \cap keys(f.c.p[1]) # {}

(* ---- the library with what is generated ---------------------------------- *)
Units(fs, c, instr) ==
  CASE c.gen.t = "music" -> Music(c)
    [] c.gen.t = "kb" -> Kb(fs, c)
    [] c.gen.t = "literacy" -> Literacy(fs, c)
    [] c.gen.t = "transcription" -> Transcription(fs, c, instr)
GenReadable(fs, c) ==
  CASE c.gen.t = "kb" -> KbReadable(fs, c)
    [] c.gen.t = "literacy" -> LiteracyReadable(fs, c)
    [] c.gen.t = "transcription" -> TranscriptionReadable(fs, c)
    [] OTHER -> TRUE
Generators(o) == {c \in o.cs : c.kind = "course" /\ Generated(c)}
AllReadable(fs, o) == Readable(o) /\ \A c \in Generators(o) : GenReadable(fs, c)
OpeningAll(fs, ignored, instr) ==
  LET o == Opening(fs, ignored)
      ok == {c \in Generators(o) : GenReadable(fs, c)}
      us == UNION {{<<c, x[1], x[2]>> : x \in Units(fs, c, instr)} : c \in ok}
  IN [cs |-> o.cs, ls |-> TLCEval(o.ls \cup {<<x[1], x[2]>> : x \in us}),
      es |-> TLCEval(o.es \cup UNION {{<<x[1], x[2], e>> : e \in x[3]} : x \in us})]
OpenableAll(fs, o, U, instr) ==
  /\ AllReadable(fs, o) /\ AssetsPresent(fs, o) /\ Consistent(o)
  /\ \A c \in Generators(o) : c.gen.t = "transcription" => ~TranscriptionTwice(fs, c, instr)
  /\ Distinct(o) /\ Relations(o) /\ ~Cyclic(GraphOf(o, U))

(* The course itself, as loaded.                                            *)
Meta(m) == IF m = <<>> THEN [k \in {} |-> <<>>] ELSE [k \in {m[1][i][1] : i \in DOMAIN m[1]} |-> (CHOOSE e \in Rng(m[1]) : e[1] = k)[2]]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
CourseMeta(fs, c) ==
  LET old == Meta(c.m.meta)
      put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
      ps == SetToSeq({f.c.p[1] : f \in PassageFiles(fs, c)}) \o c.gen.inl
      all(field) == FlattenSeq([i \in DOMAIN ps |-> ps[i][field]])
      more(f, k, q) == IF q = <<>> THEN f ELSE put(f, k, At(f, k) \o q)
  IN CASE c.gen.t = "literacy" -> put(old, "literacy_course", <<"true">>)
       [] c.gen.t = "transcription" ->
            more(more(put(old, "transcription_course", <<"true">>), "transcription_artist", all("artist")), "transcription_album", all("album"))
       [] OTHER -> old
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
SameMeta(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : SameBag(f[k], g[k])
CourseMatches(fs, c, got) ==
  LET w == Loaded(c)
      own == Opt(fs, c.dir, "course.instructions.md")
  IN /\ [got EXCEPT !.meta = <<>>, !.instructions = <<>>] = [w EXCEPT !.meta = <<>>, !.instructions = <<>>]
     /\ SameMeta(Meta(got.meta), CourseMeta(fs, c))
     /\ CASE c.gen.t = "literacy" /\ own # <<>> -> got.instructions = <<[t |-> "inline", x |-> own, p |-> <<>>]>>
          [] c.gen.t = "transcription" /\ w.instructions = <<>> -> Len(got.instructions) = 1
          [] OTHER -> got.instructions = w.instructions

(* A generated unit as loaded; mk: the marked words found in its texts.     *)
Says(w, got, found) == IF w.is # <<>> THEN got = w.is[1] ELSE w.has \subseteq Rng(found)
LessonMatches(f, got, mk) ==
  /\ got.id = f.m.id /\ got.course = f.m.course
  /\ Rng(got.deps) = Rng(f.m.deps) /\ Rng(got.sup) = Rng(f.m.sup) /\ PairsOf(got.enc) = PairsOf(f.m.enc)
  /\ SameMeta(Meta(got.meta), Meta(f.m.meta)) /\ (got.meta = <<>>) = (f.m.meta = <<>>)
  /\ got.material = Resolved(f, f.m.material)
  /\ IF f.want.instr = "any" THEN Len(got.instructions) = 1 ELSE got.instructions = Resolved(f, f.m.instructions)
  /\ Says(f.want.name, got.name, mk.name)
  /\ f.want.desc = <<>> \/ got.desc = f.want.desc[1]
ExerciseMatches(f, got, mk) ==
  /\ got.id = f.m.id /\ got.course = f.m.course /\ got.lesson = f.m.lesson /\ got.type = f.m.type
  /\ Says(f.want.name, got.name, mk.name)
  /\ f.want.desc = <<>> \/ got.desc = f.want.desc[1]
  /\ LET a == Resolved(f, f.m.asset)[1]
         b == got.asset[1]
     IN /\ a.t = b.t /\ a.p = b.p
        /\ CASE a.t = "literacy" -> b.x[1] = a.x[1] /\ SameBag(mk.ex, f.want.ex) /\ SameBag(mk.exc, f.want.exc)
             [] f.want.text.some -> Rng(mk.text) = f.want.text.v /\ Rng(a.x) \subseteq Rng(b.x)
             [] OTHER -> a.x = b.x
=============================================================================
