------------------------------ MODULE Library ------------------------------
(* What a directory contains as a library. A file is a record               *)
(*   dir  : the directory, a sequence of components below the root          *)
(*   name : the file name                                                   *)
(*   kind : course, lesson, exercise (a readable manifest m of that kind),  *)
(*          bad (cannot be read as a manifest), other                       *)
EXTENDS Graph

ManifestName == [course |-> "course_manifest.json", lesson |-> "lesson_manifest.json", exercise |-> "exercise_manifest.json"]

Below(d, e, n) == Len(e) = Len(d) + n /\ SubSeq(e, 1, Len(d)) = d
Within(d, e) == Len(d) <= Len(e) /\ SubSeq(e, 1, Len(d)) = d
PathOf(f) == Append(f.dir, f.name)

(* The manifests that make up the library: every course manifest below the  *)
(* root that is not ignored, those of lessons one directory below a course, *)
(* those of exercises one directory below a lesson.                         *)
CourseFiles(fs, ignored) ==
  {f \in fs : f.name = ManifestName.course /\ f.dir /= <<>> /\ ~\E i \in DOMAIN ignored : Within(ignored[i], PathOf(f))}
LessonFiles(fs, c) == {f \in fs : f.name = ManifestName.lesson /\ Below(c.dir, f.dir, 1)}
ExerciseFiles(fs, l) == {f \in fs : f.name = ManifestName.exercise /\ Below(l.dir, f.dir, 1)}

(* ---- paths mentioned in a manifest ------------------------------------- *)
RECURSIVE Walk(_, _)
Walk(d, p) ==
  IF p = <<>> THEN d
  ELSE CASE Head(p) = "/" -> Walk(<<>>, Tail(p))
         [] Head(p) = "." -> Walk(d, Tail(p))
         [] Head(p) = ".." -> Walk(SubSeq(d, 1, Len(d) - 1), Tail(p))
         [] OTHER -> Walk(Append(d, Head(p)), Tail(p))
AssetsOf(f) ==
  IF f.kind = "exercise" THEN f.m.asset ELSE f.m.material \o f.m.instructions
Exists(fs, f, a) == \A i \in DOMAIN a.p : \E g \in fs : PathOf(g) = Walk(f.dir, a.p[i])
Resolved(f, as) == [i \in DOMAIN as |-> [as[i] EXCEPT !.p = [k \in DOMAIN @ |-> Walk(f.dir, @[k])]]]
Loaded(f) ==
  IF f.kind = "exercise" THEN [f.m EXCEPT !.asset = Resolved(f, @)]
  ELSE [f.m EXCEPT !.material = Resolved(f, @), !.instructions = Resolved(f, @)]

(* ---- the whole library ------------------------------------------------- *)
Opening(fs, ignored) ==
  LET cs == CourseFiles(fs, ignored)
      ls == UNION {{<<c, l>> : l \in LessonFiles(fs, c)} : c \in cs}
      es == UNION {{<<x[1], x[2], e>> : e \in ExerciseFiles(fs, x[2])} : x \in ls}
  IN [cs |-> TLCEval(cs), ls |-> TLCEval(ls), es |-> TLCEval(es)]

Readable(o) ==
  /\ \A c \in o.cs : c.kind = "course"
  /\ \A x \in o.ls : x[2].kind = "lesson"
  /\ \A x \in o.es : x[3].kind = "exercise"
Consistent(o) ==
  /\ \A c \in o.cs : c.m.id /= ""
  /\ \A x \in o.ls : x[2].m.id /= "" /\ x[2].m.course = x[1].m.id
  /\ \A x \in o.es : x[3].m.id /= "" /\ x[3].m.lesson = x[2].m.id /\ x[3].m.course = x[1].m.id
FilesOf(o) == o.cs \cup {x[2] : x \in o.ls} \cup {x[3] : x \in o.es}
AssetsPresent(fs, o) ==
  \A f \in FilesOf(o) : LET as == AssetsOf(f) IN \A i \in DOMAIN as : Exists(fs, f, as[i])
(* Every loaded manifest declares a unit of its own. (A manifest may be     *)
(* reached as part of two nested courses; then it is declared twice.)       *)
Declared(o) == [n |-> Cardinality(o.cs) + Cardinality(o.ls) + Cardinality(o.es),
                ids |-> {f.m.id : f \in FilesOf(o)}]
Distinct(o) == Cardinality(Declared(o).ids) = Declared(o).n
Relations(o) ==
  /\ \A f \in o.cs \cup {x[2] : x \in o.ls} :
       /\ f.m.id \notin Rng(f.m.deps)
       /\ \A i \in DOMAIN f.m.enc : f.m.enc[i][2] \in 0..1000

GraphOf(o, U) ==
  LET up == o.cs \cup {x[2] : x \in o.ls}
      typ == [u \in U |-> IF u \in {f.m.id : f \in o.cs} THEN "course"
                          ELSE IF u \in {x[2].m.id : x \in o.ls} THEN "lesson"
                          ELSE IF u \in {x[3].m.id : x \in o.es} THEN "exercise" ELSE "none"]
      par == [u \in U |-> CASE typ[u] = "lesson" -> (CHOOSE x \in o.ls : x[2].m.id = u)[1].m.id
                            [] typ[u] = "exercise" -> (CHOOSE x \in o.es : x[3].m.id = u)[2].m.id
                            [] OTHER -> "none"]
  IN [type |-> TLCEval(typ), parent |-> TLCEval(par),
      deps |-> UNION {{<<f.m.id, v>> : v \in Rng(f.m.deps)} : f \in up},
      sup |-> UNION {{<<f.m.id, v>> : v \in Rng(f.m.sup)} : f \in up},
      enc |-> UNION {{<<f.m.id, p[1], p[2]>> : p \in FullEnc(f.m.deps, f.m.enc)} : f \in up}]

Openable(fs, o, U) ==
  /\ Readable(o) /\ AssetsPresent(fs, o) /\ Consistent(o) /\ Distinct(o) /\ Relations(o)
  /\ ~Cyclic(GraphOf(o, U))
=============================================================================
