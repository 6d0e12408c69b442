#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Nothing is scheduled before its prerequisites are mastered",
 "Every exercise in a batch requested without a filter, other than one queued for relearning, belongs to a lesson all of whose existing prerequisites (its own and those of its course) are satisfied: each is blacklisted, superseded, without any scored exercise, or has reached the passing score with the required average number of trials. This holds whatever mixture of missing dependencies, empty courses and blacklisted units lies between.",
 ["inputs", "histories", "configurations"],
 "All acyclic course libraries (courses, lessons, exercises, dependency edges on courses or lessons, dangling edges), all practice histories, blacklists and passing options.",
 "The tests walk a handful of hand-built libraries with a simulated student and check a few batches; the claim ranges over every graph shape and every history, and depends on the order-independent result of a search over both.",
 ["src/scheduler.rs", "src/scheduler/data.rs", "src/graph.rs"],
 [("all dependencies satisfied test", "src/scheduler.rs: all_satisfied_dependencies / get_valid_dependents"), ("starting stack", "src/scheduler.rs: get_initial_stack"), ("search", "src/scheduler.rs: get_candidates_from_graph")],
 [("unit graph", "dependency relations between units", "src/graph.rs"), ("exercise trials", "scores and times of past trials", "src/practice_stats.rs")],
 ["get_exercise_batch"])
prop("C02", "Every unlocked exercise is in the pool and nothing reachable is starved",
 "Without a filter, the pool a batch is drawn from contains every valid exercise of every lesson that is unlocked from the starting units through satisfied prerequisites, up to the documented limits on candidates and on lessons in progress. Consequently a student who keeps mastering what is scheduled is eventually offered every exercise that is not blacklisted or superseded, and a batch is never empty while the pool is not.",
 ["inputs", "histories", "configurations"],
 "All acyclic libraries, blacklists, and histories, including the history of a student who always gets the top grade.",
 "The tests simulate students on a few libraries; starvation appears only with specific combinations of missing units, empty lessons, intra-course and cross-course dependencies.",
 ["src/scheduler.rs", "src/scheduler/data.rs", "src/graph.rs"],
 [("starting units", "src/graph.rs: update_starting_lessons, get_dependency_sinks"), ("search", "src/scheduler.rs: get_candidates_from_graph"), ("course unlocks when all its lessons were visited", "src/scheduler.rs")],
 None, ["get_exercise_batch"])
prop("C03", "Blacklisted units are never scheduled and never block what depends on them",
 "No exercise that is blacklisted, or whose lesson or course is blacklisted, is ever returned in a batch, whichever filter, review list, study session or relearning queue produced it. A blacklisted lesson or course counts as satisfied for everything that depends on it, and removing the entry makes it behave as if it had never been added.",
 ["inputs", "histories", "configurations"],
 "All libraries, all sequences of adding and removing blacklist entries (single or by prefix) interleaved with practice and batches, all filters.",
 "The tests check blacklisting one unit at a time and mostly on fresh schedulers; the claim covers sequences in which caches, queues and filters were populated before the entry was added or removed.",
 ["src/scheduler.rs", "src/scheduler/data.rs", "src/blacklist.rs", "src/scheduler/relearn_pile.rs"],
 [("validity test", "src/scheduler/data.rs: blacklisted / all_valid_exercises"), ("satisfied test", "src/scheduler.rs: satisfied_dependency"), ("invalidation on blacklist change", "src/lib.rs: impl Blacklist for Trane")],
 None, ["get_exercise_batch", "get_unit_score"])
prop("C04", "A filtered batch stays inside the filter and still respects progression",
 "A batch requested with a filter contains only exercises the filter selects (the listed courses, the listed lessons, the units matching the metadata filter, the transitive dependents or the dependencies down to the depth of the listed units, or the review list), apart from exercises queued for relearning. Every valid selected exercise that the same progression rules unlock, with units outside a metadata filter bridged to their own dependencies, is in the pool.",
 ["inputs", "histories", "configurations"],
 "All filters of every kind over all libraries, histories and blacklists.",
 "The tests exercise each filter kind on one or two libraries with hand-chosen units; bridging over units outside the filter depends on arbitrary graph shapes.",
 ["src/scheduler.rs", "src/scheduler/data.rs", "src/data/filter.rs"],
 [("filtered searches", "src/scheduler.rs: get_candidates_from_course / _from_review_list / _from_graph with a metadata filter"), ("bridging", "src/scheduler.rs: resolve_effective_dependencies"), ("dependencies at depth", "src/scheduler/data.rs: get_dependencies_at_depth")],
 None, ["get_exercise_batch"])
prop("C05", "Batches are well formed",
 "Every batch lists each exercise at most once, every item is an exercise of the open library with the manifest stored for it, and the batch holds at most the configured number of exercises plus the relearning allowance and one per mastery window of rounding. A batch is produced for every library that opens, every history and every valid filter, without a panic or an error.",
 ["inputs", "histories", "configurations"],
 "All libraries, histories, filters, review lists with overlapping or repeated entries, and valid options including very small batch sizes.",
 "The tests look at a few batches of the default size from well-behaved inputs; duplicates arise from overlapping review entries, repeated filter ids and the remainder passes.",
 ["src/scheduler.rs", "src/scheduler/filter.rs", "src/scheduler/relearn_pile.rs"],
 [("window selection and remainder", "src/scheduler/filter.rs: CandidateFilter"), ("review list collection", "src/scheduler.rs: get_candidates_from_review_list"), ("relearn merge", "src/scheduler.rs: get_exercise_batch")],
 None, ["get_exercise_batch"])
prop("C06", "Superseded units are replaced exactly while the superseding units are mastered",
 "While every scored unit that supersedes a unit has at least the superseding score and all the valid exercises of the superseded unit have been attempted, the superseded unit's exercises are not scheduled, it has no score of its own, and what depends on it is unlocked as if it were satisfied. In every other situation superseding has no effect on it.",
 ["inputs", "histories", "configurations"],
 "All superseding relations between lessons and courses (chains, several superseding units, missing units), all histories that cross the superseding score in either direction, and blacklist changes.",
 "The tests check two libraries of superseding units with fixed scores; the claim concerns histories that cross the thresholds repeatedly and superseding chains.",
 ["src/scheduler/unit_scorer.rs", "src/scheduler.rs", "src/graph.rs"],
 [("superseded test", "src/scheduler/unit_scorer.rs: is_superseded, get_superseding_recursive"), ("use in the search", "src/scheduler.rs: get_candidates_from_graph, satisfied_dependency")],
 None, ["get_exercise_batch", "get_unit_score"])
prop("C07", "Reported scores always reflect the current history, never a stale cache",
 "After any sequence of scoring, blacklisting, un-blacklisting, trimming, prefix removal, reward propagation, option changes and cache invalidation requests through the public interface, the score and trial count reported or used for any unit equal those a freshly opened instance computes from the same stored data. The same holds for which units count as superseded.",
 ["histories", "configurations"],
 "All interleavings of mutating operations and score reads over all libraries.",
 "The tests invalidate a few hand-picked units; stale values need a read, then a particular mutation of a related unit, then another read.",
 ["src/scheduler/unit_scorer.rs", "src/scheduler.rs", "src/lib.rs"],
 [("score caches and their invalidation", "src/scheduler/unit_scorer.rs: invalidate_cached_score(s)"), ("callers", "src/lib.rs: Blacklist / PracticeStats impls; src/scheduler.rs: score_exercise")],
 [("score caches", "cached exercise, lesson and course scores", "src/scheduler/unit_scorer.rs")],
 ["get_unit_score", "get_exercise_batch"])
prop("C08", "Lesson and course scores aggregate their exercises as documented",
 "The score of a lesson is the mean of the scores of its non-blacklisted exercises and the score of a course is the mean of the scores of its lessons that have one; blacklisted, superseded and empty units have no score and unattempted exercises count as zero. All scores lie between 0 and 5, and asking for the score of an unknown unit is an error.",
 ["inputs", "histories"],
 "All libraries, blacklists, superseding relations and histories.",
 "The tests compute a few averages by hand on fixed libraries.",
 ["src/scheduler/unit_scorer.rs", "src/scheduler.rs"],
 [("aggregation", "src/scheduler/unit_scorer.rs: get_lesson_score, get_course_score, get_unit_score")],
 None, ["get_unit_score"])
prop("C09", "The exercise score obeys the laws of spaced repetition",
 "The score computed from an exercise's history is 0 without trials and otherwise between 0 and 5; right after a trial it lies between the worst and the best grade of the history; the urgency of forgetting stays within 0 and 1. With the same history, waiting longer never lowers the urgency and never raises the score, except up to three quarters of the mean grade, the documented floor below which an exercise with at least two trials and a mean of at least 4 never falls once it is old (50 days). A better last grade within the same class (failing 1-2, passing 3-5) never lowers the score; extending a history of only passing grades (three or more trials) by further good grades never makes it forgotten faster; good grades at least a day apart make an exercise forgotten clearly slower than a single trial would, failing ones clearly faster, and repeating an exercise at the same moment with a grade of the same class changes nothing about how fast it is forgotten; an exercise tried once has a retrievability of 90% after a day, and from the point where a declarative exercise falls to 90%, a procedural one with the same history (one trial, or no successful review) is not forgotten faster. Moving the whole history in time together with the current time changes nothing. Score deltas of one sign move the score only in that direction, and fewer than two have no effect. The velocity of a history that only improves (worsens) is positive (negative). Histories that are not in descending time order are rejected.",
 ["inputs"],
 "All trial sequences (grades 1 to 5, any spacing, up to the fetched number), all delta sequences, both exercise types, any current time.",
 "The tests compare a few dozen concrete values; monotonicity and ranges relate pairs of histories.",
 ["src/exercise_scorer.rs"],
 [("power law scorer", "src/exercise_scorer.rs: PowerLawScorer")],
 None, ["ExerciseScorer::score", "get_unit_score"])
prop("C10", "The practice history is stored and returned faithfully",
 "For each exercise the stored history returns exactly the most recent recorded trials, newest first, up to the requested number, across any interleaving with other exercises and across restarts. Trimming keeps exactly the most recent requested number per exercise and prefix removal deletes exactly the entries whose unit identifier starts with the given text; scoring an exercise adds exactly that trial and, if the exercise had been attempted before, one score delta (the grade minus the score reported before it); nothing else ever changes the history.",
 ["inputs", "histories"],
 "All interleavings of record, read, trim, prefix-remove and reopen over arbitrary identifiers, equal or out-of-order timestamps, and the same for score deltas.",
 "The tests insert a few rows with distinct timestamps and plain identifiers.",
 ["src/practice_stats.rs", "src/practice_deltas.rs"],
 [("trial store", "src/practice_stats.rs: LocalPracticeStats"), ("delta store", "src/practice_deltas.rs: LocalPracticeDeltas")],
 [("practice_stats.db", "trials per unit", "src/practice_stats.rs"), ("practice_deltas.db", "score deltas per unit", "src/practice_deltas.rs")],
 ["get_scores", "get_deltas", "trim_scores", "trim_deltas", "remove_scores_with_prefix", "remove_deltas_with_prefix"])
prop("C11", "Stored rewards are deduplicated, capped and removed exactly as documented",
 "Rewards are returned newest first up to the requested number; a reward is refused only if a reward with the same value and nearly the same weight was recorded for that unit less than a day apart and has not been trimmed or removed since, and every other reward is stored. At most the documented number per unit is kept (the newest), trimming and prefix removal delete exactly what they describe, and the set of units reported as updated is exactly the set for which a reward was stored.",
 ["inputs", "histories"],
 "All interleavings of recording sets of rewards, reading, trimming, prefix removal and reopening, with arbitrary identifiers, values, weights and times.",
 "The tests record a few rewards for two units; the cache of recent rewards and the database can diverge only after particular sequences of removal, trim, failure or reopening.",
 ["src/practice_rewards.rs"],
 [("deduplication cache", "src/practice_rewards.rs: RewardCache"), ("store", "src/practice_rewards.rs: LocalPracticeRewards")],
 [("practice_rewards.db", "rewards per unit", "src/practice_rewards.rs"), ("recent rewards cache", "last rewards per unit", "src/practice_rewards.rs")],
 ["record_unit_rewards", "get_rewards", "trim_rewards", "remove_rewards_with_prefix"])
prop("C12", "Blacklist and review list behave as persistent sets",
 "After any sequence of additions, removals, prefix removals and restarts, membership tests and listings of the blacklist and the review list agree with the set obtained by applying the same operations to a plain set, each entry listed once. Adding an entry twice or removing a missing one changes nothing, and prefix removal removes exactly the entries starting with the given text.",
 ["inputs", "histories"],
 "All operation sequences over arbitrary identifiers, with reads at any point and reopening at any point.",
 "The tests cover single additions and removals; the cache in front of the blacklist diverges only after particular orders of reads, removals and prefixes.",
 ["src/blacklist.rs", "src/review_list.rs"],
 [("blacklist cache and table", "src/blacklist.rs: LocalBlacklist"), ("review list table", "src/review_list.rs: LocalReviewList")],
 [("blacklist.db", "blacklisted units", "src/blacklist.rs"), ("review_list.db", "units to review", "src/review_list.rs")],
 ["blacklisted", "get_blacklist_entries", "get_review_list_entries"])
prop("C13", "A failed write leaves the stores as they were and the instance usable",
 "When a write to one of the databases or to the preferences file fails, the caller gets an error, the contents of that store and everything the instance reports from it are as before that write, and once the fault is gone the same operation succeeds with its normal effect. (Scoring an exercise writes to three stores one after the other; each of them individually behaves this way.)",
 ["fault_sequences", "histories"],
 "A failure injected at each write statement of each mutating operation, in any state, followed by retries and further operations.",
 "No test injects database failures; the in-memory caches are updated next to the database and only a failing write tells them apart.",
 ["src/practice_stats.rs", "src/practice_deltas.rs", "src/practice_rewards.rs", "src/blacklist.rs", "src/review_list.rs", "src/preferences_manager.rs"],
 [("transactions", "src/practice_rewards.rs: record_unit_rewards_helper; trim helpers"), ("cache update after the write", "src/blacklist.rs, src/practice_rewards.rs")],
 None, ["return values of mutating calls", "reads after a failed call"])
prop("C14", "Acknowledged practice survives a crash at any point",
 "If the process is killed at any point, reopening the library succeeds and shows every operation that had returned before the kill; the operation in progress is either entirely visible or not at all for each store, and a set of rewards from one call is never half stored.",
 ["crash_points", "histories"],
 "Kill of the process at any instant during any sequence of scoring, blacklist, review list, trim, removal and preference operations.",
 "The tests never kill a process; ordinary reopening tests run after a clean shutdown.",
 ["src/utils.rs", "src/practice_stats.rs", "src/practice_rewards.rs", "src/blacklist.rs", "src/review_list.rs", "src/preferences_manager.rs"],
 [("SQLite connections and transactions", "src/utils.rs: new_connection, and the stores"), ("preferences file", "src/preferences_manager.rs: set_user_preferences")],
 None, ["the stores after reopening"])
prop("C15", "The unit graph answers agree with the declared relations",
 "For any set of declared units and relations, in any order of insertion that declares parents first, every graph query agrees with the declared relations: dependents, superseded-by and encompassed-by are exactly the inverses of dependencies, supersedes and encompasses, lessons and exercises belong to the declared parents, starting lessons are those without a dependency inside their course, and starting units are those from which everything must begin. Conflicting declarations (a unit declared a second time, a parent of another type, a unit depending on itself, an exercise with dependencies, a weight outside 0 to 1) are rejected without changing the graph.",
 ["inputs", "histories"],
 "All sequences of unit and relation declarations over small universes, valid and conflicting.",
 "The tests insert a few hand-written edges in one order.",
 ["src/graph.rs"],
 [("in-memory graph", "src/graph.rs: InMemoryUnitGraph")],
 None, ["UnitGraph queries"])
prop("C16", "Cyclic course libraries are rejected and acyclic ones accepted",
 "A graph check fails if and only if the declared dependencies, the superseding relation (including a unit superseding something that contains it) or the encompassing relation contains a cycle. A library with such a cycle does not open, and a library without one never makes a query recurse without end.",
 ["inputs"],
 "All directed graphs over small universes for each relation, and random larger graphs.",
 "The tests contain a few cycles and a few trees; the check is a hand-written traversal whose verdict must be right for every graph.",
 ["src/graph.rs", "src/course_library.rs"],
 [("cycle check", "src/graph.rs: check_graph_cycles / check_cycles")],
 None, ["check_cycles", "Trane::new_local", "get_unit_score"])
prop("C17", "Opening a library loads exactly what is on disk or rejects it",
 "Opening a library directory yields exactly the courses, lessons and exercises whose manifests are laid out as documented below it, outside of ignored paths, with the contents of the manifests and paths resolved to existing assets. A library with duplicate identifiers, with manifests whose parent identifiers do not match their location or that cannot be parsed is rejected with an error, and opening never modifies the course files.",
 ["inputs", "configurations"],
 "All directory trees built from valid and invalid manifests at any depth, with ignored paths and stray files.",
 "The tests open trees made by the test builder, nearly all valid and of one shape.",
 ["src/course_library.rs", "src/lib.rs"],
 [("directory walk and manifest checks", "src/course_library.rs: open_course_library, process_*_manifest")],
 None, ["Trane::new_local", "CourseLibrary queries"])
prop("C18", "A serialized library is equivalent to the directory it came from",
 "A library saved in serialized form and reopened answers every library and graph query as the library opened from the directory, and with the same practice data it reports the same scores and offers the same pool of exercises.",
 ["inputs", "histories"],
 "All libraries (including metadata, superseding, encompassing weights and every exercise type) followed by any practice history.",
 "The tests compare a few fields of one small library.",
 ["src/course_library.rs", "src/graph.rs", "src/lib.rs"],
 [("serialization", "src/course_library.rs: SerializedCourseLibrary"), ("reopening", "src/lib.rs: new_local_from_serialized")],
 None, ["all queries on both instances"])
prop("C19", "Practice propagates rewards exactly along the encompassing relation",
 "Scoring an exercise gives positive rewards to the units its lesson and course transitively encompass when the grade is good and negative rewards to those that encompass them when it is bad, with the documented decay of value and weight per step, cut-offs, and the strongest reward per unit when several paths meet. Units not reachable that way, and the practiced lesson and course when nothing leads back to them, receive nothing.",
 ["inputs", "histories"],
 "All encompassing graphs with arbitrary edge weights and all grades.",
 "The tests propagate over one chain; joining paths and cut-offs depend on arbitrary weighted graphs.",
 ["src/scheduler/reward_propagator.rs", "src/scheduler.rs"],
 [("propagation", "src/scheduler/reward_propagator.rs: propagate_rewards"), ("recording", "src/scheduler.rs: score_exercise")],
 None, ["get_rewards after score_exercise"])
prop("C20", "Rewards shift scores only within the documented limits",
 "The reward of an exercise combines the rewards of its lesson and course with the documented weights and decay with age, and a reward that is too old or too light has no effect. It is added to the exercise's score, keeping it within 0 and 5, only for exercises with more than two trials, is not added to raise an exercise failed recently nor to lower one done well recently, and never turns an unattempted exercise into an attempted one.",
 ["inputs", "histories"],
 "All sets of stored rewards and trials with any ages and values.",
 "The tests evaluate a few concrete reward lists.",
 ["src/reward_scorer.rs", "src/scheduler/unit_scorer.rs"],
 [("reward score and application rule", "src/reward_scorer.rs: WeightedRewardScorer"), ("use", "src/scheduler/unit_scorer.rs: get_exercise_score")],
 None, ["get_unit_score", "RewardScorer"])
prop("C21", "Study sessions and saved filters select the filter defined for the moment",
 "At any time since its start a study session applies the filter of the part whose time interval contains the elapsed minutes, and after its end the last part; a part naming a saved filter uses that filter, and a session that names a missing one fails without side effects. Saved filters and sessions listed and loaded are exactly the files on disk, sorted, and duplicates are rejected.",
 ["inputs", "configurations"],
 "All sessions (any number of parts and lengths, including zero), all elapsed times, all directories of saved filters and sessions.",
 "The tests sample three instants of one session.",
 ["src/data/filter.rs", "src/scheduler.rs", "src/filter_manager.rs", "src/study_session_manager.rs"],
 [("part selection", "src/data/filter.rs: StudySessionData::get_part"), ("saved filters", "src/filter_manager.rs"), ("sessions", "src/study_session_manager.rs")],
 None, ["get_part", "get_exercise_batch", "list_filters", "list_study_sessions"])
prop("C22", "Metadata filters evaluate to their logical meaning",
 "A metadata filter selects a lesson or course exactly when its include and exclude conditions, combined with all or any as written, hold for the metadata of that lesson, its course or either as the filter says; courses without metadata and nested combinations included.",
 ["inputs"],
 "All filter expressions up to a size over all metadata of a course and a lesson.",
 "The tests check a few dozen combinations; nesting multiplies them without bound.",
 ["src/data/filter.rs"],
 [("evaluation", "src/data/filter.rs: KeyValueFilter::apply_to_course, apply_to_lesson")],
 None, ["KeyValueFilter", "get_exercise_batch with a unit filter"])
prop("C23", "Concurrent use never deadlocks, panics or loses updates",
 "When threads share one instance and request batches, score exercises, read scores and history, invalidate scores and edit the blacklist and review list (through exclusive access to the instance, or through the shared parts of a scheduler), every call returns, none panics or fails, every acknowledged trial and list entry is stored exactly once, the lists end as some order of the calls would leave them, a batch never holds an exercise blacklisted all along, and once all calls have returned the scores and batches agree with those of a freshly opened instance.",
 ["schedules", "histories"],
 "All interleavings of calls by several threads at the granularity of lock acquisitions and store accesses.",
 "No test uses more than one thread; deadlocks and stale caches need a writer between two particular steps of a reader.",
 ["src/scheduler.rs", "src/scheduler/unit_scorer.rs", "src/lib.rs", "src/blacklist.rs", "src/practice_rewards.rs"],
 [("read-write locks", "src/scheduler/data.rs: SchedulerData, src/lib.rs"), ("caches shared between threads", "src/scheduler/unit_scorer.rs")],
 None, ["all public calls from several threads"])
prop("C24", "Failed exercises are queued for relearning until they are passed",
 "An exercise given one of the two lowest grades reappears in the following batches, within the share of the batch reserved for relearning and never twice in one batch, until it is given a better grade or blacklisted, and no other exercise is ever in that queue. Scoring an exercise that does not exist fails and changes nothing.",
 ["inputs", "histories"],
 "All sequences of scoring, blacklisting and batch requests, with any filter, batch size and relearning share.",
 "The tests check one failed exercise in one batch.",
 ["src/scheduler/relearn_pile.rs", "src/scheduler.rs"],
 [("relearn pile", "src/scheduler/relearn_pile.rs: RelearnPile"), ("use", "src/scheduler.rs: get_exercise_batch, score_exercise")],
 None, ["get_exercise_batch", "score_exercise"])
prop("C25", "Options and preferences take effect everywhere they apply",
 "After the scheduler options are set, every later batch and score follows the new options as if the instance had been opened with them, and resetting restores the defaults. User preferences are stored and read back unchanged and override exactly the options they name when the library is opened; a library whose preferences amount to invalid options does not open, and the validation accepts exactly the documented options.",
 ["inputs", "configurations", "histories"],
 "All option values, valid and invalid, set at any point of any history; all preference files.",
 "The tests set the options and read them back; they do not check that every component follows.",
 ["src/scheduler.rs", "src/data.rs", "src/preferences_manager.rs", "src/lib.rs"],
 [("options", "src/scheduler.rs: set_scheduler_options, reset_scheduler_options"), ("validation", "src/data.rs: SchedulerOptions::verify"), ("preferences", "src/lib.rs: create_scheduler_options")],
 None, ["get_scheduler_options", "get_exercise_batch", "get_unit_score"])
prop("C26", "No more lessons than allowed are introduced at once",
 "A search of the library offers exercises of at most the configured number of lessons that are in progress, that is, whose exercises average no more than the upper end of the target window (which includes lessons never attempted). It offers that many when they are unlocked, and the exercises of lessons beyond that average are always offered, so the limit never empties a batch.",
 ["inputs", "histories", "configurations"],
 "All libraries, histories and limits.",
 "The tests run one library with the default limit.",
 ["src/scheduler.rs"],
 [("limit on lessons in progress", "src/scheduler.rs: max_lessons_in_progress handling in the search")],
 None, ["get_exercise_batch"])
prop("C27", "A batch follows the configured mix of mastery levels",
 "Each exercise of a batch drawn from a large enough pool comes from the mastery window of its score, the share of each window follows the configured percentages adjusted to the recent success rate by the documented steps and bounds, and exercises scheduled less often are preferred within a window. When a window runs short the batch is filled from the others in the documented order and up to the documented fill level.",
 ["inputs", "histories", "configurations"],
 "All pools (number of candidates per window), success rates, percentages and batch sizes.",
 "The tests check the shares for a few pools.",
 ["src/scheduler/filter.rs", "src/scheduler/data.rs"],
 [("windows and remainder", "src/scheduler/filter.rs: CandidateFilter"), ("adjustment", "src/scheduler/filter.rs: dynamic mastery windows")],
 None, ["get_exercise_batch"])
prop("C28", "Generated courses contain exactly the documented units",
 "For every configuration of a course generator (music piece, transcription, knowledge base, literacy) the generated lessons and exercises are exactly those documented for it, with unique identifiers, dependencies that follow the documented progression and never form a cycle, and references only to generated or declared units; generation is deterministic and generates the same units each time the library is opened.",
 ["inputs", "configurations"],
 "All passage trees, passage lists, skip flags, instruments, knowledge base directories and literacy examples up to a size.",
 "The tests generate one or two configurations per generator.",
 ["src/data/course_generator/music_piece.rs", "src/data/course_generator/transcription.rs", "src/data/course_generator/knowledge_base.rs", "src/data/course_generator/literacy.rs"],
 [("generators", "src/data/course_generator/*.rs: generate_manifests")],
 None, ["library queries after opening a generated course"])
prop("C29", "Library queries agree with the loaded library",
 "Listing courses, lessons of a course, exercises of a lesson or of any unit, fetching manifests and finding the units matching a prefix return exactly what the loaded library contains, in sorted order, and report an absence for unknown units or units of another kind.",
 ["inputs"],
 "All libraries and all query arguments, including prefixes of identifiers and identifiers of the wrong kind.",
 "The tests query a few units of one library.",
 ["src/course_library.rs", "src/lib.rs"],
 [("queries", "src/course_library.rs: impl CourseLibrary for LocalCourseLibrary")],
 None, ["CourseLibrary queries"])
prop("C30", "What the course builders write opens as exactly what was described",
 "A course written by the course builders (plain, knowledge base, or simple knowledge base) opens as exactly the units that were described: the same courses, lessons, exercises, dependencies, superseded and encompassed units, metadata and asset contents. A builder that is asked for a directory that already exists, for two assets of one name, or for a manifest that mentions a file that is not part of the course, reports an error instead of leaving a course that differs from its description.",
 ["inputs"],
 "All descriptions of plain, knowledge base and simple knowledge base courses up to a size, with and without missing or clashing files.",
 "The tests build a few courses and compare a few fields of some manifests.",
 ["src/course_builder.rs", "src/course_builder/knowledge_base_builder.rs"],
 [("plain builders", "src/course_builder.rs: CourseBuilder, LessonBuilder, ExerciseBuilder, AssetBuilder"), ("knowledge base builders", "src/course_builder/knowledge_base_builder.rs: CourseBuilder, SimpleKnowledgeBaseCourse")],
 None, ["CourseBuilder::build", "SimpleKnowledgeBaseCourse::build", "library queries after opening the course"])
prop("C31", "Well covered exercises are held back, and only those",
 "When a batch is put together, every exercise that could be scheduled is weighed by how much the lessons and courses of all such exercises encompass its lesson and its course (the sum of the weights of the encompassed relations reached while propagation lasts; relations of weight zero cover nothing). An exercise with a score of at least 4.5 and a total weight of at least 10 is left out of the batch; one with a score of at least 3.75 and a total weight of at least 5 that is not left out is drawn from the share of mastered exercises. No other exercise is withheld or moved for being covered by others.",
 ["inputs", "histories"],
 "All libraries with weighted encompassed relations, all histories of scores and selections.",
 "The tests knock out exercises of one small library with hand-made candidates.",
 ["src/scheduler/review_knocker.rs", "src/scheduler/filter.rs", "src/scheduler.rs"],
 [("counting coverage", "src/scheduler/review_knocker.rs: ReviewKnocker"), ("application to a batch", "src/scheduler/filter.rs: CandidateFilter::filter_candidates")],
 None, ["get_exercise_batch"])
prop("C32", "Weak exercises of a course are kept together, in groups of three",
 "In the order of every batch, the exercises whose score is no more than the upper end of the target window come in groups of three from the same course, with what is left over of the course in one smaller group; all other exercises stand alone. The groups and single exercises come in random order, in which groups of new exercises tend to come later, and the members of the groups vary from batch to batch.",
 ["inputs", "histories"],
 "All pools, scores and options, and all random choices.",
 "The tests shuffle a few hand-made lists of candidates of one or two courses.",
 ["src/scheduler/shuffler.rs", "src/scheduler.rs"],
 [("grouping and order", "src/scheduler/shuffler.rs: Shuffler::shuffle_candidates"), ("bias of new groups", "src/scheduler/shuffler.rs: Shuffler::group_sort_key")],
 None, ["get_exercise_batch"])
prop("C33", "The exercises of a mastery window that are better choices are shown more often",
 "Among the exercises of one mastery window, one that is clearly better in one respect and no worse in the others is chosen with a higher probability by an instance that has shown none of them yet: one that is more urgent, lies deeper in the library, belongs to a lesson beyond which the student cannot go yet, covers more of the other candidates, is covered by fewer of them, goes forwards rather than backwards, is stuck (not mastered) rather than going backwards, or is mastered and still moving rather than mastered and resting. No trend in the scores of an exercise, however steep, makes the other respects irrelevant.",
 ["inputs", "histories"],
 "All libraries, histories and random choices.",
 "The tests compare the computed weights of hand-made candidates; whether the candidates the search builds have those values, and whether the choice follows the weights, is seen in no test.",
 ["src/scheduler/filter.rs", "src/scheduler.rs"],
 [("cost and weight of a candidate", "src/scheduler/filter.rs: CandidateFilter::candidate_cost, candidate_weight"), ("weighted choice", "src/scheduler/filter.rs: CandidateFilter::select_candidates"), ("depth, dead ends, coverage of candidates", "src/scheduler.rs: get_candidates_from_graph, src/scheduler/filter.rs: set_encompassing_weights")],
 None, ["get_exercise_batch"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
