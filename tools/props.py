#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after a change of a property)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, technique="", note="", thorough=True):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, hook=hook, technique=technique, note=note, thorough=thorough)

HOOK = "cfg(vp_mc): threads, channels, clock and atomics of the reasoner resolve to controlled ones"
L = []
L.append(P("C01", "Narsese text denotes exactly the written statement",
 "A sentence written in the documented Narsese syntax is accepted and read as exactly the written term, with the written punctuation, the written frequency and confidence (default 1.0 and 0.9) and the written event marker. This holds for every nesting (up to 100 levels) of copulas, sets, products, intersections, negations, sequences, conjunctions, images, operations and variables and for every spacing the syntax allows.",
 ["inputs"], "every sentence of the grammar (all nestings up to depth 4, every tuple of repeated components, chains of up to 40 and of selected depths up to 100, thorough of all depths up to 100 levels, every letter and digit of the considered blocks, thorough of all of Unicode)",
 "the tests read a dozen sentences; the grammar has about 20 productions which interact by nesting and spacing",
 ["src/NarseseParser.rs", "src/NarUtilReadn.rs", "src/Nar.rs"],
 [("parseNarsese and its combinators", "src/NarseseParser.rs"), ("inputN", "src/Nar.rs")],
 observe=["result of parsing", "printed form of the stored sentence"],
 technique="explicit enumeration of all sentences up to a depth through the real parser against a reference denotation",
 note="Exhaustive over all generated sentences up to nesting depth 4, chains of each constructor up to 100 levels; names are short; the generator of texts and the reference terms are trusted."))
L.append(P("C02", "Malformed text is rejected, never half read, never a crash",
 "For every text, reading it either gives the statement which the documented grammar assigns to the complete text or rejects it; it never crashes and never ignores a part of the text. Truth values outside of [0;1] are rejected, and a rejected input leaves the memory of the reasoner unchanged.",
 ["inputs"], "every text up to a length over several alphabets, every sequence of tokens up to a length, every single edit of valid sentences, every character of the considered blocks (thorough all of Unicode) at ten places",
 "the tests contain no malformed text at all",
 ["src/NarseseParser.rs", "src/Nar.rs"],
 [("parseNarsese: rejection of trailing text, of truth values", "src/NarseseParser.rs"), ("inputN: result of reading", "src/Nar.rs")],
 observe=["verdict of the parser", "memory after a rejected input"],
 technique="exhaustive enumeration of texts through the real parser against an independent reference grammar",
 note="Exhaustive for the stated alphabets and lengths; nesting of one kind up to 100000 levels."))
L.append(P("C03", "Terms have one identity: equality, printing and parts agree",
 "Two terms are equal, and have equal hashes, exactly if they are written the same way; different terms are printed differently and a printed term can be read back to the same term wherever the syntax allows it. The parts and the complexity of a term are exactly those of its structure, and encoding an operation call with a name and arguments and decoding it gives the same name and arguments.",
 ["inputs"], "all pairs of an enumerated universe of terms, every term of the universe",
 "the tests compare a handful of terms",
 ["src/Term.rs", "src/TermUtils.rs", "src/TermApi.rs"],
 [("checkEqTerm, Hash and Eq of Term", "src/Term.rs"), ("convTermToStr", "src/Term.rs"), ("retSubterms, retUniqueSubterms, calcComplexity", "src/Term.rs"), ("encodeOp, decodeOp", "src/TermUtils.rs")],
 observe=["equality", "hash", "printed text", "list of parts", "complexity", "decoded operation"],
 technique="exhaustive enumeration of all pairs of a universe of terms against a structural reference",
 note="Universe: every constructor over every pair of compounds of depth 2; the structural reference is trusted."))
L.append(P("C04", "Unification finds a consistent binding if and only if one exists",
 "Matching a pattern with variables against a term succeeds exactly if one consistent assignment of the variables makes both equal, and each variable is bound to exactly one value. Substituting the found assignment into the pattern gives the matched term and changes nothing else.",
 ["inputs"], "every pattern with up to three variables of an enumerated universe against every term of an enumerated universe, images at every place, patterns with up to many variables",
 "the tests contain three unifications; repeated variables at different positions are not reached",
 ["src/NarUnify.rs"],
 [("unify, unify2, checkUnify", "src/NarUnify.rs"), ("unifySubst", "src/NarUnify.rs")],
 observe=["success", "assignments", "substituted term"],
 technique="exhaustive enumeration of pattern/term pairs against a reference unifier",
 note="All pairs of the enumerated universes; the 20-line reference unifier is trusted."))
L.append(P("C05", "Truth functions follow NAL and stay in range",
 "Revision, deduction, goal deduction, abduction, induction, comparison, intersection and negation compute the NAL formula for every pair of valid truth values and never leave [0;1] or give NaN. Counted evidence gives frequency positive/total and confidence total/(total+1), expectation is c*(f-0.5)+0.5, and amounts of evidence convert to confidence and back. The usefulness of a used belief grows with the number of uses and decays with the time since the last use, and printed truth values denote the value.",
 ["inputs"], "grid of truth values including the borders, all chains of functions of a small grid, all evidence counts up to a bound and selected ones up to 10^10, all usages of a grid",
 "the tests evaluate no truth function at the borders; formulas of rarely used functions are not tested",
 ["src/Tv.rs", "src/NarSentence.rs"],
 [("rev, ded, ind, abd, intersection, ...", "src/Tv.rs"), ("retTv for counted evidence", "src/NarSentence.rs"), ("calcUsageUsefulness", "src/NarSentence.rs")],
 observe=["computed truth values", "printed truth value"],
 technique="exhaustive enumeration of a value grid through the real functions against the NAL formulas",
 note="Finite grid (48, thorough 108 values per axis including 0, 1 and values next to them), relative tolerance 1e-6; values between grid points are not covered."))
L.append(P("C06", "Every belief is soundly based on its evidence, nothing is counted twice",
 "Two evidential bases overlap exactly if they share an evidence; merging takes the evidence of both, each once, up to 120, where each premise keeps at least half of the space. In every reachable state each task and belief is based on evidence which was really given, with no evidence counted twice, it follows from this evidence by the rules, and it never has more weight than its evidence.",
 ["inputs", "histories"], "all pairs of small bases, all pairs of lengths around the cap, all histories of inputs and cycles up to a length",
 "the tests don't look at stamps after reasoning; circular evidence only appears after several cycles",
 ["src/NarStamp.rs", "src/NarWorkingCycle.rs", "src/Nar.rs"],
 [("merge, checkOverlap, checkSame", "src/NarStamp.rs"), ("inference: overlap check before each rule", "src/NarWorkingCycle.rs"), ("fresh evidence per input", "src/Nar.rs")],
 state=[("stamp", "evidential base of a sentence", "src/NarStamp.rs")],
 observe=["evidence ids of every task and belief"], hook=HOOK,
 technique="exhaustive enumeration of bases and of histories of the real reasoner; invariant on every reached state",
 note="One deterministic thread schedule per history (schedules are C22/C23)."))
L.append(P("C07", "Two-premise inference draws exactly the valid NAL conclusions",
 "For every ordered pair of premises the reasoner draws exactly the conclusions of its two-premise rules: deduction, induction, abduction and comparison on inheritance, similarity, implication and predictive implication, union of property sets, intersection of predicates, detachment of implications and of parts of conditional conjunctions with consistently bound variables, and answering the condition of a question. Each conclusion has the truth value of its rule applied to the premises in the right order and the evidence of both premises. Premises with overlapping evidence give no conclusion.",
 ["inputs"], "all ordered pairs of an enumerated universe of terms, all combinations of punctuation, grid of truth values per truth pattern, lengths of evidence up to the cap with overlap at each place, compounds of growing size",
 "the tests check about ten conclusions of particular premises",
 ["src/NarWorkingCycle.rs"],
 [("infBinary, infBinary2, inference", "src/NarWorkingCycle.rs"), ("rules: inf1, inf2, infVar...", "src/NarWorkingCycle.rs")],
 observe=["set of conclusions with term, punctuation, truth and evidence"],
 technique="exhaustive enumeration of premise pairs through the real rules against an independent rule table",
 note="Conclusions are compared as sets; the rule table in refrules.rs is trusted, it was derived from the documented rules and differences were resolved by reading the code."))
L.append(P("C08", "Single-premise inference draws exactly the valid NAL conclusions",
 "For every judgement the reasoner draws exactly the conclusions of its single-premise rules: elimination of negation, decomposition of intersections, of similar singleton sets and of parallel effects, and the transformations between a relation over a two-component product and both of its images. Each conclusion has the truth value its rule prescribes, the evidence and all components of its premise, and other terms give no conclusion.",
 ["inputs"], "every term of an enumerated universe (every copula over every pair of compounds, nested images, compounds of growing size, long evidence)",
 "the tests check products with two components only",
 ["src/NarWorkingCycle.rs"],
 [("infSinglePremise", "src/NarWorkingCycle.rs"), ("infStructImg0/1, prod to image", "src/NarWorkingCycle.rs")],
 observe=["set of conclusions"],
 technique="exhaustive enumeration of premises through the real rules against an independent rule table",
 note="Conclusions are compared as sets; reference rule table trusted."))
L.append(P("C09", "A statement is believed once, with the sum of its evidence",
 "After every history of told judgements each statement is found as exactly one belief in the concept of each of its parts and of itself, with the pooled (revised) truth of all its evidence. Telling the same evidence again changes nothing, and the order in which evidence was told doesn't change the resulting truth.",
 ["histories", "inputs"], "every sequence of additions over three alphabets up to a length, every sequence of truth values for one statement, wide and deep statements up to 40 components",
 "the tests do one revision; order independence and re-telling are not tested",
 ["src/NarMem.rs", "src/NarWorkingCycle.rs"],
 [("storeInConcepts", "src/NarMem.rs"), ("memReviseBelief, memAddTask", "src/NarWorkingCycle.rs")],
 state=[("concepts", "concept by name with its tables of beliefs by expectation and by usage", "src/NarMem.rs"), ("judgementTasks", "tasks", "src/NarWorkingCycle.rs")],
 observe=["tables of beliefs of every concept", "task list and its index by term"], hook=HOOK,
 technique="explicit-state enumeration of operation sequences of the real memory against a reference memory after every step",
 note="Within the capacity of the tables (overflow is C10)."))
L.append(P("C10", "Memory stays bounded and keeps the best",
 "No table of beliefs grows above its configured size, and when it overflows the belief with the lowest expectation (in the other table: the lowest usefulness) is given up. When memory is limited at most the configured number of concepts stay, those with the highest expectation, tasks are reduced to the configured number with the most credit, and the index of tasks is reduced with them. A statement more complex than the configured limit is never stored.",
 ["histories", "configurations"], "sequences of additions and uses for table sizes 1..3, ordered fillings of tables of size 4..128 and of up to 450 concepts, all concept limits over all assignments of truths, complexities around every limit, loaded reasoners around the cycles at which bounds are enforced",
 "no test fills a table, a concept store or the list of tasks",
 ["src/NarMem.rs", "src/NarWorkingCycle.rs", "src/Nar.rs"],
 [("storeInConcepts2: tables are cut", "src/NarMem.rs"), ("limitMemory", "src/NarMem.rs"), ("reasonCycle: tasks are limited periodically", "src/NarWorkingCycle.rs")],
 observe=["tables", "concepts", "tasks", "index of tasks"], hook=HOOK,
 technique="explicit-state enumeration of operation sequences for several capacities; transition relation of the tables",
 note="Any of equally good beliefs may be given up; bounds on tasks and concepts are enforced periodically (cycles 111 and 173)."))
L.append(P("C11", "Questions are answered with matching knowledge, better and better",
 "A question is answered only with known judgements which match it, and a listener is told an answer only if its expectation is higher than that of all answers to this question before. Whatever the reasoner knows or derives that matches the question and shares a constant part with it is found when the question is worked on, so the last answer is the best one, both for statements and for temporal (procedural) knowledge.",
 ["histories", "inputs"], "every question with every sequence of up to 3 candidate answers; every history of facts, questions and cycles up to a length; every selection among several questions, up to 33 questions at once",
 "the tests ask one question; they don't observe the order of answers",
 ["src/NarWorkingCycle.rs", "src/Nar.rs"],
 [("qaTryAnswer", "src/NarWorkingCycle.rs"), ("reasonCycle: question processing", "src/NarWorkingCycle.rs"), ("inputT2: question", "src/Nar.rs")],
 state=[("questionTasks", "open questions with the expectation of the best answer", "src/NarWorkingCycle.rs")],
 observe=["answers delivered to the registered listener"], hook=HOOK,
 technique="exhaustive enumeration of histories and of random selections of the real reasoner against a reference of answers",
 note="One thread schedule per history; all schedules of small histories are covered by C23."))
L.append(P("C12", "Each working cycle works on one task and adds exactly its conclusions",
 "In each cycle questions give credit to tasks with shared parts, every task gets its documented credit which decays with its age, and the task with the most credit is worked on and leaves the list of tasks. The cycle adds all conclusions of the selected task, alone and with every related task and belief, and nothing else; all other knowledge stays as it was.",
 ["histories", "inputs"], "every history of inputs over 16 lines up to a length, every list of credits through the selection functions, tasks with many partners, repeated cycles on the same task",
 "the tests only look for one particular conclusion after many cycles",
 ["src/NarWorkingCycle.rs"],
 [("reasonCycle", "src/NarWorkingCycle.rs"), ("deriver worker", "src/NarWorkingCycle.rs"), ("taskSelByCreditRandom, taskCalcCredit", "src/NarWorkingCycle.rs")],
 observe=["memory and tasks before and after a cycle"], hook=HOOK,
 technique="exhaustive enumeration of histories; every cycle of the real reasoner is checked against a transition relation",
 note="Completeness of conclusions is required below the documented limits (50 tasks per term, 300 tasks)."))
L.append(P("C13", "The goal store keeps distinct, unsatisfied, most desired goals",
 "A goal which is wanted again with the same evidence is kept once; a goal which came true is satisfied and never drawn again; when goals are limited the configured number of the most useful goals (expectation, desirability, recency) is kept. A goal is drawn only if it is open: each depth with goals has the same chance and within a depth the chance is proportional to the desirability.",
 ["histories", "configurations"], "every sequence of adding, satisfying, weakening and limiting over 15 operations up to a length for five capacities; every draw over a grid of the random generator; every history of the whole reasoner up to a length",
 "the tests never overflow or satisfy goals and don't test the chances",
 ["src/NarGoalSystem.rs", "src/NarProc.rs"],
 [("addEntry, limitMemory, event_occurred, sample", "src/NarGoalSystem.rs"), ("narStep0/1: satisfaction of goals", "src/NarProc.rs")],
 state=[("entries", "goals by depth with desirability", "src/NarGoalSystem.rs")],
 observe=["goals after each operation", "drawn goal"], hook=HOOK,
 technique="explicit-state enumeration of operation sequences of the real goal store against a reference store; exhaustive enumeration of random draws",
 note="Chances are measured on a grid of 16x16 answers of the random generator; any of equally useful goals may be kept."))
L.append(P("C14", "Subgoals are derived exactly by the goal rules",
 "From a goal and each known temporal implication whose consequence is the goal exactly the condition of the implication follows as a subgoal with the desire value of goal deduction, the evidence of both and one depth deeper, and a goal which is a sequence gives its first element as a goal. Overlapping evidence gives no goal, no other goals appear, and chains of implications are followed over several steps.",
 ["inputs", "histories"], "every pair of goal and belief of an enumerated universe with every overlap of evidence and a grid of truths; every subset of a knowledge base with every pair of goals and all choices, goals of growing size, up to 48 implications of one goal (quick: 40), second conditions",
 "the tests derive two subgoals",
 ["src/NarGoalSystem.rs", "src/NarProc.rs"],
 [("infGoalBelief, infGoal...", "src/NarGoalSystem.rs"), ("sampleAndInference", "src/NarGoalSystem.rs")],
 observe=["goals after derivation"], hook=HOOK,
 technique="exhaustive enumeration of goal/belief pairs and of all random choices against a reference derivation",
 note="The first 6 random choices of a derivation are enumerated up to a bound of deviations."))
L.append(P("C15", "Procedural learning records exactly what was observed",
 "From a stream of events the reasoner learns temporal implications of the form (earlier event, own operation) then latest event: exactly those which were really observed, each with the counted evidence of the operation, the evidence of its events and the interval of its time distance, where repeated observations add up. A condition about a property of something that occurs again is also stored in a generalised form with one variable, no unobserved implication appears, at most the newest 20 events are remembered, and told temporal knowledge is kept.",
 ["histories", "inputs"], "every stream of up to 5 events over 8 kinds with several timings and all choices of the sampling; every history of events, knowledge and steps up to a length; variable introduction for a universe of statements",
 "the tests use one fixed stream of events and look for one implication",
 ["src/NarProc.rs", "src/NarInfProcedural.rs", "src/NarMem.rs"],
 [("narStep1: perception, mkImpl...", "src/NarProc.rs"), ("infProceduralAndVar...", "src/NarInfProcedural.rs"), ("storage worker", "src/NarProc.rs")],
 state=[("evidenceMem", "procedural memory", "src/NarProc.rs"), ("trace", "recent events", "src/NarProc.rs")],
 observe=["procedural memory after each step"], hook=HOOK,
 technique="exhaustive enumeration of event streams and sampling choices of the real reasoner against a reference of all observations",
 note="Fixed choices of the random generator in long histories."))
L.append(P("C16", "Anticipations: confirmed or counted against the knowledge, exactly once",
 "An executed decision anticipates its consequence until a deadline given by the time interval of the used knowledge. When the expected event is among the newest events the anticipation is removed without any effect; when the deadline passes without it every copy of the used knowledge gets exactly one negative evidence and the anticipation is removed; other knowledge and other anticipations are untouched.",
 ["histories", "inputs"], "every list of up to 3 anticipations with deadlines around now, every recent past, several windows; up to 10 at once; decisions with up to 24 open ones; every history of events, goals, knowledge and steps of the whole reasoner",
 "no test looks at a missed anticipation",
 ["src/NarProc.rs"],
 [("narStep0: check anticipations", "src/NarProc.rs"), ("neg confirmation", "src/NarProc.rs")],
 state=[("anticipatedEvents", "open anticipations", "src/NarProc.rs")],
 observe=["open anticipations", "procedural memory"], hook=HOOK,
 technique="explicit-state enumeration of anticipations and histories of the real reasoner against a reference step",
 note=""))
L.append(P("C17", "Decisions execute the best justified operation, babbling only if allowed",
 "In a step the reasoner executes at most one operation: the one justified with the highest expectation above the decision threshold by a goal together with the recent events or by a prediction of up to two steps from the newest event, called with the arguments bound by the situation; the execution becomes an event with its anticipation. Without such a decision a random operation which allows it is tried only if babbling is enabled, with its fixed chance, otherwise nothing is executed.",
 ["histories", "inputs"], "every set of up to 3 goals of 13 with subsets of knowledge and 11 recent pasts and all random choices; up to 8 candidates; chains of up to 5 predictions; expectations around the threshold; babbling for every set of operations with all draws; every history of the whole reasoner up to a length",
 "the tests execute one decision of one history",
 ["src/NarProc.rs", "src/NarGoalSystem.rs"],
 [("narStep1: decision making", "src/NarProc.rs"), ("selHighestExpGoalByState", "src/NarGoalSystem.rs"), ("babbling", "src/NarProc.rs")],
 observe=["executed operations with arguments", "events", "anticipations"], hook=HOOK,
 technique="exhaustive enumeration of goals, knowledge, pasts and random choices of the real decision making against a reference decision",
 note="Any of equally good decisions is accepted, every possible decision has to occur."))
L.append(P("C18", "Operations of the library do what they are documented to do",
 "The execute-and-inject operation calls the known operations of its sequence in order and then lets the given event happen; the relation operation adds the stated relation as a judgement with fresh evidence (an and-list on its right side becomes an intersection, all other components are kept); neither has other effects or is tried by babbling. Every registered operation is found by its name and called with exactly the arguments of the call; a call of another shape is ignored without a crash.",
 ["inputs"], "every sequence of up to 3 elements, event and number of arguments; every shape of relation; up to 58 relations; all shapes of calls",
 "no test executes an operation of the library",
 ["src/OpLib.rs", "src/TermUtils.rs", "src/NarProc.rs"],
 [("Op::call of the operations", "src/OpLib.rs"), ("decodeOp", "src/TermUtils.rs"), ("execOp", "src/NarProc.rs")],
 observe=["called operations", "events", "memory"], hook=HOOK,
 technique="exhaustive enumeration of call shapes through the real operations against a reference effect",
 note="The tagging side of natural language operations is not covered."))
L.append(P("C19", "Every input line has exactly its documented effect",
 "Each line given to the reasoner (Narsese, comment, cycle commands with counts, procedural steps, operation registration, listing commands, file input) has exactly the effect of the corresponding action and reports what it shows; an unknown or malformed line changes nothing and never crashes. A file has the effect of its lines in order, and quitting is requested by the quit command only.",
 ["inputs", "histories"], "every sequence of up to 2 (3) of 39 lines after three preparations, every text up to 4 (5) symbols over 14 symbols, every single edit of 13 commands, every file of up to 4 (5) of 7 lines",
 "the tests use Narsese input and cycles only",
 ["src/NarInputFacade.rs"],
 [("input", "src/NarInputFacade.rs")],
 observe=["complete state of the reasoner", "returned lines", "quit flag"], hook=HOOK,
 technique="exhaustive enumeration of line sequences; differential check of the complete state against the programmatic interface",
 note="Both reasoners run with the same deterministic schedule and random draws; natural language input is not covered."))
L.append(P("C20", "An interactive session processes its input and ends",
 "The interactive program reads the files given as arguments first and then the lines of the input in order, each exactly once; an empty line repeats the last line. It ends, regularly, at the quit command and at the end of the input, whether or not the last line ends with a line end.",
 ["histories", "inputs"], "every session of up to 3 (4) of 13 lines in three styles, sessions of up to 250 lines and 3 files with the real program as a process",
 "no test runs the program",
 ["src/NarInteractive.rs", "src/bin/main.rs"],
 [("runInteractive", "src/NarInteractive.rs"), ("main: files", "src/bin/main.rs")],
 observe=["exit of the process", "reported numbers of concepts and tasks"], hook=HOOK,
 technique="exhaustive enumeration of sessions with the real program as a process against a reference",
 note="A session which doesn't end within 40 s counts as endless."))
L.append(P("C21", "The server tells every client every message exactly once and in order",
 "Every client receives each message (result of a line of any client, answer to a question) which was published since it connected exactly once and in order of publication, delivered together with the next line it sends; only the newest 50 messages are kept, so a client which was silent for longer receives the newest 50. Each line a client sends reaches the reasoner exactly once and in order, and disconnecting or misbehaving clients don't disturb the others.",
 ["histories"], "every history of publications, lines and (dis)connections of two clients up to 6 (8) operations with real connections, bursts around the limit of kept messages, repeated messages, long messages and late readers, histories with the whole server process",
 "no test uses the server",
 ["src/NarServer.rs"],
 [("connection handler with cursor over the kept messages", "src/NarServer.rs"), ("publisher", "src/NarServer.rs")],
 observe=["received messages per client", "lines which reach the reasoner"], hook="cfg(vp_mc): vp_serve serves one given connection",
 technique="exhaustive enumeration of operation histories with real connections against a reference log",
 note="Clients and publications are serialized; schedules inside of the asynchronous runtime are not controlled."))
L.append(P("C22", "No deadlock, no crash, no endless loop under any schedule",
 "For every program of inputs and commands and every schedule of the reasoner's threads all calls return: no deadlock, no panic in any thread and no endless loop, also while tasks are listed, memory is observed or its limits are enforced. When the reasoner is dropped its worker threads end.",
 ["schedules", "programs"], "every program of up to 3 (4) of 11 lines under every schedule with at most one preemption; longer programs with up to 2 (3) preemptions or delays of the workers; programs with up to 20 events, statements or questions; each of 1485 forms of knowledge with each of 27 forms of goals and 6 events",
 "tests run one schedule which the operating system happens to choose",
 ["src/NarWorkingCycle.rs", "src/NarProc.rs", "src/Nar.rs"],
 [("locks of shared memory", "src/NarWorkingCycle.rs"), ("deriver worker with channel", "src/NarWorkingCycle.rs"), ("storage worker with channel", "src/NarProc.rs")],
 observe=["termination of all threads", "panics"], hook=HOOK,
 technique="stateless model checking of the real threads under a controlled scheduler with a preemption bound",
 note="Scheduling points are lock, channel, thread and atomic operations (the code is safe Rust, so other accesses can't race); parking_lot's writer priority is modelled."))
L.append(P("C23", "No schedule loses, duplicates or invents evidence",
 "For every history of inputs, questions and cycles and every schedule of the threads, afterwards the memory contains exactly the given evidence: none lost, none counted twice, each belief the correct sum of its evidence, each task findable by its parts. Answers only improve, conclusions of worked-on statements are known, and what is learned from events doesn't depend on the schedule.",
 ["schedules", "histories"], "every history of up to 4 (5) of 6 operations under every schedule with at most one preemption (up to 3 also with the workers first), up to 12 repetitions with 6 cycles in between, histories around the cycles at which tasks and concepts are limited, threads which add evidence at the same time with up to 2 (3) preemptions, every stream of up to 4 (5) events under every schedule of the storage worker",
 "tests run one schedule; lost updates need a preemption between revision and storage",
 ["src/NarWorkingCycle.rs", "src/NarProc.rs"],
 [("memAddTask: revision and storage under one lock", "src/NarWorkingCycle.rs"), ("storage worker", "src/NarProc.rs")],
 observe=["beliefs, tasks and index after all threads are idle", "answers"], hook=HOOK,
 technique="stateless model checking of the real threads under a controlled scheduler with a preemption bound; invariants on the final state",
 note="Capacity of the tables isn't reached."))

NA = []
COST = {}
exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in L + [x for x in NA if "title" in x]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}, ensure_ascii=False) + "\n")
m = {"version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "cfg(vp_mc)", "enable": "RUSTFLAGS=--cfg vp_mc and a path override of parking_lot and rand (see mc/Cargo.toml)", "source_commits": ["6417081", "90f4a0c"]},
 "checks": [], "not_applicable": [{"property": x["id"], "reason": x["reason"]} for x in NA],
 "notes": "All checks enumerate exhaustively within the stated bounds and run the real code of /repo; see DESIGN.md."}
for p in L:
    c = {"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
         "technique": p["technique"], "level": "model_checking", "level_note": (p["note"] + " Bounded: " + p["text"] + ".").strip()}
    m["checks"].append(c)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
for p in L: assert len(p["title"]) <= 80, p["id"]

# DESIGN.md
d = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
per = ""
for p in L:
    per += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* method: {p['technique']}\n* bounds: {p['text']}\n* oracle and trust: {p['note']}\n* why tests can't: {p['why']}\n* anchored in: {', '.join(p['files'])}\n* cost: {COST.get(p['id'], 'quick below one minute')}\n\n"
for p in NA: per += f"### {p['id']} {p.get('title','')} (not claimed)\n\n{p['reason']}\n\n"
rows = ""
sd = os.path.join(ROOT, "seeded")
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    f = os.path.join(sd, n, "meta.json")
    if os.path.exists(f):
        x = json.load(open(f))
        rows += f"| {n} | {x['property']} | {x['what_it_breaks']} | {x.get('caught_by', '')} |\n"
d = d.replace("PER_PROPERTY\n", per).replace("SEEDED\n", "| bug | property | what it breaks | reported by |\n|---|---|---|---|\n" + rows)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
