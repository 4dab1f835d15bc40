#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    }

COMPUTE = ["compute/solver.go", "compute/optimum.go", "compute/boolcomb.go"]
ENC = ["cnf/cnf.go", "query/context.go", "query/scoper.go", "query/varmanager.go",
       "query/logop/and.go", "query/logop/or.go", "query/logop/not.go",
       "query/logop/with_var.go", "query/logop/forallguarded.go"]
PRED = ["query/predicates/subsumption", "query/predicates/lel", "query/predicates/isnode",
        "query/extensions/allcomp", "query/extensions/cons", "query/extensions/dfs",
        "query/extensions/full", "query/extensions/hepr", "query/extensions/leh"]

NOSOLVER = ("No SAT solver is installed for the suite, so none of the tests that solve anything pass; "
            "even with one, ")

props = [
P("A01", "Evaluating a query gives the truth value the logic assigns to it",
  "Evaluating any well-formed query over any decision tree reports satisfiable exactly when some assignment of partial instances to its variables makes it true under the documented meaning of its predicates, connectives and quantifiers, with constants, variables and quantifier-bound instances interchangeable as arguments. "
  "This holds for whatever search order and satisfying valuation a correct external SAT solver settles on, and whether that solver is strict or lenient about the DIMACS header. "
  "When the solver and the file system work, evaluation always yields an answer, never an error or a crash.",
  ["inputs", "programs", "schedules"],
  "all decision trees, all well-formed queries in the supported fragment, all search orders, valuations and DIMACS dialects of a correct solver process",
  NOSOLVER + "each one fixes a hand-written tree and two or three pinned instances per predicate and lets one solver choose one valuation; no test mixes predicates, repeats them in one formula or nests quantifiers.",
  PRED + ENC + COMPUTE[:1],
  [("encodings of the predicates and extensions", "query/predicates/*, query/extensions/*"),
   ("negation by Tseytin transformation with consistency clauses kept apart", "cnf/cnf.go Negate"),
   ("exit code 10/20 read as the answer", "compute/solver.go runSolver, Step")],
  ["result of evaluating an atom / stepping a solver", "formula file handed to the solver process"]),

P("A02", "Values read back after a satisfiable answer are a complete witness",
  "After a satisfiable answer, the values read back for the query's variables are complete partial instances (one legal value per feature, in feature order) that together make the query true. "
  "This holds for every satisfying valuation the solver may return and for every legal layout of its output: any number and width of value lines, interleaved comments, any literal order, omitted irrelevant literals, and delivery in arbitrary chunks. "
  "If the output does not determine the value of some feature, an error is returned rather than a shortened, shifted or invented instance. What an instance read back says about itself (text, bottom count, fullness, equality with others) agrees with its features.",
  ["inputs", "schedules", "fault_sequences"],
  "all satisfiable queries, all satisfying valuations, all legal layouts and all truncations of the solver's standard output, all chunkings of the stream",
  NOSOLVER + "one optimisation test reads one variable of dimension three from one solver's single-line output.",
  ["compute/solver.go", "query/varmanager.go", "query/logop/with_var.go", "query/instances.go"],
  [("parsing of the value lines of the solver's output", "compute/solver.go varValueFromBytes"),
   ("one-value-per-feature consistency clauses", "query/logop/with_var.go encodeI")],
  ["values returned for query variables"],
  [("output", "output of the last satisfiable solver run", "compute/solver.go binSolver")]),

P("A03", "Guarded quantifiers range over exactly the tree's nodes, with own witnesses",
  "A guarded universal quantifier holds exactly when its body holds for the partial instance of every node of the tree, no more and no fewer, at every nesting depth and in any node ordering. "
  "Variables introduced inside the quantifier get an independent witness for each node (and each combination of nodes when nested), variables introduced outside keep one value across all of them, and a bound name refers to the innermost enclosing quantifier that binds it.",
  ["inputs", "programs", "schedules"],
  "all trees and node numberings, all nestings of guarded quantifiers and variable declarations, all valuations of a correct solver",
  "Tests compare clause lists for one 3-node and one 5-node tree and one fixed nesting; nothing is ever solved, and quantified witnesses are never checked.",
  ["query/logop/forallguarded.go", "query/scoper.go", "query/logop/with_var.go"],
  [("walk over the tree's nodes", "query/logop/forallguarded.go nodeAsValuesIter"),
   ("variable names qualified by the quantifier iteration they were declared in", "query/scoper.go ScopeVar/AddVar"),
   ("bound constants resolved through the scope stack", "query/scoper.go ScopeConst")],
  ["result of evaluating quantified queries"],
  [("scopes", "stack of open quantifiers with current node instance", "query/scoper.go"),
   ("vars", "declaring depth of each variable", "query/scoper.go")]),

P("A04", "A computed optimum satisfies the property and nothing satisfying beats it",
  "Computing an optimal instance for a property and a strict partial order reports an instance found exactly when some instance satisfies the property, and then the returned instance satisfies the property and no satisfying instance is strictly better in the order. "
  "This holds whichever satisfying instance the solver returns at each step, including a solver that always answers with the least improving one, and whatever the context was used for beforehand.",
  ["inputs", "programs", "schedules", "histories"],
  "all trees, single-variable properties and strict partial orders built from the library, and all sequences of valuations the solver may return during one optimisation",
  NOSOLVER + "one test optimises one fixed three-feature property over one order; which valuation the solver offers at each step is never varied, so most paths through the loop are never taken.",
  ["compute/optimum.go", "compute/solver.go"] + ENC + PRED,
  [("improve-until-unsatisfiable loop", "compute/optimum.go ComputeOptim"),
   ("context reset between steps", "compute/optimum.go ComputeOptim, query/context.go Reset")],
  ["found flag and value returned by the optimisation"]),

P("A05", "Optimisation ends within a bounded number of truthfully reported calls",
  "For a strict partial order, the optimisation stops after at most one solver call more than the length of the longest strictly improving chain of satisfying instances, however adversarially the solver chooses its answers. "
  "Every instance it moves to is strictly better than the previous one, and the number of calls it reports is the number of solver runs it made; evaluating a single query makes exactly one run.",
  ["inputs", "programs", "schedules"],
  "all properties and strict partial orders, and all sequences of answers by a correct solver, including ones chosen to prolong the search",
  NOSOLVER + "termination under an adversarial sequence of answers cannot be sampled by one run with one solver, and the call count is never asserted.",
  ["compute/optimum.go", "compute/solver.go"],
  [("loop driven by the value of the previous step", "compute/optimum.go ComputeOptim"),
   ("call counter", "compute/optimum.go OptOutput.Calls")],
  ["number of solver processes started", "call count in the optimisation's result"]),

P("A06", "Boolean combinations decide like their parts and propagate failures",
  "A conjunction, disjunction or negated-quantifier atom of queries evaluates to the Boolean combination of its parts' own answers: a conjunction is true only if every part answered true and false only if some part answered false, a disjunction is false only if every part answered false and true only if some part answered true, and an atom marked negated reports the opposite of its query's satisfiability. "
  "A part whose solver run fails never counts as a true or a false part, negated or not: unless parts evaluated before it already decided the result, the combination returns that failure as an error.",
  ["programs", "fault_sequences", "histories"],
  "all nestings of combinators over all queries, all positions at which the solver or the file system fails, all earlier uses of the same context",
  NOSOLVER + "four tests use constant-only atoms, never nest, never share a context across evaluations and never let a part fail.",
  ["compute/boolcomb.go", "compute/solver.go"],
  [("left-to-right evaluation with early exit", "compute/boolcomb.go"),
   ("sentinel for unsatisfiability told apart from other errors", "compute/boolcomb.go QDTFAtom.Sat")],
  ["result and error of evaluating a combination"]),

P("B01", "A failing solver process is reported as an error, never as an answer",
  "If the solver process cannot be started, is killed at any point, exits with any status other than the two that mean satisfiable and unsatisfiable, or leaves its answer undecided, the operation that ran it returns an error that is not the unsatisfiability sentinel, or the same answer a working solver gives. "
  "No such failure is reported as found/not found, true/false or a value, and none crashes the caller.",
  ["fault_sequences", "crash_points", "schedules"],
  "every solver run of every operation, every way the process can fail (start failure, signal, any exit status, timeout answer) and every point of its output at which it dies",
  "No test lets a solver fail; the success paths themselves need a solver that is not there.",
  ["compute/solver.go", "compute/optimum.go", "compute/boolcomb.go"],
  [("exit status classification", "compute/solver.go runSolver"),
   ("errors passed up unchanged", "compute/optimum.go, compute/boolcomb.go")],
  ["error and result of Step, evaluation and optimisation"]),

P("B02", "A storage failure is reported as an error, never as an answer",
  "If creating, writing, flushing or closing a formula or temporary file fails at any point (disk full, short write, I/O error, quota reported on close, missing temporary directory, file removed by someone else), the operation returns an error that is not the unsatisfiability sentinel, or the right answer. "
  "In particular no answer is ever derived from a partially stored formula, whether the solver accepts such files or not, and writing a formula to a file reports success only if the whole formula is in the file.",
  ["fault_sequences", "crash_points", "inputs"],
  "every file operation of every solver call and of writing a formula, every kind of storage failure at it, transient or lasting, with strict and lenient solvers",
  "Tests write three-clause formulas to a working temporary directory; no failure is ever injected.",
  ["cnf/cnf.go", "compute/solver.go", "compute/optimum.go"],
  [("error checks on each write", "cnf/cnf.go ToFile"),
   ("error check on temporary file creation", "compute/solver.go Step, compute/optimum.go ComputeOptim")],
  ["error and result of the operation", "bytes stored when the solver opens the file"]),

P("B03", "A failed operation leaves solver and context usable",
  "After any operation has failed (solver failure, storage failure, ill-formed sub-query, panic in caller-supplied code), repeating it or running any other operation with the same solver object and context once faults have stopped gives the answer a fresh solver and context would give, within one attempt. "
  "The values of the last successful satisfiable step stay readable, unchanged, until the next successful one.",
  ["fault_sequences", "histories", "crash_points"],
  "every failure kind at every point of an operation, every sequence of failed and successful operations on one solver and context",
  "Every test uses a new solver and a new context once and none of them fails on purpose half-way.",
  ["compute/solver.go", "query/context.go", "query/scoper.go", "query/logop/with_var.go", "query/logop/forallguarded.go"],
  [("output replaced only after success", "compute/solver.go Step"),
   ("scopes popped on every exit", "query/logop/forallguarded.go buildEncoding"),
   ("context reset", "query/context.go Reset")],
  ["answers and values after a failure"],
  [("output", "last valuation", "compute/solver.go"), ("scopes/vars", "name state", "query/scoper.go, query/varmanager.go")]),

P("B04", "No temporary file or open handle outlives an operation",
  "When a solver call, evaluation or optimisation ends, whether it succeeded, failed, hit a fault at any point or was cut short by a panic in a caller-supplied query, every temporary file it created has been removed and every file handle it opened has been closed, except where the removal itself was refused by the system. "
  "It never alters, truncates or removes a file it did not create, including files in the temporary directory left behind by others or by an earlier crashed process.",
  ["fault_sequences", "crash_points", "schedules"],
  "every operation, every fault kind and position, every content of the temporary directory, several callers sharing it",
  "No test looks at the temporary directory or at open descriptors, least of all after a failure.",
  ["compute/solver.go", "compute/optimum.go", "cnf/cnf.go"],
  [("deferred close and remove", "compute/solver.go Step, compute/optimum.go ComputeOptim"),
   ("unique temporary names", "compute/solver.go Step")],
  ["contents of the file system and open handles when the operation returns"]),

P("B05", "Independent computations running at the same time do not affect each other",
  "Callers that each use their own context and solver object, while sharing the tree, the query objects, the constants and the temporary directory, each get exactly the result they would get running alone, for every interleaving of their execution and even if another caller fails or dies half-way. "
  "Trees, queries, constants and preference lists passed by a caller are never modified.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of two to four callers at the granularity of single statements, with faults or a crash in some of them",
  "The suite is sequential; nothing runs two computations at once.",
  COMPUTE + ENC + PRED,
  [("no package-level mutable state; immutable shared formulas", "cnf/cnf.go TrueCNF, FalseCNF, NegClauses"),
   ("unique temporary file per call", "compute/solver.go Step"),
   ("state kept in the context only", "query/context.go")],
  ["results per caller compared with running alone", "caller-owned inputs before and after"]),

P("B06", "Answers do not depend on what the context was used for before",
  "For any history of steps, evaluations, optimisations and resets on one context, each operation gives the answer and a witness as if it ran on a fresh context, provided a variable name denotes the same variable throughout. "
  "Evaluating the same query twice gives the same answer both times, and after a reset the context behaves like a new one.",
  ["histories", "programs", "schedules"],
  "all sequences of operations, failures and resets on one context, and all valuations of a correct solver",
  "Every test makes a new context for every formula; reuse and reset are never exercised.",
  ["query/context.go", "query/varmanager.go", "query/scoper.go", "query/logop/with_var.go", "compute/optimum.go"],
  [("variable numbering kept in the context", "query/varmanager.go"),
   ("reset", "query/context.go Reset, query/varmanager.go Reset, query/scoper.go Reset"),
   ("consistency clauses of a declared variable", "query/logop/with_var.go encodeI")],
  ["answers and values of each operation in a history"],
  [("vars/topv", "assigned formula variables", "query/varmanager.go")]),

P("B07", "Formula values never change once obtained",
  "Deriving formulas from a formula - appending clauses, conjoining, negating, printing or writing it - never alters that formula or any other formula obtained earlier, in any order of operations and any interleaving of callers sharing them. "
  "Each derived formula has exactly the clauses its operation describes, and a negated formula is satisfied by exactly the valuations of the original variables that keep its consistency clauses and violate its semantic ones. What a formula says about itself (largest variable, trivially true or false, its printed and stored form) agrees with its clauses.",
  ["histories", "schedules"],
  "all histories of operations over a pool of formulas shared by several callers, in all interleavings",
  "Tests perform one operation on one literal formula and look only at its result, never at the formulas that share storage with it.",
  ["cnf/cnf.go"],
  [("value receivers returning new formulas", "cnf/cnf.go AppendSemantics, AppendConsistency, Conjunction, Negate"),
   ("shared trivial formulas", "cnf/cnf.go TrueCNF, FalseCNF, NegClauses")],
  ["clauses of every live formula after each operation"],
  [("sClauses/cClauses", "clause storage shared between derived values", "cnf/cnf.go CNF")]),

P("B08", "Distinct names never share a formula variable, and names stay stable",
  "Between two resets, each (variable, index, value) name keeps one positive number, two different names never get the same number, and numbers taken for auxiliary purposes are never handed out again, whatever the history of declarations, scope pushes, pops, updates and failures. "
  "A variable seen from two different quantifier iterations gets different names if and only if it was declared inside them; a bound constant takes the value of the innermost open scope with its name; a reset, even amid open scopes left by an interrupted encoding, restores the initial state.",
  ["histories", "crash_points", "schedules"],
  "all histories of context operations, with interruption of an encoding at any point followed by reset, on several contexts interleaved",
  "Two tests push one or two scopes once; numbering, popping, shadowing, interruption and reset are never tested.",
  ["query/varmanager.go", "query/scoper.go", "query/context.go"],
  [("map from name triple to number", "query/varmanager.go CNFVar"),
   ("top variable updates", "query/varmanager.go UpdateTopV"),
   ("scope-qualified names", "query/scoper.go ScopeVar")],
  ["numbers and names returned by the context"],
  [("topv", "largest number handed out", "query/varmanager.go"), ("scopes", "open scopes", "query/scoper.go"), ("vars", "declaring depth", "query/scoper.go")]),

P("B09", "The same computation repeated is reproducible to the byte",
  "Running the same computation again on a fresh context, with the same tree and query and a solver that answers equal formulas equally, hands the solver byte-for-byte the same formulas and returns the same answer, value and call count. "
  "Nothing the process does not control - hash-map iteration order, random numbers, temporary file names, files already present, other callers' activity, the clock, the machine's processors, memory and name, the process id, environment variables - influences it.",
  ["schedules", "inputs", "configurations"],
  "all computations, all map iteration orders, temporary names, directory contents and interleavings",
  "No test runs anything twice, and map iteration order is randomised by the runtime, so a test passing once says nothing about the next order.",
  ENC + PRED + COMPUTE,
  [("slices rather than maps drive clause generation", "query/**"),
   ("numbering by order of first use", "query/varmanager.go")],
  ["formula files of two runs", "results of two runs"]),

P("B10", "An ill-formed query is refused with an error wherever its flaw sits",
  "An operation given an ill-formed query - a missing query or sub-query, a missing part of a combination, a missing variable generator, a constant of another dimension than the tree, a quantified name used where nothing binds it, a preference with repeated or out-of-range features, no context (also for reading values), or a tree predicate or quantifier over a tree without nodes or whose nodes it needs name a feature or a child that does not exist - returns an error that is not the unsatisfiability sentinel; never an answer, a formula or a crash, and the solver is never run on it. "
  "This holds wherever the flaw sits (any depth, on either side of a connective, under negation, inside quantifiers, in the order built at a later step of an optimisation, in any part of a combination that gets evaluated) and whatever the context was used for before, and the refusal leaves no file behind and later operations unaffected.",
  ["inputs", "histories", "fault_sequences"],
  "all kinds of flaws at all places of all queries, at every point of a history of operations on one solver and context, including flaws that appear only at a later step",
  "Tests give each predicate alone one wrong constant or a missing context; no test puts a flawed part into a larger query, an optimisation, a combination or a history.",
  PRED + ["query/instances.go", "query/scoper.go"] + COMPUTE + ["query/logop"],
  [("validation of constants, preferences, generators and contexts", "query/instances.go ValidateConstsDim, query/extensions/hepr/util.go, each Encoding"),
   ("validation of the tree's nodes", "query/model.go ValidateNodes, query/logop/forallguarded.go, query/extensions/dfs/utils.go, query/predicates/isnode/const.go"),
   ("errors passed up through the connectives", "query/logop/*.go"),
   ("errors passed up through steps and combinations", "compute/solver.go, compute/optimum.go, compute/boolcomb.go")],
  ["error of steps, evaluations, optimisations, combinations and encodings", "number of solver runs"]),

# Not decided by this technique
P("N03", "Encodings stay polynomial in the size of tree, dimension and query",
  "The number of clauses and variables handed to the solver grows polynomially with the dimension and number of nodes for a fixed quantifier nesting.",
  ["inputs"], "all trees and dimensions",
  "No test measures size.",
  PRED + ENC,
  [("counting and reachability encodings", "query/**")],
  ["size of the formula file"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
