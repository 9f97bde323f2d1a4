"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tool/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, state=state, observe=observe, technique=technique, note=note, na=na))


B = "src/bounds/"
S = "src/search/"
PB = "src/pomdpBounds/"
PA = "src/parsers/"
LS = "src/pomdpModels/lifeSurvey/"

# ------------------------------------------------------------------ bounds
P("B01", "Lower and upper bounds are never mixed up",
  "Every value the solver stores or reports as a lower bound is derived only from rewards, probabilities, the discount and other lower-bound values, and every value stored or reported as an upper bound only from rewards, probabilities, the discount and other upper-bound values. An interval is always built and printed lower end first.",
  ["inputs", "configurations", "histories"],
  "all models, all bound representations and initialisers, all sequences of backups, all places that store, return, log or print a bound",
  "The tests run a handful of tiny models to convergence, where lower and upper bound nearly coincide and a mixed-up value is invisible; several bound representations and options are never run at all.",
  [B + "BoundPair.cc", B + "PointLowerBound.cc", B + "PointUpperBound.cc", B + "RelaxUBInitializer.cc", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc", "src/exec/BoundPairExec.cc", "src/main/TestDriver.cc"],
  [("joint backup of both bounds", B + "BoundPair.cc"), ("interval queries", B + "BoundPair.cc"), ("bound initialisers", B + "RelaxUBInitializer.cc")],
  technique="interprocedural value-provenance dataflow (def-use through helpers and call sites) with lower/upper flavours on fields, calls and returns; sinks are every store, return and interval construction",
  note="decides provenance (which quantities feed a bound), not numeric validity of the bound")
P("B02", "Every backup is the complete discounted Bellman backup",
  "Whenever a bound or value function is backed up at a state, the stored action value is the immediate reward plus the discount factor, applied exactly once, times the probability-weighted sum of the successor bound over every possible outcome; the stored state value is the maximum of the action values over every action. The same holds for the look-ahead values used at run time to choose actions and report Q values.",
  ["inputs", "configurations", "histories"],
  "all models, actions, outcomes, bound representations and backup procedures",
  "Tests check final intervals on a few models to two decimals; a backup that drops an outcome, the discount or an action in one representation or option combination still converges to a plausible value there.",
  [B + "BoundPair.cc", B + "PointLowerBound.cc", B + "PointUpperBound.cc", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc", B + "RelaxUBInitializer.cc", PB + "FullObsUBInitializer.cc", PB + "BlindLBInitializer.cc", PB + "FastInfUBInitializer.cc"],
  [("point-bound backups", B + "PointUpperBound.cc"), ("plane backup", PB + "MaxPlanesLowerBound.cc"), ("run-time look-ahead", B + "BoundPair.cc")],
  technique="value-provenance in a signed-monomial domain: the form of every stored/compared backup value is matched against reward + discount*prob*successor; loop-range analysis for completeness over actions and outcomes; running-extremum recognition",
  note="decides the algebraic form, loop ranges and extremum direction, not floating-point accuracy")
P("B03", "Updating a state never loosens its bounds",
  "After a state has been given its initial bounds, a backup never replaces its upper bound by a larger value and never replaces its lower bound by a smaller one, in any bound representation.",
  ["inputs", "histories", "configurations"],
  "all sequences of backups at all states, all bound representations",
  "The tests look at bounds only at the end of a run; a loosened bound is repaired by later backups on the small test models.",
  [B + "BoundPair.cc", B + "PointLowerBound.cc", B + "PointUpperBound.cc", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc"],
  [("stores to a node's bounds", B + "MDPCache.h")],
  technique="effect analysis: every store to a node's bound outside initialisation must be a min/max (or a comparison-guarded store) that includes the previous value",
  note="decides the shape of the stores; temporary save/restore idioms are recognised as restoring the same value")
P("B04", "Initial bounds follow the documented relaxations",
  "Before any search, the blind-policy lower bound is the best of the per-action worst-reward/fixed-action values, the fully observable upper bound is the optimal value of the underlying observable process, and the fast informed bound maximises over actions inside each observation after summing over next states. A terminal state starts with both bounds zero.",
  ["inputs", "configurations"],
  "all models, all initialiser choices",
  "The tests use a single initialiser choice per representation and models on which a wrong initial bound is quickly overwritten.",
  [PB + "BlindLBInitializer.cc", PB + "FullObsUBInitializer.cc", PB + "FastInfUBInitializer.cc", B + "PointLowerBound.cc", B + "PointUpperBound.cc"],
  [("blind policy iteration", PB + "BlindLBInitializer.cc"), ("value iteration", PB + "FullObsUBInitializer.cc"), ("fast informed bound", PB + "FastInfUBInitializer.cc")],
  technique="value-provenance form matching of the initialisers' iterates, extremum-direction analysis, and path rule for terminal states",
  note="decides the form of the recurrences, not that the iteration has converged")
P("B05", "Every arg-max or arg-min selection really selects the extremum",
  "Wherever the program picks an action, outcome, plane or point because its value is the largest or smallest, the search starts from a value no candidate can lose to, examines every candidate, compares in one consistent direction and remembers the index together with its value.",
  ["inputs", "histories"],
  "all value vectors (including all-negative values, single candidates and ties), at every selection in the code base",
  "The test models exercise a few selections with well separated values; a wrong start value or a forgotten index update shows only on particular value ranges.",
  [B + "BoundPair.cc", B + "BoundPairCore.cc", S + "RTDPCore.cc", S + "FRTDP.cc", S + "HSVI.cc", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc", "src/common/MatrixUtils.h", "src/exec/BoundPairExec.cc", LS + "LSPathAndReactExec.cc"],
  [("action selection", B + "BoundPairCore.cc"), ("outcome selection", S + "RTDPCore.cc"), ("plane selection", PB + "MaxPlanesLowerBound.cc")],
  technique="dataflow recognition of running-extremum variables over the whole program; initial value, update guard, companion index and loop range checked per instance",
  note="instances are discovered from comparison-guarded loop-carried assignments")
P("B06", "Bound evaluation takes the tightest stored element",
  "The lower bound at a belief is the maximum over the stored planes that apply to the belief of the plane's inner product with it; the upper bound is the minimum over the corner interpolation and the sawtooth interpolation through every applicable stored point. When short lists are enabled, only elements filed under one of the belief's own states are consulted, every stored element is filed under all states it applies to, and elements older than a cached choice may be passed over.",
  ["inputs", "histories", "configurations"],
  "all beliefs, all stored plane/point sets, with and without masking, support lists and caching",
  "Tests never compare a bound query against an exhaustive evaluation, and the mask/support options are always at their defaults.",
  [PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc"],
  [("plane evaluation", PB + "MaxPlanesLowerBound.cc"), ("sawtooth interpolation", PB + "SawtoothUpperBound.cc")],
  technique="value-provenance form matching of the evaluation routines, loop-range and extremum-direction analysis, guard analysis (mask applicability before use)",
  note="decides form, direction and guards; not numerical tolerance")
P("B07", "Pruning removes only redundant planes and points",
  "A plane or point is discarded only when another retained element is at least as tight everywhere the discarded one applies (within the configured tolerance), or because its interpolated value adds nothing, and never merely because it is compared with itself.",
  ["inputs", "histories", "configurations"],
  "all sets of planes/points and all pruning options",
  "Pruning a needed element only makes the bound slightly looser on the small test models; extra pruning options are not run.",
  [PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc", "src/common/sla.h", "src/common/sla_mask.h"],
  [("pairwise dominance pruning", PB + "MaxPlanesLowerBound.cc"), ("point pruning", PB + "SawtoothUpperBound.cc")],
  technique="guard analysis: every erase/delete of a plane or point is dominated by a dominance test whose arguments are in the right order and distinct; direction analysis of the dominance predicates",
  note="decides the guards and argument roles")

# ------------------------------------------------------------------ search
P("S01", "An outcome of zero probability is never followed",
  "Outcomes that cannot happen are represented as absent, and no search, backup, storage or bookkeeping code ever follows an absent outcome.",
  ["inputs", "histories"],
  "all models (any pattern of zero-probability outcomes), all strategies and bound representations",
  "Whether an absent outcome is reached depends on the model's zero pattern; the test models exercise few patterns.",
  [B + "BoundPair.cc", B + "BoundPairCore.cc", S + "RTDPCore.cc", S + "FRTDP.cc", S + "HSVI.cc", S + "LRTDP.cc", S + "HDP.cc", B + "RelaxUBInitializer.cc", PB + "SawtoothUpperBound.cc", PB + "MaxPlanesLowerBound.cc"],
  [("outcome lists", B + "MDPCache.h"), ("expansion", B + "BoundPair.cc")],
  technique="nullness typestate: every dereference of an outcome edge is dominated by a non-null test of the same edge (available-condition dataflow, predicates and helpers expanded), selected outcome indices are null-checked at selection",
  note="")
P("S02", "Every backup is counted and trials are backed up in reverse order",
  "Every backup a strategy performs goes through the routine that updates both bounds and is counted and logged (when logging is on). In the depth-first strategies (HSVI, FRTDP, RTDP) every state visited by a trial is backed up before the trial descends from it and again on the way back, deepest first.",
  ["inputs", "histories", "configurations"],
  "all strategies, all trials",
  "The backup log and counters are not compared by any test; a missing backup merely slows convergence.",
  [S + "RTDPCore.cc", S + "FRTDP.cc", S + "HSVI.cc", S + "RTDP.cc", S + "LRTDP.cc", S + "HDP.cc", B + "BoundPair.cc"],
  [("trial recursion", S + "HSVI.cc"), ("backup tracking", S + "RTDPCore.cc")],
  technique="CFG path rules (must-pass-through with helper summaries) over the trial and update routines of every strategy",
  note="")
P("S03", "Each state has exactly one fully initialised node",
  "Asking for the same state twice yields the same search node; a new node is registered before it is returned, has its state, terminal flag and both bounds set, and is announced to every registered observer exactly once.",
  ["inputs", "histories", "configurations"],
  "all states reached in any order, all strategies",
  "Tests cannot see duplicate or half-initialised nodes; they only slow the search or surface as rare garbage values.",
  [B + "BoundPair.cc", B + "RelaxUBInitializer.cc", S + "StateLog.cc", "src/mdps/CacheMDP.cc"],
  [("node table", B + "BoundPair.cc")],
  technique="CFG path rules on the lookup/creation routines: creation only on the not-found branch, insertion under the searched key and field initialisation on every path from creation to return",
  note="the key is assumed to identify the state")
P("S04", "Solving stops only for a documented reason",
  "A run stops only when the regret at the initial state is within the requested precision, the strategy has proved the initial state solved (or its script ended), the time limit, backup limit or a requested bound value is reached, or the user interrupts it; in each of those cases it stops before another trial, otherwise it runs another trial from the initial state.",
  ["inputs", "configurations", "histories"],
  "all models, strategies and limit settings",
  "Tests run with generous limits and compare final values only.",
  ["src/main/TestDriver.cc", "src/main/zmdp.cc", S + "FRTDP.cc", S + "HSVI.cc", S + "RTDP.cc", S + "LRTDP.cc", S + "HDP.cc", S + "RTDPCore.cc"],
  [("termination tests", "src/main/TestDriver.cc"), ("strategy completion", S + "RTDPCore.cc")],
  technique="normalised-condition analysis of every exit of the solve loops and of every true result of the strategies' completion tests",
  note="decides the stopping conditions, not that they are eventually met")
P("S05", "Trials follow the most promising outcome and stop where they should",
  "During a trial each strategy descends into an outcome chosen by its documented criterion - largest probability-weighted excess uncertainty or priority, or sampled by probability - under the action with the best upper bound, and ends the trial exactly when the width at the state no longer exceeds the (depth-adjusted) target, the depth limit is passed, or the state is terminal or solved. Strategies that label states as solved do so only when no state examined had a residual above the precision.",
  ["inputs", "histories"],
  "all states and depths visited, all strategies",
  "Choosing the wrong outcome or stopping late still converges on small models.",
  [S + "FRTDP.cc", S + "HSVI.cc", S + "RTDP.cc", S + "LRTDP.cc", S + "HDP.cc"],
  [("trial recursion", S + "HSVI.cc"), ("priority", S + "FRTDP.cc")],
  technique="value-provenance forms of priorities/targets and normalised guard conditions of the recursive calls",
  note="")
P("S06", "Per-state strategy data exists before it is used",
  "A strategy that keeps private data per state attaches it to every state the moment the state is created, starting from the documented initial values.",
  ["inputs", "histories", "configurations"],
  "all states created by any code path, all strategies that keep per-state data",
  "Only the default creation order is exercised by tests; a missing registration crashes or reads garbage only on other orders.",
  [S + "FRTDP.cc", S + "LRTDP.cc", S + "HDP.cc", PB + "MaxPlanesLowerBound.cc", B + "BoundPairCore.h"],
  [("node observers", B + "BoundPairCore.h")],
  technique="typestate over registration: every class that casts a node's private-data pointer registers a handler storing that type on all paths of its initialisation before the first node is created; handlers assign every field",
  note="")

# ------------------------------------------------------------------ model
P("M01", "Belief tracking follows Bayes' rule",
  "The probability of an observation after an action is the sum over next states of the observation probability times the predicted state probability, the next belief is that product divided by its sum, the predicted belief comes from the transition matrix of the executed action, and the reward of a belief is the belief-weighted state reward of that action.",
  ["inputs", "histories"],
  "all models, beliefs, actions, observations",
  "Tests compare only aggregated final values on a few models with symmetric structure.",
  ["src/pomdpCore/Pomdp.cc", "src/exec/BoundPairExec.cc", "src/exec/PolicyEvaluator.cc"],
  [("belief update", "src/pomdpCore/Pomdp.cc")],
  technique="value-provenance form matching of the model routines, including normalisation on every path",
  note="decides the formula, not rounding")
P("M02", "State, action and observation indices are never confused",
  "Every loop over and every access to a model table uses an index of the kind (state, next state, action, observation) the table expects in that position, bounded by the matching count, in all readers, model classes, initialisers and bounds.",
  ["inputs", "programs"],
  "all models with differing numbers of states, actions and observations",
  "Most test models have similar or tiny dimensions, so a confused index stays in range and often gives the same result.",
  [PA + "CassandraParser.cc", PA + "FastParser.cc", PA + "mdp.c", PA + "imm-reward.c", "src/pomdpCore/Pomdp.cc", "src/mdps/GenericDiscreteMDP.cc", PB + "BlindLBInitializer.cc", PB + "FastInfUBInitializer.cc", PB + "FullObsUBInitializer.cc", PB + "MaxPlanesLowerBound.cc"],
  [("model tables", PA + "CassandraModel.h")],
  technique="type-qualifier inference: index kinds are propagated by unification from table accesses, dimension counts and interface parameters; a variable receiving two kinds is a violation",
  note="")
P("M03", "Ill-formed probability distributions are rejected",
  "A model file in which a transition, observation or start distribution has a negative entry or does not sum to one (within the documented tolerance) is rejected with a diagnostic by both readers, for every action and state.",
  ["inputs"],
  "all model files, both readers",
  "No test feeds a malformed model.",
  [PA + "FastParser.cc", PA + "mdp.c", PA + "CassandraParser.cc", PA + "pomdp_spec.y"],
  [("normalisation checks", PA + "mdp.c"), ("normalisation checks", PA + "FastParser.cc")],
  technique="CFG path rules: every accepting path of each reader passes a sum-to-one test over every row; the failing branch reaches a fatal exit; loop ranges cover all rows",
  note="")
P("M04", "Later model lines override earlier ones and wildcards cover every index",
  "When several lines of a model file define the same probability or reward, the last one wins, including lines that set an entry to zero; a wildcard stands for every index in its position.",
  ["inputs"],
  "all model files in the textual format",
  "Test models rarely redefine entries.",
  [PA + "imm-reward.c", PA + "decision-tree.c", PA + "sparse-matrix.c", PA + "pomdp_spec.y", PA + "FastParser.cc"],
  [("reward tree", PA + "decision-tree.c"), ("intermediate matrices", PA + "sparse-matrix.c"), ("line actions", PA + "pomdp_spec.y")],
  technique="CFG/def-use rules on the table writers: unconditional overwrite on match, wildcard loops cover the full index range, reward tree search order",
  note="")
P("M05", "Numbers read from a model file are checked before they index anything",
  "An index written in an input file is used to address a table only after it has been compared against the table's size on both sides; an out-of-range index is rejected with a diagnostic.",
  ["inputs"],
  "all model, policy and log files, valid or not",
  "No test feeds an out-of-range index.",
  [PA + "FastParser.cc", PA + "pomdp_spec.y", PA + "parse_hash.c", PB + "MaxPlanesLowerBound.cc", S + "StateLog.cc", S + "ScriptedUpdater.cc"],
  [("line readers", PA + "FastParser.cc"), ("plane reader", PB + "MaxPlanesLowerBound.cc")],
  technique="taint analysis: integers parsed from text are sources, table subscripts and counts are sinks, both-sided range comparisons with the failing side leaving the path are sanitizers",
  note="")
P("M06", "Every reported input error stops the program with a failure status",
  "Whenever a reader or the command line prints an error diagnostic, the run ends with a non-zero exit status and no result computed from the rejected input.",
  ["inputs", "configurations"],
  "all inputs and command lines that provoke a diagnostic",
  "Tests run only valid inputs.",
  ["src/main/zmdp.cc", "src/common/zmdpConfig.cc", PA + "FastParser.cc", PA + "CassandraParser.cc", PA + "parse_err.c", PA + "mdp.c", PB + "MaxPlanesLowerBound.cc", S + "StateLog.cc", "src/mdps/RaceTrack.cc", LS + "LSModelFile.cc"],
  [("diagnostics", "all readers")],
  technique="must-reach analysis: from every diagnostic whose text announces an error, every path leads to a no-return exit with a non-zero status (or to a failure return that every caller turns into one)",
  note="")
P("M07", "Reading stops on every malformed or truncated file",
  "Every loop that reads a file ends on end of file and on every kind of read failure - truncated, over-long lines, unreadable or directory - and a last line without a newline is still taken into account.",
  ["inputs", "fault_sequences"],
  "all files, all I/O failures while reading",
  "Tests read only well-formed files.",
  ["src/common/zmdpConfig.cc", PA + "FastParser.cc", PB + "MaxPlanesLowerBound.cc", S + "StateLog.cc", S + "ScriptedUpdater.cc", "src/mdps/RaceTrack.cc", LS + "LSModelFile.cc"],
  [("line loops", "all readers")],
  technique="loop typestate over input streams: every loop that reads must leave on a failed read (the read's own result or fail state tested on every iteration path before the next read), and must not discard data read together with end of file",
  note="")
P("M08", "Text from input files never overflows a buffer",
  "No input text, however long, is copied into a fixed-size buffer without a bound that fits the buffer.",
  ["inputs"],
  "all input files and command lines",
  "Tests use short names and lines.",
  [PA + "FastParser.cc", PA + "parse_hash.c", PA + "parse_err.c", PA + "mdp.c", PA + "pomdp_spec.l", "src/common/zmdpConfig.cc", "src/common/zmdpCommonTypes.cc", LS + "LSModelFile.cc", "src/common/MatrixUtils.h"],
  [("formatted reads and copies", PA + "FastParser.cc")],
  technique="type-resolved call-site rule over every unbounded-copy API (sscanf %s, strcpy, sprintf, gets, getline with size): destination capacity versus bound, with provenance of the source",
  note="")
P("M09", "Both parsers produce the same kind of model",
  "Every accepted model, from either reader, has its state, action and observation counts, discount, rewards, transition, transposed transition and observation tables and initial distribution all filled in, mutually consistent and with cost models negated into rewards.",
  ["inputs"],
  "all accepted model files, both readers",
  "Tests compare the two readers on one or two models.",
  [PA + "FastParser.cc", PA + "CassandraParser.cc", PA + "CassandraModel.h", PA + "mdp.c"],
  [("model filling", PA + "CassandraParser.cc"), ("model filling", PA + "FastParser.cc")],
  technique="definite-assignment analysis of the model's fields on every accepting path of both readers; provenance of each table (transposition parity, index roles)",
  note="")
P("M10", "Parser tables are complete",
  "Every error code the model-file parser can raise has its own message, and every reserved word has its own token; no code, message or word is out of step with another.",
  ["inputs", "programs"],
  "all error codes and reserved words",
  "No test triggers a parser error.",
  [PA + "parse_err.c", PA + "parse_err.h", PA + "pomdp_spec.l", PA + "pomdp_spec.y"],
  [("error table", PA + "parse_err.c")],
  technique="exhaustiveness: code constants used at raise sites versus message-table length and contents; reserved-word table cross-check",
  note="")

P("M11", "Models given as explicit tables are enumerated consistently",
  "For a model given as tables, the outcomes of an action in a state are exactly the filled entries of that state's transition row, numbered the same way whenever probabilities and successors are asked for; reward and terminal flag are those of the state and action asked about. A state counts as terminal only if every action leaves it unchanged and earns nothing.",
  ["inputs"],
  "all table-driven models, states, actions and outcome numbers",
  "The explicit-model path is run on one or two tiny models whose rows have one or two entries.",
  ["src/mdps/GenericDiscreteMDP.cc", PA + "CassandraModel.cc"],
  [("outcome enumeration", "src/mdps/GenericDiscreteMDP.cc"), ("terminal states", PA + "CassandraModel.cc")],
  technique="value-provenance form matching plus loop-counter analysis (start value, one step per entry on every path, same index base in both routines)",
  note="")

# ------------------------------------------------------------------ configuration
P("C01", "Configuration values come from defaults, then file, then command line",
  "The value a run uses for an option is the one given on the command line if any, else the one in the configuration file if any, else the built-in default; an option name that is not known, or a line that is not understood, is rejected with an error.",
  ["configurations", "inputs"],
  "all combinations of defaults, configuration files and command-line options",
  "Tests use a few options on the command line only.",
  ["src/common/zmdpConfig.cc", "src/main/zmdp.cc", "src/main/zmdp.config"],
  [("option table", "src/common/zmdpConfig.cc"), ("command line", "src/main/zmdp.cc")],
  technique="CFG ordering rules on the option readers in every program entry point; guard rule on the table writer (unknown name leads to a fatal exit)",
  note="")
P("C02", "Every option the program consults is a declared option",
  "Every option name the program looks up or sets exists in the built-in configuration with a default of the type the program asks for, and every declared option is consulted somewhere.",
  ["configurations", "programs"],
  "all option names in the program",
  "An option is looked up only on the path that needs it, so a misspelt name fails only there.",
  ["src/main/zmdp.config", "src/main/zmdp.cc", "src/main/solverUtils.cc", "src/main/TestDriver.cc", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc", S + "HSVI.cc"],
  [("option lookups", "src/common/zmdpConfig.h")],
  technique="cross-artifact agreement: string keys at every lookup/set call site (through helpers and tables) versus the embedded default configuration, with type compatibility",
  note="")
P("C03", "Every documented option value selects its own behaviour and others are refused",
  "For each option with a fixed list of values, every documented value leads to the behaviour it names and any other value ends the run with an error, never to a silently different behaviour.",
  ["configurations"],
  "all documented and undocumented values of enumerated options",
  "Tests use only a few of the values.",
  ["src/main/solverUtils.cc", "src/main/zmdp.cc", "src/main/TestDriver.cc", "src/main/zmdp.config"],
  [("selection tables", "src/main/solverUtils.cc")],
  technique="exhaustiveness of selection tables and switches (enum values handled, default branch fatal, documented values equal table entries, each maps to its own class)",
  note="")
P("C04", "Options whose prerequisites are off are refused",
  "When an option is documented to require another, or a bound representation cannot work with a model or strategy, the combination is refused with an error before solving starts instead of giving a wrong answer.",
  ["configurations"],
  "all combinations of bound options",
  "Tests never set conflicting options.",
  [PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc", "src/main/solverUtils.cc", "src/main/zmdp.config"],
  [("option intake", PB + "MaxPlanesLowerBound.cc")],
  technique="must-check rule: the documented requires-relations become guard obligations (a fatal exit under option and not prerequisite) on every path of option intake",
  note="")

P("C05", "Special values of numeric options switch the feature off",
  "A numeric option set to the value documented as 'no limit', 'not used' or 'all' (zero or negative counts and times, the reserved bound value) behaves as if the feature were absent: it never ends a run early, truncates a trial or bounds a value.",
  ["configurations"],
  "all numeric options with reserved values",
  "Tests leave these options at one setting, so a reserved value taken literally is not seen.",
  ["src/main/TestDriver.cc", "src/main/solverUtils.cc", S + "RTDPCore.cc", "src/exec/PolicyEvaluator.cc", "src/pomdpCore/Pomdp.cc", "src/mdps/GenericDiscreteMDP.cc"],
  [("option intake", "src/main/solverUtils.cc"), ("benchmark loop", "src/main/TestDriver.cc")],
  technique="constant propagation over the interprocedural flow graph under assumed option values: which constants reach the comparisons, loop bounds and calls",
  note="")

# ------------------------------------------------------------------ execution / evaluation
P("E01", "Simulated runs accumulate discounted reward correctly",
  "In every simulated trial the reported reward is the sum over steps of the step's reward times the discount raised to the step number, starting at power zero, one action and observation per step, and the trial ends exactly at a terminal state or after the configured number of steps.",
  ["inputs", "configurations", "histories"],
  "all policies, models, trial lengths",
  "Statistical test tolerances hide an off-by-one power or a lost last step.",
  ["src/exec/PolicyEvaluator.cc", "src/common/MDPSim.cc", "src/exec/MDPExec.cc", "src/exec/BoundPairExec.cc"],
  [("trial loop", "src/exec/PolicyEvaluator.cc"), ("simulator", "src/common/MDPSim.cc")],
  technique="value-provenance of the reward accumulator and the discount power, ordering rules inside the trial loop, normalised exit conditions",
  note="")
P("E02", "Asking a policy a question never changes it",
  "Querying bounds, action values or the recommended action, evaluating a policy by simulation and measuring storage leave the solver's bounds, stored planes and points, counters and search graph unchanged.",
  ["inputs", "histories"],
  "all query sequences, at any point of a run",
  "Tests never compare solver state before and after queries.",
  [B + "BoundPair.cc", B + "AbstractBound.h", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc", "src/exec/BoundPairExec.cc", "src/exec/PolicyEvaluator.cc"],
  [("const queries", B + "BoundPairCore.h")],
  technique="interprocedural effect (purity) analysis over the call graph: no store to solver state is reachable from the query interface",
  note="")
P("E03", "Random choices follow the distribution they are given",
  "All randomness comes from one generator that every command seeds exactly once, before its first use. A random choice draws one number and follows the given probabilities: an index is returned as often as its share says, whatever its position, and never one that has no probability.",
  ["inputs", "configurations", "histories"],
  "all commands, seeds and distributions",
  "Tests are statistical and tolerate bad sampling.",
  ["src/common/MatrixUtils.h", "src/main/zmdp.cc", "src/main/solverUtils.cc", "src/common/MDPSim.cc", B + "BoundPairCore.cc"],
  [("generator", "src/common/MatrixUtils.h")],
  technique="who-may-call rule on randomness sources, path rule for seeding in each command (exactly once on every path, before any draw), and value-provenance/guard analysis of the sampling loops (one draw, full range, each weight taken off once, only entries with weight returned)",
  note="the seed is the wall clock, so runs are not reproducible by design; statistical quality of the generator is not decided")
P("E04", "Time and statistics are computed from the right quantities",
  "Instants are added, subtracted, compared and converted with correct carry between seconds and microseconds. Reported means divide a sum over all samples by the number of samples, the confidence limits are the two tails of the sorted resampled means, and no configuration value can cause a division by zero.",
  ["inputs", "configurations"],
  "all instants, sample sets and configuration values",
  "Tests never look at reported times and use default epoch sizes.",
  ["src/common/zmdpCommonTime.cc", "src/common/MatrixUtils.h", "src/exec/PolicyEvaluator.cc", LS + "calcLSTrialStats.cc"],
  [("time arithmetic", "src/common/zmdpCommonTime.cc")],
  technique="provenance and normalised-guard analysis of carries, and taint from configuration integers to divisors with positivity checks as sanitizers",
  note="")

# ------------------------------------------------------------------ I/O
P("I01", "A file that cannot be opened is always reported",
  "Whenever an input or output file named by the user cannot be opened, the program says so and stops with a failure status; it never carries on as if the file were there.",
  ["fault_sequences", "configurations", "inputs"],
  "every file the program opens, every reason for open failure",
  "Tests always provide readable and writable files.",
  ["src/main/TestDriver.cc", "src/exec/PolicyEvaluator.cc", "src/common/zmdpConfig.cc", PB + "MaxPlanesLowerBound.cc", S + "StateLog.cc", PA + "FastParser.cc", PA + "mdp.c", "src/mdps/RaceTrack.cc", LS + "LSModelFile.cc"],
  [("opens", "all file users")],
  technique="typestate over streams and FILE pointers: every opened object is tested for success (the stream, not its address) before its first use, and the failing branch reaches a fatal exit",
  note="")
P("I02", "A policy or log that could not be written completely is reported",
  "If writing a policy, log or data file fails part-way (for example the disk is full), the program reports the failure instead of leaving a truncated file silently.",
  ["fault_sequences"],
  "every output file, every write failure point",
  "Tests never make writes fail.",
  [PB + "MaxPlanesLowerBound.cc", S + "StateLog.cc", "src/main/TestDriver.cc", "src/exec/PolicyEvaluator.cc", LS + "LSModelFile.cc"],
  [("writers", "all file writers")],
  technique="typestate: on every path from the last write of a file the close/flush result is tested and the failing branch is fatal",
  note="")
P("I03", "An interrupt ends the run cleanly with the policy saved",
  "When the user interrupts a run, the signal handler only records the request and calls nothing that is unsafe inside a handler, and the solving loop notices the request before it starts another step. Every normal end of a solve, including this one, writes the requested policy file.",
  ["schedules", "crash_points"],
  "an interrupt at any instant of a run",
  "No test sends a signal.",
  ["src/main/zmdp.cc", "src/main/solverUtils.cc", "src/main/TestDriver.cc"],
  [("signal handler", "src/main/zmdp.cc"), ("solve loop", "src/main/zmdp.cc")],
  technique="async-signal effect analysis of the handler (only assignments to sig_atomic_t/lock-free flags), must-poll rule on the solve loops and must-pass-through of the policy write",
  note="")
P("I07", "The previous policy is kept until the new one is complete",
  "When a run writes a policy over an earlier one, the earlier file is moved aside before the new one is started and is removed only after the new one has been written completely. File names chosen by the user are never handed to a command interpreter.",
  ["crash_points", "fault_sequences", "inputs"],
  "every policy file a run replaces, every point at which it is interrupted, every file name",
  "Tests write each policy once into an empty directory.",
  ["src/main/TestDriver.cc"],
  [("policy replacement", "src/main/TestDriver.cc")],
  technique="path-order rules over renames, removals and policy writes with the pieces of their file names, and a who-may-call rule on command interpreters",
  note="")
P("I04", "A saved policy is read back as the same policy",
  "The policy file format written by the solver and the one accepted by the reader agree: every keyword, count and entry written is expected by the reader in the same order, with the same index base, and read into the same part of the plane.",
  ["histories", "inputs"],
  "all plane sets",
  "One test evaluates one saved policy.",
  [PB + "MaxPlanesLowerBound.cc"],
  [("writer", PB + "MaxPlanesLowerBound.cc"), ("reader", PB + "MaxPlanesLowerBound.cc")],
  technique="writer/reader agreement: ordered token grammar extracted from the writer's insertions against the reader's keyword comparisons and conversions, field by field",
  note="decides structural agreement, not value round-trip precision beyond the stream precision setting")
P("I05", "State and backup logs are read back as they were written",
  "The state index and backup/evaluation logs written during a run are accepted by the corresponding readers: same number, order and type of columns per line, same index base.",
  ["histories", "inputs"],
  "all logs",
  "The script strategy that reads the logs is not tested.",
  [S + "StateLog.cc", S + "ScriptedUpdater.cc"],
  [("log writers and readers", S + "StateLog.cc")],
  technique="writer/reader agreement of insertion and extraction sequences, field by field",
  note="")
P("I06", "Survey model files are read back as they were written",
  "Every parameter and map row written to a survey model file is expected by its reader under the same name and stored in the same parameter, and every parameter the reader requires is written.",
  ["inputs", "histories"],
  "all survey model files",
  "The survey tools are not tested.",
  [LS + "LSModelFile.cc"],
  [("writer and reader", LS + "LSModelFile.cc")],
  technique="writer/reader agreement of keyword sets and of the field attached to each keyword",
  note="")

# ------------------------------------------------------------------ memory
P("G01", "Discarded planes and points are never used again",
  "When a plane or point is destroyed, every list, support index and cached pointer that mentions it has been cleared or redirected first, and nothing uses it afterwards.",
  ["histories", "configurations"],
  "all sequences of additions, prunings and backups, all storage options",
  "A dangling pointer misbehaves only after particular prune/backup sequences.",
  [PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc"],
  [("plane deletion", PB + "MaxPlanesLowerBound.cc"), ("point deletion", PB + "SawtoothUpperBound.cc")],
  technique="ownership/typestate: each delete is preceded on every path by removal from every container and back-pointer set that can hold it; no use after delete; iterators not used after invalidating erase",
  note="")
P("G02", "No stored field or local is read before it is written",
  "Every number, flag and pointer held in a node, plane, point, edge, result record, solver or configuration object, and every such local variable, has been given a value before it is first read.",
  ["inputs", "histories", "configurations"],
  "all objects created on any path, all functions",
  "Uninitialised memory often holds zero in short test runs.",
  [B + "MDPCache.h", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc", B + "RelaxUBInitializer.cc", S + "HSVI.cc", S + "FRTDP.cc", "src/exec/PolicyEvaluator.cc"],
  [("constructors and creation sites", "all classes")],
  technique="definite-initialisation dataflow: every scalar local on every path to each use (callees summarised by what they always store); every scalar field an object is created without, at each creation site, stored by the creating function on every path, by a setup method, or before each read in all callers",
  note="arrays and element types of containers are not tracked; a setup method is required to exist and always store the field, not shown to run first")

# ------------------------------------------------------------------ domain models
P("X01", "Race track dynamics enumerate every outcome once with total probability one",
  "In the race-track model, the outcomes of an action are numbered consistently between the probability list and the successor function, their probabilities lie between 0 and 1 and sum to one, every acceleration decoded from an action number is one of the nine legal ones, and positions are looked up only inside the map.",
  ["inputs"],
  "all race-track maps, states, actions and outcomes",
  "Only one small track is run.",
  ["src/mdps/RaceTrack.cc", "src/mdps/RaceTrack.h"],
  [("dynamics", "src/mdps/RaceTrack.cc")],
  technique="abstract interpretation of both outcome routines over symbolic states (ghost sum of the probability list, origins of moved weight) for every kind of state, option, action and outcome number; guard dominance for map subscripts and line results",
  note="")
P("X02", "The model cache behaves exactly like the model it wraps",
  "The model cache returns for every state and action the same reward, outcome probabilities, terminal flag and successors as the wrapped model, and the wrapped model is consulted with the same state, action and outcome that was asked for.",
  ["inputs", "histories"],
  "all states, actions and query orders",
  "The cache is used in few tests, whose values tolerate small errors.",
  ["src/mdps/CacheMDP.cc", "src/mdps/CustomMDP.cc", "src/mdps/GenericDiscreteMDP.cc", PB + "FullObsUBInitializer.cc"],
  [("cache", "src/mdps/CacheMDP.cc")],
  technique="forwarding analysis: argument roles of every call from the wrapper to the wrapped model and of what is stored and returned",
  note="")
P("X03", "Survey states stay on the map, and every state has its own name and number",
  "In the survey model, a map cell is read or written only at coordinates inside the map, and a move leads to a state only if the cell it enters was looked up and is no obstacle. Two different states never share a name or a number, decoding an action or observation number and encoding it again gives the same number, and what was known about a cell still belongs to that cell after a move.",
  ["inputs"],
  "all maps, positions, headings, action and observation numbers",
  "The survey tools are not tested.",
  [LS + "LifeSurvey.cc", LS + "LifeSurvey.h", LS + "LSModelFile.cc", LS + "LSPathAndReactExec.cc", LS + "dumpMap.cc"],
  [("grid access", LS + "LSModelFile.h")],
  technique="who-may-call rule on unchecked cell access with bounds-guard dataflow; constant propagation through encoders and decoders",
  note="Loops and guards on the way to every unchecked map access, the bounded look-up before every stored position, and the fields a state's name reads.")

P("X04", "Survey outcomes and look-ahead readings have total probability one",
  "For every state and action of the survey model, the listed successor states have probabilities that add up to one, and so have the listed observations; only results of probability zero are left out.",
  ["inputs"],
  "all maps, priors, observation distributions, states and actions",
  "The survey tools are not tested.",
  [LS + "LifeSurvey.cc", LS + "LSModelFile.cc"],
  [("getOutcomes", LS + "LifeSurvey.cc"), ("getObservations", LS + "LifeSurvey.cc")],
  technique="abstract interpretation over polynomial forms, path by path, with undecided conditions taken both ways",
  note="Assumes that a region's prior and a stored 0/1 flag are single numbers; relies on no range of theirs.")

# ------------------------------------------------------------------ not applicable
P("Z01", "The solver converges to the requested precision",
  "Given enough time, the regret bound at the initial state falls below the requested precision for every model with discount below one.",
  ["inputs", "schedules"], "all models and all run lengths",
  "Convergence is asymptotic and depends on the model; tests cover a few tiny models.",
  [S + "HSVI.cc", S + "FRTDP.cc"], [("search strategies", S + "RTDPCore.cc")],
  na="asymptotic convergence is a property of numeric iterates over unbounded histories; no shape of the code implies it (the structural ingredients are claimed as B01-B03, S01-S06)")
P("Z02", "Bounds are numerically valid",
  "At every moment the reported lower bound is at most the optimal value and the reported upper bound at least the optimal value, up to rounding.",
  ["inputs", "histories"], "all models, all moments of a run",
  "The optimal value is unknown except for trivial models.",
  [B + "BoundPair.cc"], [("bounds", B + "BoundPair.cc")],
  na="needs the optimal value function of an arbitrary model; the necessary structural conditions (forms, directions, provenance, monotone stores) are claimed as B01-B07")
P("Z03", "Confidence intervals have their nominal coverage",
  "The confidence interval reported for a policy's mean reward contains the true mean with the stated probability.",
  ["inputs", "histories"], "all policies and random streams",
  "Coverage is a statistical statement over random streams.",
  ["src/common/MatrixUtils.h", "src/exec/PolicyEvaluator.cc"], [("bootstrap", "src/common/MatrixUtils.h")],
  na="a statistical property of random streams; static analysis of the source cannot bound it")
P("Z04", "The sparse linear algebra agrees with dense arithmetic",
  "Every sparse vector and matrix operation gives the result the dense operation would give, for every pattern of stored zeros.",
  ["inputs"], "all vectors and matrices",
  "The random self-test of the library is not part of the test suite.",
  ["src/common/sla.h", "src/common/sla_mask.h"], [("sparse operations", "src/common/sla.h")],
  na="result equality over runtime data; the merge loops' correctness depends on sortedness and value relations that a static shape rule would only approximate")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, p["id"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            f.write(json.dumps(d) + "\n")
    sys.path.insert(0, os.path.join(HERE, "sa"))
    try:
        import rules
        have = set(rules.RULES)
    except ImportError:
        have = set()
    m = dict(version=1, setup_cmd="python3 sa/prep.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                          thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                          technique=p["technique"], level="other",
                          level_note=(p["note"] or "decides the structural clauses named under the technique") +
                          "; every rule is exhaustive over the constructs it selects in the current source, so quick and thorough analyse the same whole program")
                     for p in PROPS if not p["na"] and p["id"] in have],
             not_applicable=[dict(property=p["id"], reason=p["na"] or "no check armed yet") for p in PROPS
                             if p["na"] or p["id"] not in have])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(m["checks"]), "checks")


if __name__ == "__main__":
    main()
