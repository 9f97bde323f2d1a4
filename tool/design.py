#!/usr/bin/env python3
"""writes DESIGN.md from the prose below, properties.jsonl, MANIFEST.json and the rules' own texts"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
import rules

HEAD = """# Static verification of zmdp

(written by `python3 tool/design.py`; edit the prose there)

## 1. How a check works

`python3 run.py <ID> --tier quick|thorough` does the same thing for every property; nothing of zmdp is ever executed.

1. **Extraction** (`tool/extract.cpp`, `sa/prep.py`). A small libclang/LibTooling program, compiled by `setup_cmd` (and by
   the check itself when it is missing), parses every translation unit of /repo/src that belongs to the product (bounds,
   common, exec, main, mdps, parsers including the flex/bison output generated afresh from the current .l/.y, pomdpBounds,
   pomdpCore, pomdpModels/lifeSurvey, search) with the build's own flags and dumps the type-checked syntax tree, clang's
   CFG of every function, class records with bases, fields and overriders, globals with initialisers, and the text of
   `zmdp.config`. Extraction runs in a temporary directory, so /repo stays untouched; facts are never cached between runs
   in the registered commands. About 8-20 s.
2. **Program model** (`sa/core.py`). Call graph with class-hierarchy resolution of virtual calls, no-return inference and
   CFG pruning, definitions and reaching definitions, `hits_after / hits_before / can_reach` path queries, facts implied
   by branch conditions at a point.
3. **Values** (`sa/vals.py`). An abstract evaluator: every expression becomes a set of alternatives, each a polynomial
   over symbolic atoms (fields, parameters, calls, loop variables, min/max). It follows reaching definitions, out
   parameters, simple loops (sums, extrema), helper calls and - with a context - call sites. It is value propagation in a
   fixed abstract domain with widening ("rec", "~"), not path enumeration and not solving: no formula is ever handed to
   a solver.
4. **Path rules** (`sa/rules/common.py`). `uncut(fn, start, target, edges, elem)` asks whether some CFG path from start
   reaches target without crossing one of the given edges or elements; `guarded(node, pred)` whether every path to a node
   crosses an edge on which the predicate holds (flag variables are followed to the conditions that set them, and the
   question is repeated at all call sites when the function itself has no such test); `lift`/`always` make an element
   predicate hold for calls that always lead to it.
5. **Rules** (`sa/rules/*.py`). A property is a set of rules; each rule enumerates its obligations from the current source
   (stores, call sites, loops, returns, table entries ...), decides each, and reports `file:line`, the function and the
   reason for each that fails. `evidence/<ID>.json` holds the obligations counted per rule, functions analysed and rule texts.
   A rule that finds fewer obligations than the code base must have ("need") gives no answer (exit 2) rather than passing
   vacuously; the other rules of the property are decided all the same.

Quick and thorough run the same analysis: every rule is exhaustive over the constructs it selects, so there is no
deeper bound to reach and nothing is left for a slower run to explore.

Why this reaches what tests cannot: each rule quantifies over every path, call site, option value, input byte or table
entry of the program text, where the 15 tests run one path through a handful of small models with default options.

Exit codes: 0 held, 1 with `VIOLATION property=<id> replay=<path>` (the replay file lists each violating construct), 2 when
the source could not be parsed (no answer).

### Other analyses built for single families

* `sa/flow.py`, `sa/rules/taint.py`: taint of numbers read from files with lower- and upper-bound bits cleared by
  dominating comparisons (M05).
* `sa/absint.py`: intervals and string-length abstraction for buffers (M08).
* `sa/kinds.py`: index kinds (state / action / observation / outcome) inferred by unification over all variables, containers
  and call signatures, polymorphic per call (M02).
* `sa/rules/modelread.py`: an abstract interpreter of the option-reading code that decides which classes each documented
  option value makes reachable (C03-C05), and of the two model parsers.
* `sa/rules/files.py`: ordered token grammars extracted from writers, run through an abstract reader in every reachable
  monitor state (I04-I06).
* `sa/rules/effects.py`: interprocedural write-effect analysis over access paths (E02).

## 2. Properties

"""

# id -> (how it is decided, limits)
P = {
"B01": ("Provenance: each quantity is lower, upper or neutral by the field, getter or class it comes from; the def-use closure of every store, return and interval constructor must not mix sides.", "Numeric validity of a bound is Z02."),
"B02": ("The evaluated value of every backed-up action value is compared, as a polynomial, with reward + discount * sum(prob * successor); loops that build it are checked for full range, no early exit, only impossible outcomes skipped.", "Rounding is not considered."),
"B03": ("Every store to a node's bound must be a max/min with the old value or be dominated by such a comparison; stores that only happen while a node is created are initial values. A copy of a node held in a local object is not a node of the graph.", "For uncached planes the improvement is B02+B06, recorded as such."),
"B04": ("The update expressions of the blind, fully observable and fast informed initialisers are compared with the documented equations; residual test, range and order of the terminal-state fix are path rules.", "Number of iterations needed (MDP_MAX_ITERS) is not bounded statically."),
"B05": ("All loop-carried selections are found from the CFG (a variable replaced by a candidate it was compared with) and checked: direction, start value, companion index, full candidate loop.", "A selection written through std::max_element is checked only for its comparator."),
"B06": ("Same machinery for plane and point evaluation, with the value compared, list consulted and skip conditions of every loop; ages and cached choices are stores with required companions.", "Plane validity (that a stored plane is a bound) is B02/Z02."),
"B07": ("Typestate of stored elements: which one leaves the list, which test preceded, what is deleted, comparison order and tolerance.", "Termination of pruning is not shown."),
"S01": ("Edges are created under a probability test, stored in the slot tested, and every dereference needs a non-null test on all paths.", ""),
"S02": ("Path rules over backups, counters, logs and depth-first order, lifted through calls.", ""),
"S03": ("Creation only on the failed-lookup branch; all fields stored, registered under the searched key, observers told; the key is the hash of the state.", "Hash collisions of the textual key cannot occur; injectivity of the key is the fixed defect 982c557."),
"S04": ("Every edge leaving a solving loop is tied to a documented reason; no path from step to step avoids a negative test of each reason. Flags and helper steps are followed.", "That the loop ends at all is Z01."),
"S05": ("Normal forms of selection criteria, stopping criteria, priorities and solved labels compared with the published algorithm per strategy.", ""),
"S06": ("Observer registration order, freshness and full initialisation of per-node data.", ""),
"M01": ("Belief update, observation probability, reward and terminal test compared as values with the Bayes formulas; execution and simulation follow the same successor.", "Numerical drift of a belief is not bounded."),
"M02": ("Kind inference by unification: a state index used as an action index makes two kinds meet; loops over a whole count start at the first and end after the last element.", "Variables of floating type and kinds never determined (reported in evidence) are not checked."),
"M03": ("Path rule: every accepted model passed a two-sided sum test for each row of each distribution, sums start at zero and add all entries.", ""),
"M04": ("Abstract interpretation of the grammar actions and of the table-filling loops: coordinates named, ranges, wildcards, overriding order; reward trees by position.", "Five sites in pomdp_spec.y are known findings (below)."),
"M05": ("Taint with sign and size bits; sinks are subscripts, sizes, allocations and setters that subscript.", "The robot survey's list of target cells (LSPos) is indexed through a checked accessor only (X03)."),
"M06": ("From every printed diagnostic, all paths end in a failing exit or a failing result that all callers turn into one.", "ERR_enter's own out-of-range message (an internal error) is exempt."),
"M07": ("Assume-fail path queries on every read in a loop; last-line and newline rules.", ""),
"M08": ("Capacity of destinations against length bounds of sources, format widths and size arguments.", ""),
"M09": ("Field coverage and value comparison of the two readers, with orientation of matrices.", ""),
"M10": ("Constant tables of the parser compared with codes, tokens and grammar.", ""),
"M11": ("Enumeration of outcomes and successors in explicit-table models compared pairwise.", ""),
"C01": ("Order and overwrite rules over configuration sources.", ""),
"C02": ("Literal option names at all lookups against the built-in configuration text; value flow from an option to its documented use.", ""),
"C03": ("Abstract interpretation of option decisions: per documented value the reachable classes; junk values reach none.", "Values are enumerated from zmdp.config's comments."),
"C04": ("Combinations refused/accepted by the same interpreter.", ""),
"C05": ("Special numbers (0, -1) followed to the comparisons that give them meaning.", ""),
"E01": ("Every simulated step and trial loop: one question, one step, one report, reward with discount^steps, same state/action/outcome throughout; replay and weights as values.", ""),
"E02": ("Write effects as access paths (root + fields), through references, pointers, containers, iterators, out parameters and returned references, substituted at call sites; an effect guarded by a parameter is dropped where the argument is false. A query has no effect on a field of a class declared in bounds/, pomdpBounds/ or search/; models likewise.", "A field used by one function only is its working space, not state. Library calls not listed as reading are taken to write."),
"E03": ("Seeding order per command and the shape of every sampling loop; the draw itself as a value.", "Reproducibility across runs is not offered by zmdp (the seed is the time)."),
"E04": ("Numerators, denominators and ranges of means and quantiles; case analysis of the timeval operators over affine values; every division's divisor is shown positive.", "Deviations (calc_avg_stdev, an uninstantiated template) are not extracted."),
"I01": ("Assume-failed path query from each open.", ""),
"I02": ("Assume-failed path query from each write, to each end of the stream's life.", ""),
"I03": ("Handler effects and signal safety; polling between steps; policy written on all paths.", "The window between the last poll and exit is not modelled."),
"I04": ("Writer grammar against reader automaton, with a monitor for the plane being read.", "Values are saved with the stream's default six digits: structure, indices, fields, not digits, are claimed. A reader that is not line based is accepted as 'not read line by line'."),
"I05": ("As I04, with exactness (17 digits) claimed and column tables against their headers.", "A state has at least one stored entry."),
"I06": ("Keys, fields and types of parameters; map rows as functions of the row number.", ""),
"I07": ("Path order of rename, write and remove with evaluated name pieces.", ""),
"X02": ("Values stored in the cache and answered from it compared with the wrapped model's for the same arguments.", ""),
}

TAIL_FIX = """
## 3. Genuine defects

### Repaired in /repo ("fix:" commits; recorded in KNOWN_FINDINGS.json, they suppress nothing)

%s

### Recorded as known findings (printed as KNOWN-FINDING, not repaired)

%s

`src/parsers/pomdp_spec.y` and `pomdp_spec.l` cannot be repaired here: their names make them count as test files (\"_spec\"),
and no commit may change those.

Smaller observations outside the claimed properties: the error texts of three survey tools lack the prefix "ERROR";
value iteration of the fully observable bound stops after a fixed number of iterations whatever the residual; trial counts
are rounded to whole batches; `ZMDPConfig` loops for ever on an alias that contains itself.

## 4. Planted bugs

`seeded/` holds patches with demonstrations, each confirmed against the 15 tests; `selftest/break_*.py` holds several hundred
one-edit mutants per property (applied to a scratch copy, must be reported) and `selftest/quiet_*.py` behaviour-preserving
rewrites (must stay quiet for all properties); `python3 selftest/mut.py [-b|-q] [ID ...]` runs them. None is read by a check.

| seed | property | caught by |
|---|---|---|
%s

Mutants per property in selftest (reported / quiet rewrites): %s

## 5. False alarms met while building, and what was changed

* B04: initialiser loops written with other counters or split into helpers - rules now compare evaluated values, not shape.
* S05: criteria compared by the names of variables - now by polynomial normal forms.
* S04: stop reasons kept in a flag or returned by a helper step - branch predicates follow flag definitions path-sensitively.
* M05: a counter running down from N-1 lost its bound; M09: range-for and reference aliases; I03: polling inside a helper;
  E03: sampling loops with an additional exit condition - each now handled in the evaluator or loop model.
* S03: `cond ? node : NULL` and result variables in the lookup; B06: range-for over the stored points; M01: successor written
  through the out parameter or in a helper; I04: support of a plane set in a helper; E02: flag copied to a local.
* M06: the error table's own internal message was reported although it can only come from a programming error - exempted.

## 6. Dead ends

* Clang's static analyzer, clang-tidy and cppcheck give local findings only; none could express a property listed here.
* Frama-C EVA does not take C++; CBMC is a different family (paths handed to a solver) and was not used.
* Uninstantiated templates (sla.h, MatrixUtils) have no bodies in the instantiated AST unless used; what is unused is not analysed.
* RockExplore and testMatrixUtils are not part of the build products and are not extracted.

## 7. Not applicable

%s
"""


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    na = {x.get("property") or x.get("property_id") or x.get("id"): x["reason"] for x in man["not_applicable"]}
    tech = {c["property"]: c for c in man["checks"]}
    out = [HEAD]
    for p in props:
        i = p["id"]
        if i in na:
            continue
        out.append("### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"]))
        how, lim = P.get(i, ("", ""))
        out.append("*Decided by* %s%s\n\n" % (tech[i]["technique"], ". " + how if how else "."))
        for k in sorted(rules.TEXT):
            if k.split(".")[0] == i:
                out.append("- `%s` %s\n" % (k, rules.TEXT[k]))
        if lim:
            out.append("\n*Limits:* %s\n" % lim)
        out.append("\n")
    k = json.load(open(os.path.join(HERE, "KNOWN_FINDINGS.json")))
    fixed = "\n".join("* " + str(x if isinstance(x, str) else json.dumps(x)) for x in k["fixed"])
    find = "\n".join("* property %s: %s (key `%s`)" % (x["property"], x["what"], x["key"]) for x in k["findings"])
    sd = os.path.join(HERE, "seeded")
    seeds = []
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        seeds.append("| %s | %s | %s |" % (d, m["property"], CAUGHT.get(d, m["property"])))
    sys.path.insert(0, os.path.join(HERE, "selftest"))
    cnt = {}
    import importlib
    for f in sorted(os.listdir(os.path.join(HERE, "selftest"))):
        if f.startswith(("break_", "quiet_")) and f.endswith(".py"):
            for m in importlib.import_module(f[:-3]).M:
                for pr in m[1].split():
                    c = cnt.setdefault(pr, [0, 0])
                    c[f.startswith("quiet_")] += 1
    counts = ", ".join("%s %d/%d" % (q, c[0], c[1]) for q, c in sorted(cnt.items()))
    nas = "\n".join("* **%s** %s: %s" % (p["id"], p["title"], na[p["id"]]) for p in props if p["id"] in na)
    out.append(TAIL_FIX % (fixed, find, "\n".join(seeds), counts, nas))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))


CAUGHT = {}
if __name__ == "__main__":
    main()
