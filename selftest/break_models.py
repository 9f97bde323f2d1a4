FP, CP, CMO = "parsers/FastParser.cc", "parsers/CassandraParser.cc", "parsers/CassandraModel.cc"
BL, FI, FO = "pomdpBounds/BlindLBInitializer.cc", "pomdpBounds/FastInfUBInitializer.cc", "pomdpBounds/FullObsUBInitializer.cc"
PO, MP = "pomdpCore/Pomdp.cc", "pomdpBounds/MaxPlanesLowerBound.cc"
M = [
    ("m02-fast-r", "M02", [(FP, "kmatrix_set_entry(Rx, s, a, reward);", "kmatrix_set_entry(Rx, a, s, reward);")]),
    ("m02-fast-o", "M02", [(FP, "Ox[a].resize(p.numStates, p.numObservations);", "Ox[a].resize(p.numObservations, p.numStates);")]),
    ("m02-fast-check", "M02", [(FP, "sp < 0 ||\n            sp >= p.numStates", "sp < 0 ||\n            sp >= p.numActions")]),
    ("m02-term", "M02", [(CMO, "FOR(a, numActions) {\n      if ((fabs", "FOR(a, numStates) {\n      if ((fabs")]),
    ("m02-term-swap", "M02", [(CMO, "R(s, a) != 0.0", "R(a, s) != 0.0")]),
    ("m02-copy", "M02", [(CP, "copy(p.O[a], CASSANDRA_GLOBAL(::R[a]), p.numObservations);", "copy(p.O[a], CASSANDRA_GLOBAL(::R[a]), p.numStates);")]),
    ("m02-notranspose", "M02", [(CP, "  kmatrix_transpose_in_place(Rk);\n", "")]),
    ("m02-fi-loop", "M02", [(FI, "FOR(i, pomdp->numActions) {\n          emult", "FOR(i, pomdp->numStates) {\n          emult")]),
    ("m02-fi-obs", "M02", [(FI, "FOR(o, pomdp->numObservations)", "FOR(o, pomdp->numActions)")]),
    ("m02-fi-col", "M02", [(FI, "emult_column(tmp, pomdp->O[a], o, al[i]);", "emult_column(tmp, pomdp->O[a], i, al[i]);")]),
    ("m02-short", "M02", [(BL, "FOR(s, pomdp->numStates)", "for (int s = 0; s < pomdp->numStates - 1; s++)")]),
    ("m02-start1", "M02", [(FO, "FOR(a, pomdp->numActions) {", "for (int a = 1; a < pomdp->numActions; a++) {")]),
    ("m02-past", "M02", [("parsers/mdp.c", "for (a = 0; a < gNumActions; a++) IP", "for (a = 0; a <= gNumActions; a++) IP")]),
    ("m02-reward", "M02", [(PO, "inner_prod_column(R, a, b)", "inner_prod_column(T[a], a, b)")]),
]
