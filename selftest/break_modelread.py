CP = "parsers/CassandraParser.cc"
FP = "parsers/FastParser.cc"
M = [
    ("m09-r-trans", "M09", [(CP, "  kmatrix_transpose_in_place(Rk);\n", "")]),
    ("m09-cost", "M09", [(CP, "if (COST_value_type == CASSANDRA_GLOBAL(gValueType)) {", "if (REWARD_value_type == CASSANDRA_GLOBAL(gValueType)) {")]),
    ("m09-costfirst", "M09", [(CP, "FOR(i, Rk.data.size()) {", "for (size_t i = 1; i < Rk.data.size(); i++) {")]),
    ("m09-nocost", "M09", [(CP, "Rk.data[i].value = -Rk.data[i].value;", "Rk.data[i].value = Rk.data[i].value;")]),
    ("m09-ttr", "M09", [(CP, "    kmatrix_transpose_in_place(Tk);\n    copy(p.Ttr[a], Tk);", "    copy(p.Ttr[a], Tk);")]),
    ("m09-order", "M09", [(CP, "    copy(p.T[a], Tk);\n    kmatrix_transpose_in_place(Tk);\n", "    kmatrix_transpose_in_place(Tk);\n    copy(p.T[a], Tk);\n")]),
    ("m09-o-src", "M09", [(CP, "copy(p.O[a], CASSANDRA_GLOBAL(::R[a]), p.numObservations);", "copy(p.O[a], CASSANDRA_GLOBAL(P[a]), p.numObservations);")]),
    ("m09-a0", "M09", [(CP, "copy(Tk, CASSANDRA_GLOBAL(P[a]), p.numStates);", "copy(Tk, CASSANDRA_GLOBAL(P[0]), p.numStates);")]),
    ("m09-term-early", "M09", [(CP, "  p.checkForTerminalStates();\n\n  if (zmdp", "  if (zmdp"), (CP, "  // convert T, Tr, and O to sla format\n", "  p.T.resize(p.numActions);\n  p.checkForTerminalStates();\n")]),
    ("m09-noterm", "M09", [(CP, "  p.checkForTerminalStates();\n\n  if (zmdp", "  if (zmdp")]),
    ("m09-kind", "M09", [(CP, "if (expectPomdp && POMDP_problem_type != CASSANDRA_GLOBAL(gProblemType)) {", "if (expectPomdp && POMDP_problem_type != CASSANDRA_GLOBAL(gProblemType) && zmdpDebugLevelG >= 1) {")]),
    ("m09-kind2", "M09", [(CP, "if (!expectPomdp && MDP_problem_type != CASSANDRA_GLOBAL(gProblemType)) {", "if (!expectPomdp && UNKNOWN_problem_type == CASSANDRA_GLOBAL(gProblemType)) {")]),
    ("m09-numobs", "M09", [(CP, "p.numObservations = CASSANDRA_GLOBAL(gNumObservations);", "p.numObservations = CASSANDRA_GLOBAL(gNumStates);")]),
    ("m09-belief", "M09", [(CP, "FOR(s, p.numStates) {\n      initialBeliefD", "for (int s = 1; s < p.numStates; s++) {\n      initialBeliefD")]),
    ("m09-f-o", "M09", [(FP, "copy(p.O[a], Ox[a]);", "copy(p.O[a], Tx[a]);")]),
    ("m09-f-ttr", "M09", [(FP, "    copy(p.T[a], Tx[a]);\n    kmatrix_transpose_in_place(Tx[a]);\n    copy(p.Ttr[a], Tx[a]);", "    kmatrix_transpose_in_place(Tx[a]);\n    copy(p.T[a], Tx[a]);\n    copy(p.Ttr[a], Tx[a]);")]),
    ("m09-f-otrans", "M09", [(FP, "      copy(p.O[a], Ox[a]);\n", ""), (FP, "      copy(checkObs, Ox[a]);", "      copy(checkObs, Ox[a]);\n      copy(p.O[a], Ox[a]);")]),
    ("m09-f-rclear", "M09", [(FP, "  copy(p.R, Rx);\n  Rx.clear();", "  Rx.clear();\n  copy(p.R, Rx);")]),
    ("m09-f-start", "M09", [(FP, "FP_CHECK_SET(startSet, \"start\");", "")]),
    ("m09-f-disc", "M09", [(FP, "        discountSet = true;\n", ""), (FP, "bool discountSet = false;", "bool discountSet = true;")]),
    ("m09-f-obs", "M09", [(FP, "FP_CHECK_SET(numObservationsSet, \"observations\");", "FP_CHECK_SET(numActionsSet, \"observations\");")]),
    ("m09-f-obslines", "M09", [(FP, "kmatrix_set_entry(Ox[a], s, o, prob);", "kmatrix_set_entry(Tx[a], s, o, prob);")]),
    ("m09-f-notlast", "M09", [(FP, "  FOR(a, p.numActions) {\n    copy(p.T[a], Tx[a]);", "  FOR(a, p.numActions - 1) {\n    copy(p.T[a], Tx[a]);")]),
    ("m09-f-empty", "M09", [(FP, "  if (inPreamble) {\n    cerr", "  if (inPreamble && !startSet) {\n    cerr")]),
]
