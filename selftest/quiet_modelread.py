CP = "parsers/CassandraParser.cc"
FP = "parsers/FastParser.cc"
M = [
    ("q-m09-rangefor", "M09", [(CP, "FOR(i, Rk.data.size()) { Rk.data[i].value = -Rk.data[i].value; }", "for (kmatrix_entry &e : Rk.data) e.value = -e.value;")]),
    ("q-m09-times", "M09", [(CP, "FOR(i, Rk.data.size()) { Rk.data[i].value = -Rk.data[i].value; }", "for (size_t i = 0; i < Rk.data.size(); ++i) { Rk.data[i].value *= -1; }")]),
    ("q-m09-negfirst", "M09", [(CP, "  kmatrix_transpose_in_place(Rk);\n  if (COST_value_type == CASSANDRA_GLOBAL(gValueType)) {\n    // costs are negative rewards\n    FOR(i, Rk.data.size()) { Rk.data[i].value = -Rk.data[i].value; }\n  }\n", "  if (REWARD_value_type != CASSANDRA_GLOBAL(gValueType)) {\n    FOR(i, Rk.data.size()) { Rk.data[i].value = -Rk.data[i].value; }\n  }\n  kmatrix_transpose_in_place(Rk);\n")]),
    ("q-m09-helper", "M09", [(CP, "void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {", "static void fillTransitions(CassandraModel &p, const kmatrix &src, int a) {\n  kmatrix t = src;\n  copy(p.T[a], t);\n  kmatrix_transpose_in_place(t);\n  copy(p.Ttr[a], t);\n}\n\nvoid CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {"),
                      (CP, "    copy(p.T[a], Tk);\n    kmatrix_transpose_in_place(Tk);\n    copy(p.Ttr[a], Tk);\n", "    fillTransitions(p, Tk, a);\n")]),
    ("q-m09-split", "M09", [(CP, "    if (expectPomdp) {\n      copy(p.O[a], CASSANDRA_GLOBAL(::R[a]), p.numObservations);\n    }\n  }\n", "  }\n  if (expectPomdp) {\n    for (int b = 0; b < p.numActions; b++) {\n      copy(p.O[b], CASSANDRA_GLOBAL(::R[b]), p.numObservations);\n    }\n  }\n")]),
    ("q-m09-two", "M09", [(CP, "    copy(p.T[a], Tk);\n    kmatrix_transpose_in_place(Tk);\n    copy(p.Ttr[a], Tk);\n", "    kmatrix_transpose_in_place(Tk);\n    copy(p.Ttr[a], Tk);\n    kmatrix_transpose_in_place(Tk);\n    copy(p.T[a], Tk);\n")]),
    ("q-m09-f-ref", "M09", [(FP, "    copy(p.T[a], Tx[a]);\n    kmatrix_transpose_in_place(Tx[a]);\n    copy(p.Ttr[a], Tx[a]);", "    kmatrix &t = Tx[a];\n    copy(p.T[a], t);\n    kmatrix_transpose_in_place(t);\n    copy(p.Ttr[a], t);")]),
    ("q-m09-f-check", "M09", [(FP, "        FP_CHECK_SET(discountSet, \"discount\");\n        FP_CHECK_SET(valuesSet, \"values\");\n", "        FP_CHECK_SET(valuesSet, \"values\");\n        FP_CHECK_SET(discountSet, \"discount\");\n")]),
    ("q-m09-f-allset", "M09", [(FP, "        FP_CHECK_SET(numStatesSet, \"states\");\n        FP_CHECK_SET(numActionsSet, \"actions\");", "        FP_CHECK_SET(numStatesSet && numActionsSet, \"states or actions\");")]),
    ("q-m09-f-while", "M09", [(FP, "  while (!in.eof()) {\n    in.getline(buf, sizeof(buf));", "  for (;;) {\n    if (in.eof()) break;\n    in.getline(buf, sizeof(buf));")]),
    ("q-m09-belief", "M09", [(CP, "    FOR(s, p.numStates) {\n      initialBeliefD(s) = CASSANDRA_GLOBAL(gInitialBelief[s]);\n    }", "    for (int s = p.numStates - 1; s >= 0; s--) {\n      initialBeliefD(s) = CASSANDRA_GLOBAL(gInitialBelief[s]);\n    }")]),
]
