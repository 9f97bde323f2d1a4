exec(open(__file__.replace("quiet_", "break_")).read().split("M = [")[0])
M = [
    ("q-m02-helper", "M02", [(CP, "void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {", "static void obsOf(CassandraModel &p, int which) {\n  copy(p.O[which], ::R[which], p.numObservations);\n}\n\nvoid CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {"), (CP, "copy(p.O[a], CASSANDRA_GLOBAL(::R[a]), p.numObservations);", "obsOf(p, a);")]),
    ("q-m02-while", "M02", [(BL, "FOR(s, pomdp->numStates)", "for (int s = pomdp->numStates - 1; s >= 0; s--)")]),
    ("q-m02-firstout", "M02", [(FO, "FOR(a, pomdp->numActions) {", "int na = pomdp->numActions;\n  for (int a = 0; na > a; ++a) {")]),
    ("q-m02-swaploops", "M02", [(FI, "FOR(o, pomdp->numObservations) {\n        FOR(i, pomdp->numActions) {", "FOR(o, pomdp->numObservations) {\n        int i = -1;\n        while (++i != pomdp->numActions) {")]),
]
