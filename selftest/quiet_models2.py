exec(open(__file__.replace("quiet_", "break_")).read().split("M = [")[0])
M = [
    ("q-m01-z", "M01", [(PO, "  result *= (1.0 / sum(result));\n", "  double z = sum(result);\n  double invz = 1.0 / z;\n  result *= invz;\n")]),
    ("q-m01-helper", "M01", [(PO, "belief_vector &Pomdp::getNextBelief(", "static void predict(belief_vector &out, const cmatrix &m, const belief_vector &b) {\n  mult(out, m, b);\n}\n\nbelief_vector &Pomdp::getNextBelief("), (PO, "  mult(tmp, Ttr[a], b);\n  emult_column", "  predict(tmp, Ttr[a], b);\n  emult_column")]),
    ("q-m01-cont", "M01", [(PO, "    if (!isTerminalState[CV_INDEX(s)]) {\n      nonTerminalSum += CV_VAL(s);\n    }\n", "    if (isTerminalState[CV_INDEX(s)]) continue;\n    nonTerminalSum = nonTerminalSum + CV_VAL(s);\n")]),
    ("q-m01-direct", "M01", [(BE, "  currentState = nextState;", "  state_vector &ref = nextState;\n  currentState = ref;")]),
    ("q-m01-sim", "M01", [(MS, "  state = sp;\n  elapsedTime++;\n  lastOutcomeIndex = o;", "  lastOutcomeIndex = o;\n  elapsedTime += 1;\n  state = sp;")]),
    ("q-m11-while", "M11", [(GM, "  FOR_CM_MINOR(s, Ttr[a]) { result(o++) = CM_VAL(Ttr[a]); }", "  FOR_CM_MINOR(s, Ttr[a]) {\n    result(o) = CM_VAL(Ttr[a]);\n    o++;\n  }")]),
    ("q-m11-pre", "M11", [(GM, "int i = 0;\n  FOR_CM", "int i = -1;\n  FOR_CM"), (GM, "if (i++ == o)", "if (++i == o)")]),
    ("q-m11-cont", "M11", [(GM, "if (i++ == o) {\n      result.resize(1);\n      result.push_back(0, CM_ROW(s, Ttr[a]));\n      return result;\n    }", "if (i != o) {\n      i++;\n      continue;\n    }\n    result.resize(1);\n    result.push_back(0, CM_ROW(s, Ttr[a]));\n    return result;")]),
    ("q-m11-term", "M11", [(CMO, "if ((fabs(1.0 - T[a](s, s)) > OBS_IS_ZERO_EPS) || R(s, a) != 0.0) {\n        isTerminalState[s] = false;\n        break;", "bool leaves = fabs(1.0 - T[a](s, s)) > OBS_IS_ZERO_EPS;\n      if (leaves || 0.0 != R(s, a)) {\n        isTerminalState[s] = false;\n        break;")]),
    ("q-x02-split", "X02", [(CA, "    if (Qa.opv(o) > OBS_IS_ZERO_EPS) {", "    bool possible = Qa.opv(o) > OBS_IS_ZERO_EPS;\n      if (possible) {")]) if False else
    ("q-x02-flag", "X02", [(CA, "      if (Qa.opv(o) > OBS_IS_ZERO_EPS) {", "      bool possible = Qa.opv(o) > OBS_IS_ZERO_EPS;\n      if (possible) {")]),
    ("q-x02-inv", "X02", [(CA, "  double reward = getQ(*getNode(s), a)->immediateReward;", "  CMDPNode *cn = getNode(s);\n  CMDPQEntry *entry = getQ(*cn, a);\n  double reward = entry->immediateReward;")]),
    ("q-x02-fill", "X02", [(CA, "CMDPQEntry *CacheMDP::getQ(CMDPNode &cn, int a) {", "static void fillReward(MDP *problem, CMDPQEntry &Qa, CMDPNode &cn, int a) {\n  Qa.immediateReward = problem->getReward(cn.s, a);\n  problem->getOutcomeProbVector(Qa.opv, cn.s, a);\n}\n\nCMDPQEntry *CacheMDP::getQ(CMDPNode &cn, int a) {"), (CA, "    Qa.immediateReward = problem->getReward(cn.s, a);\n    problem->getOutcomeProbVector(Qa.opv, cn.s, a);\n    Qa.outcomes", "    fillReward(problem, Qa, cn, a);\n    Qa.outcomes")]),
]
