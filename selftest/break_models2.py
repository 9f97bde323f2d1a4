PO, GM, CA, CMO, MS, BE = "pomdpCore/Pomdp.cc", "mdps/GenericDiscreteMDP.cc", "mdps/CacheMDP.cc", "parsers/CassandraModel.cc", "common/MDPSim.cc", "exec/BoundPairExec.cc"
M = [
    ("m01-nonorm", "M01", [(PO, "  result *= (1.0 / sum(result));\n", "")]),
    ("m01-T", "M01", [(PO, "mult(tmp, Ttr[a], b);\n  emult", "mult(tmp, T[a], b);\n  emult")]),
    ("m01-O", "M01", [(PO, "emult_column(result, O[a], o, tmp)", "emult_column(result, O[o], a, tmp)")]),
    ("m01-obs-T", "M01", [(PO, "mult(tmp, Ttr[a], b);\n  // result", "mult(tmp, T[a], b);\n  // result")]),
    ("m01-obs-b", "M01", [(PO, "mult(result, tmp, O[a]);", "mult(result, b, O[a]);")]),
    ("m01-norm-tmp", "M01", [(PO, "sum(result)", "sum(tmp)")]),
    ("m01-term", "M01", [(PO, "if (!isTerminalState[CV_INDEX(s)])", "if (isTerminalState[CV_INDEX(s)])")]),
    ("m01-term-eps", "M01", [(PO, "nonTerminalSum < 1e-10", "nonTerminalSum < 0.5")]),
    ("m01-swap", "M01", [(BE, "mdp->getNextState(nextState, currentState, a, o);", "mdp->getNextState(nextState, currentState, o, a);")]),
    ("m01-skip", "M01", [(BE, "  currentState = nextState;", "  if (a != o) currentState = nextState;")]),
    ("m01-last", "M01", [(MS, "  int o = chooseFromDistribution(opv);\n", "  int o = (lastOutcomeIndex >= 0 && lastOutcomeIndex < static_cast<int>(opv.size()) && opv(lastOutcomeIndex) > 0.999) ? lastOutcomeIndex : chooseFromDistribution(opv);\n")]),
    ("m01-late", "M01", [(MS, "  model->getOutcomeProbVector(opv, state, a);\n  int o = chooseFromDistribution(opv);\n  model->getNextState(sp, state, a, o);", "  model->getOutcomeProbVector(opv, state, a);\n  int o = chooseFromDistribution(opv);\n  model->getNextState(sp, state, a, 0);")]),
    ("m11-off", "M11", [(GM, "int i = 0;\n  FOR_CM", "int i = 1;\n  FOR_CM")]),
    ("m11-col", "M11", [(GM, "FOR_CM_MINOR(s, Ttr[a]) { result(o++) = CM_VAL(Ttr[a]); }", "FOR_CM_MINOR(s, T[a]) { result(o++) = CM_VAL(T[a]); }")]),
    ("m11-skipzero", "M11", [(GM, "FOR_CM_MINOR(s, Ttr[a]) { result(o++) = CM_VAL(Ttr[a]); }", "FOR_CM_MINOR(s, Ttr[a]) { if (CM_VAL(Ttr[a]) > 1e-6) result(o++) = CM_VAL(Ttr[a]); }")]),
    ("m11-count", "M11", [(GM, "result.resize(Ttr[a].filled_in_column(s));", "result.resize(T[a].filled_in_column(s));")]),
    ("m11-ge", "M11", [(GM, "if (i++ == o)", "if (CM_VAL(Ttr[a]) < 0.5 && i++ == o)")]),
    ("m11-reward", "M11", [(GM, "return R(s, a);", "return R(s, 0);")]),
    ("m11-term1", "M11", [(CMO, "|| R(s, a) != 0.0", "")]),
    ("m11-term2", "M11", [(CMO, "R(s, a) != 0.0", "R(s, a) > 0.0")]),
    ("m11-term3", "M11", [(CMO, "(fabs(1.0 - T[a](s, s)) > OBS_IS_ZERO_EPS) || R", "(fabs(1.0 - T[a](s, s)) > OBS_IS_ZERO_EPS) && R")]),
    ("m11-term4", "M11", [(CMO, "FOR(a, numActions) {\n      if", "for (int a = 1; a < numActions; a++) {\n      if")]),
    ("x02-a", "X02", [(CA, "Qa.immediateReward = problem->getReward(cn.s, a);", "Qa.immediateReward = problem->getReward(root->s, a);")]),
    ("x02-o", "X02", [(CA, "problem->getNextState(sp, cn.s, a, o);", "problem->getNextState(sp, cn.s, a, 0);")]),
    ("x02-eps", "X02", [(CA, "if (Qa.opv(o) > OBS_IS_ZERO_EPS)", "if (Qa.opv(o) > 0.01)")]),
    ("x02-term", "X02", [(CA, "cn.isTerminal = problem->getIsTerminalState(s);", "cn.isTerminal = problem->getIsTerminalState(problem->getInitialState());")]),
    ("x02-q0", "X02", [(CA, "double reward = getQ(*getNode(s), a)->immediateReward;", "double reward = getQ(*root, a)->immediateReward;")]),
    ("x02-si", "X02", [(CA, "cn.si = si;", "cn.si = si + 1;")]),
    ("x02-file", "X02", [(CA, "        Qa.outcomes[o] = e;", "        Qa.outcomes[Qa.opv.size() - 1 - o] = e;")]),
]
