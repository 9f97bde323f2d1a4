B = "bounds/BoundPair.cc"
M = [
    ("q-e02-local", "E02", [(B, "  MDPNode *cn = getNodeOrNull(s);\n  return", "  MDPNode *cn = getNodeOrNull(s);\n  MDPNode copy;\n  copy.s = s;\n  copy.lbVal = 0;\n  copy.isTerminal = false;\n  return")]),
    ("q-e02-helper", "E02", [(B, "int BoundPair::chooseAction(const state_vector &s) const {", "static void keep(double v, int a, double &maxVal, int &best) {\n  if (v > maxVal) {\n    maxVal = v;\n    best = a;\n  }\n}\n\nint BoundPair::chooseAction(const state_vector &s) const {"), (B, "      if (lbVal > maxVal) {\n        maxVal = lbVal;\n        bestAction = a;\n      }\n      if (lbVal < minVal)", "      keep(lbVal, a, maxVal, bestAction);\n      if (lbVal < minVal)")]),
    ("q-e02-iter", "E02", [(B, "  typeof(lookup->begin()) pr = lookup->find(hashable(s));\n  if (lookup->end() == pr) {\n    return NULL;\n  } else {\n    return pr->second;\n  }", "  MDPHash::const_iterator pr = lookup->find(hashable(s));\n  return pr == lookup->end() ? NULL : pr->second;")]),
    ("q-e02-loop", "E02", [("pomdpBounds/SawtoothUpperBound.cc", "  FOR_EACH(cPairP, *ptsToCheck) {\n    double innerCornerPtsC = inner_prod(cornerPts, (*cPairP)->b);\n    minValue = std::min(\n        minValue, getBVValue(b, *cPairP, innerCornerPtsB, innerCornerPtsC));\n  }\n  return minValue;\n}\n\nvoid SawtoothUpperBound::deleteAndForward", "  for (BVPair *p : *ptsToCheck) {\n    double c = inner_prod(cornerPts, p->b);\n    minValue = std::min(minValue, getBVValue(b, p, innerCornerPtsB, c));\n  }\n  return minValue;\n}\n\nvoid SawtoothUpperBound::deleteAndForward")]),
    ("q-e02-flag", "E02", [(B, "  if (canModifyBounds) {\n    mlb->prunePlanes(numBackups);\n  }\n", "  bool tidy = canModifyBounds;\n  if (tidy) mlb->prunePlanes(numBackups);\n")]),
    ("q-e02-flag2", "E02", [(B, "  if (canModifyBounds) {\n    mlb->prunePlanes(numBackups);\n  }\n  mlb->writeToFile(outFileName);", "  if (!canModifyBounds) {\n    mlb->writeToFile(outFileName);\n    return;\n  }\n  mlb->prunePlanes(numBackups);\n  mlb->writeToFile(outFileName);")]),
    ("q-e02-split", "E02", [(B, "void BoundPair::writePolicy(", "static void prepare(MaxPlanesLowerBound *m, int n, bool mayPrune) {\n  if (mayPrune) m->prunePlanes(n);\n}\n\nvoid BoundPair::writePolicy("), (B, "  if (canModifyBounds) {\n    mlb->prunePlanes(numBackups);\n  }\n", "  prepare(mlb, numBackups, canModifyBounds);\n")]),
    ("q-e02-state", "E02", [("exec/BoundPairExec.cc", "  state_vector nextState;\n  mdp->getNextState(nextState, currentState, a, o);\n  currentState = nextState;", "  state_vector old = currentState;\n  mdp->getNextState(currentState, old, a, o);")]),
    ("q-e02-copyplane", "E02", [("pomdpBounds/MaxPlanesLowerBound.cc", "  return getBestLBPlaneConst(b).action;", "  LBPlane p = getBestLBPlaneConst(b);\n  p.numBackupsAtCreation = 0;\n  return p.action;")]),
    ("q-e02-racetrack", "E02", [("mdps/RaceTrack.cc", "        result = terminalState;", "        {\n          state_vector t = terminalState;\n          t.size_ = terminalState.size_;\n          result = t;\n        }")]),
]
M += [
    ("q-s03-result", "S03", [(B, "  typeof(lookup->begin()) pr = lookup->find(hashable(s));\n  if (lookup->end() == pr) {\n    return NULL;\n  } else {\n    return pr->second;\n  }", "  MDPNode *result = NULL;\n  MDPHash::iterator pr = lookup->find(hashable(s));\n  if (pr != lookup->end()) result = pr->second;\n  return result;")]),
]
M += [
    ("q-m01-helper", "M01", [("exec/BoundPairExec.cc", "void BoundPairExec::advanceToNextState(", "void BoundPairExec::moveOn(int act, int obs) {\n  state_vector nextState;\n  mdp->getNextState(nextState, currentState, act, obs);\n  currentState = nextState;\n}\n\nvoid BoundPairExec::advanceToNextState("), ("exec/BoundPairExec.cc", "a, int o) {\n  state_vector nextState;\n  mdp->getNextState(nextState, currentState, a, o);\n  currentState = nextState;", "a, int o) {\n  moveOn(a, o);"), ("exec/BoundPairExec.h", "  int chooseAction(void);", "  int chooseAction(void);\n  void moveOn(int act, int obs);")]),
]
