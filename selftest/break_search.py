M = [
 ("s01-sim0", "S01", [("bounds/BoundPairCore.cc", "int result = -1;", "int result = 0;"), ("bounds/BoundPairCore.cc", "      // if rounding keeps r positive to the end, the last possible outcome is used\n      result = o;\n      r -= e->obsProb;\n      if (r <= 0) {\n", "      r -= e->obsProb;\n      if (r <= 0) {\n        result = o;\n")]),
 ("s01-eps", "S01", [("bounds/BoundPair.cc", "      if (oprob > OBS_IS_ZERO_EPS) {\n        MDPEdge", "      if (oprob >= 0) {\n        MDPEdge")]),
 ("s01-ptub", "S01", [("bounds/PointUpperBound.cc", "if (NULL != e) {", "{")]),
 ("s01-sel", "S01", [("search/FRTDP.cc", "if (NULL != e) {\n      prio = log(problem->getDiscount() * e->obsProb) + getPrio(*e->nextState);\n      if (prio > r.maxPrio) {\n        r.maxPrio = prio;\n        r.maxPrioOutcome = o;\n      }", "prio = (NULL != e) ? log(problem->getDiscount() * e->obsProb) + getPrio(*e->nextState) : -98e+20; { if (prio > r.maxPrio) {\n        r.maxPrio = prio;\n        r.maxPrioOutcome = o;\n      }")]),
 ("s01-choose", "S01", [("bounds/BoundPair.cc", "if (opv(o) > OBS_IS_ZERO_EPS) {\n          problem->getNextState(sp, s, a, o);\n          lbVal", "if (opv(o) >= 0) {\n          problem->getNextState(sp, s, a, o);\n          lbVal")]),
 ("s01-cache", "S01", [("mdps/CacheMDP.cc", "if (Qa.opv(o) > OBS_IS_ZERO_EPS) {", "if (Qa.opv(a) > OBS_IS_ZERO_EPS) {")]),
]
M += [
 ("s02-notrack", "S02", [("search/HDP.cc", "    bounds->update(cn, NULL);\n    trackBackup(cn);\n    return true;", "    bounds->update(cn, NULL);\n    return true;")]),
 ("s02-norev", "S02", [("search/RTDP.cc", "  bounds->update(cn, NULL);\n  trackBackup(cn);\n}", "  if (depth < 200) {\n    bounds->update(cn, NULL);\n    trackBackup(cn);\n  }\n}")]),
 ("s02-child", "S02", [("search/RTDP.cc", "  bounds->update(cn, NULL);\n  trackBackup(cn);\n}", "  bounds->update(cn.getNextState(maxUBAction, simulatedOutcome), NULL);\n  trackBackup(cn);\n}")]),
 ("s02-nocount", "S02", [("bounds/BoundPair.cc", "  numBackups++;", "  if (maintainLowerBound) numBackups++;")]),
 ("s02-flag", "S02", [("search/HDP.cc", "if (flag) {", "if (flag && getIdx(cn) != getLow(cn)) {")]),
 ("s02-log", "S02", [("search/RTDPCore.cc", "FOR_EACH(node, backedUpNodes) { log", "FOR_EACH(node, backedUpNodes) { if ((*node)->isTerminal) continue; log")]),
 ("s02-trials", "S02", [("search/LRTDP.cc", "  numTrials++;", "  if (!getIsSolved(cn)) numTrials++;")]),
 ("s03-noreg", "S03", [("bounds/BoundPair.cc", "    (*lookup)[hs] = &cn;", "    if (!cn.isTerminal) (*lookup)[hs] = &cn;")]),
 ("s03-order", "S03", [("bounds/BoundPair.cc", "cn.isTerminal = problem->getIsTerminalState(s);", "")]),
 ("s04-time", "S04", [("main/zmdp.cc", "elapsed >= p.terminateWallclockSeconds", "elapsed >= p.terminateWallclockSeconds && numSolverCalls > 1 && !(elapsed < 2)")]),
 ("s04-int", "S04", [("main/zmdp.cc", "reachedTimeout || userTerminatedG)) {", "reachedTimeout || (userTerminatedG && reachedTimeout))) {")]),
 ("s04-dead", "S04", [("main/TestDriver.cc", "root->ubVal <= terminateUpperBoundValue", "root->lbVal >= terminateUpperBoundValue")]),
 ("s04-prec", "S04", [("search/HSVI.cc", "return (cn.ubVal - cn.lbVal < targetPrecision);", "return (cn.ubVal - cn.lbVal < trialTargetPrecision);")]),
 ("s04-prec2", "S04", [("search/FRTDP.cc", "return (cn.ubVal - cn.lbVal < targetPrecision);", "return (cn.ubVal - cn.lbVal < 10 * targetPrecision);")]),
 ("s04-back", "S04", [("search/RTDPCore.cc", "bounds->numBackups >= terminateNumBackups", "numTrials >= terminateNumBackups")]),
 ("s04-hdp", "S04", [("search/HDP.cc", "  numTrials++;\n\n  return false;", "  numTrials++;\n\n  return visited.empty();")]),
 ("s04-lim", "S04", [("main/solverUtils.cc", "terminateWallclockSeconds <= 0.0", "terminateWallclockSeconds <= 10.0")]),
 ("s04-brk", "S04", [("main/zmdp.cc", "    numSolverCalls++;\n", "    numSolverCalls++;\n    if (numSolverCalls > 100000) break;\n")]),
]
M += [
 ("s05-excess", "S05", [("search/FRTDP.cc", "if (excessWidth <= 0 || depth > maxDepth) {", "if (excessWidth <= 0 || depth > oldMaxDepth) {")]),
 ("s05-early", "S05", [("search/RTDP.cc", "if (cn.isTerminal) {", "if (cn.isTerminal || depth > 500) {")]),
 ("s05-pow", "S05", [("search/HSVI.cc", "pow(problem->getDiscount(), -(depth + 1)));", "pow(problem->getDiscount(), -depth));")]),
 ("s05-pow2", "S05", [("search/HSVI.cc", "trialTargetPrecision * pow(problem->getDiscount(), -depth);", "trialTargetPrecision * pow(problem->getDiscount(), depth);")]),
 ("s05-depth", "S05", [("search/HSVI.cc", "nextLogOcc, depth + 1);", "nextLogOcc, depth);")]),
 ("s05-prob", "S05", [("search/HSVI.cc", "width = e->obsProb * (sn.ubVal", "width = (sn.ubVal")]),
 ("s05-prio", "S05", [("search/FRTDP.cc", "getPrio(*e->nextState);\n      if", "getPrio(cn);\n      if")]),
 ("s05-prio2", "S05", [("search/FRTDP.cc", "getPrio(cn) = std::min(r.maxPrio,", "getPrio(cn) = std::max(r.maxPrio,")]),
 ("s05-act", "S05", [("search/FRTDP.cc", "getMaxPrioOutcome(cn, r.maxUBAction, r);", "getMaxPrioOutcome(cn, bounds->chooseAction(cn.s), r);")]),
 ("s05-lrtdp", "S05", [("search/LRTDP.cc", "  if (rv) {\n    // label", "  if (rv || closed.size() == 1) {\n    // label")]),
 ("s05-lrtdp2", "S05", [("search/LRTDP.cc", "      rv = false;\n      continue;", "      if (!n.isTerminal) rv = false;\n      continue;")]),
 ("s05-hdp", "S05", [("search/HDP.cc", "else if (getIdx(cn) == getLow(cn)) {", "else if (getIdx(cn) >= getLow(cn)) {")]),
 ("s05-hdp2", "S05", [("search/HDP.cc", "if (residual(cn) > targetPrecision) {", "if (residual(cn) > targetPrecision && depth > 0) {")]),
 ("s05-target", "S05", [("search/HSVI.cc", "(cn.ubVal - cn.lbVal) * HSVI_IMPROVEMENT_CONSTANT;", "targetPrecision * HSVI_IMPROVEMENT_CONSTANT;")]),
 ("s05-rt", "S05", [("search/RTDP.cc", "bounds->getSimulatedOutcome(cn, maxUBAction)", "bounds->getSimulatedOutcome(cn, 0)")]),
 ("s05-lrskip", "S05", [("search/LRTDP.cc", "if (!getIsSolved(sn) && !open", "if (e->obsProb > 0.01 && !getIsSolved(sn) && !open")]),
 ("s06-noreg", "S06", [("search/HDP.cc", "  bounds->addGetNodeHandler(&HDP::staticGetNodeHandler, this);", "")]),
 ("s06-uninit", "S06", [("search/HDP.cc", "  searchData->low = RT_IDX_PLUS_INFINITY;\n", "")]),
 ("s06-solved", "S06", [("search/LRTDP.cc", "searchData->isSolved = cn.isTerminal;", "searchData->isSolved = cn.isTerminal || (cn.ubVal <= cn.lbVal);")]),
 ("s06-cond", "S06", [("search/LRTDP.cc", "  LRTDPExtraNodeData *searchData = new", "  if (cn.isTerminal) return;\n  LRTDPExtraNodeData *searchData = new")]),
 ("s06-early", "S06", [("search/RTDPCore.cc", "  derivedClassInit();\n", "  bounds->getRootNode();\n  derivedClassInit();\n")]),
 ("s06-prio", "S06", [("search/FRTDP.cc", "      (excessWidth <= 0) ? RT_PRIO_MINUS_INFINITY : log(excessWidth);\n}", "      (excessWidth <= 0) ? 0 : log(excessWidth);\n}")]),
]
