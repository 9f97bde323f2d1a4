M = [
 ("q-frtdp-split", "", [("search/FRTDP.cc", "  // recurse to successor\n  assert(-1 != r.maxPrioOutcome);\n  double obsProb = cn.Q[r.maxUBAction].outcomes[r.maxPrioOutcome]->obsProb;\n  double weight = problem->getDiscount() * obsProb;\n  double nextLogOcc = logOcc + log(weight);\n  trialRecurse(cn.getNextState(r.maxUBAction, r.maxPrioOutcome), nextLogOcc,\n               depth + 1);\n",
   "  // recurse to successor\n  const int bestA = r.maxUBAction;\n  const int bestO = r.maxPrioOutcome;\n  assert(bestO >= 0);\n  MDPEdge *edge = cn.Q[bestA].outcomes[bestO];\n  MDPNode &next = *edge->nextState;\n  const double nextLogOcc = logOcc + log(edge->obsProb * problem->getDiscount());\n  const int nextDepth = 1 + depth;\n  trialRecurse(next, nextLogOcc, nextDepth);\n")]),
 ("q-hsvi-nest", "", [("search/HSVI.cc", "  if (excessUnc <= 0\n", "  const bool done = !(excessUnc > 0);\n  if (done\n")]),
 ("q-hsvi-loop", "", [("search/HSVI.cc", "  FOR(o, Qa.getNumOutcomes()) {\n    MDPEdge *e = Qa.outcomes[o];\n    if (NULL != e) {\n      MDPNode &sn = *e->nextState;\n      width = e->obsProb * (sn.ubVal - sn.lbVal -\n                            trialTargetPrecision *\n                                pow(problem->getDiscount(), -(depth + 1)));\n",
   "  const double slack = trialTargetPrecision * pow(problem->getDiscount(), -(depth + 1));\n  for (int o = 0; o < static_cast<int>(Qa.outcomes.size()); ++o) {\n    const MDPEdge *e = Qa.outcomes[o];\n    if (e != NULL) {\n      const MDPNode &sn = *e->nextState;\n      const double gap = sn.ubVal - sn.lbVal;\n      width = (gap - slack) * e->obsProb;\n")]),
 ("q-frtdp-cont", "", [("search/FRTDP.cc", "    if (NULL != e) {\n      prio =", "    if (NULL == e) continue;\n    {\n      prio =")]),
 ("q-rtdp-helper", "", [("search/RTDP.cc", "void RTDP::trialRecurse(MDPNode &cn, int depth) {", "static int chooseNext(BoundPairCore *b, MDPNode &n, int act) {\n  return b->getSimulatedOutcome(n, act);\n}\n\nvoid RTDP::trialRecurse(MDPNode &cn, int depth) {"),
   ("search/RTDP.cc", "int simulatedOutcome = bounds->getSimulatedOutcome(cn, maxUBAction);", "int simulatedOutcome = chooseNext(bounds, cn, maxUBAction);")]),
 ("q-lrtdp-if", "", [("search/LRTDP.cc", "  if (solvedAtNextDepth) {\n    return checkSolved(cn);\n  } else {\n    return false;\n  }", "  return solvedAtNextDepth ? checkSolved(cn) : false;")]),
 ("q-lrtdp-resid", "", [("search/LRTDP.cc", "    if (residual(n) > targetPrecision) {\n      rv = false;\n      continue;\n    }", "    const double res = residual(n);\n    if (targetPrecision < res) {\n      rv = false;\n      continue;\n    }")]),
 ("q-hdp-flag", "", [("search/HDP.cc", "        if (trialRecurse(sn, depth + 1)) {\n          flag = true;\n        }", "        const bool sub = trialRecurse(sn, depth + 1);\n        flag = flag || sub;")]),
 ("q-hdp-min", "", [("search/HDP.cc", "getLow(cn) = std::min(getLow(cn), getIdx(sn));", "if (getIdx(sn) < getLow(cn)) getLow(cn) = getIdx(sn);")]),
 ("q-solve-loop", "", [("main/zmdp.cc", "  while (!(reachedTargetPrecision || reachedTimeout || userTerminatedG)) {", "  while (!reachedTargetPrecision && !reachedTimeout && !userTerminatedG) {"), ("main/zmdp.cc", "    if (elapsed >= p.terminateWallclockSeconds) {\n      reachedTimeout = true;\n    }", "    reachedTimeout = (elapsed >= p.terminateWallclockSeconds);")]),
 ("q-solve-for", "", [("main/zmdp.cc", "  while (!(reachedTargetPrecision || reachedTimeout || userTerminatedG)) {", "  for (;;) {\n    if (reachedTargetPrecision || reachedTimeout || userTerminatedG) break;")]),
 ("q-test-merge", "", [("main/TestDriver.cc", "      if ((root->ubVal - root->lbVal) <= minPrecision) {\n        solverFinished = true;\n      }", "      const double w = root->ubVal - root->lbVal;\n      solverFinished = solverFinished || (w <= minPrecision);")]),
 ("q-plan-done", "", [("search/RTDPCore.cc", "  done = done || (bounds->numBackups >= terminateNumBackups);", "  if (bounds->numBackups >= terminateNumBackups) {\n    done = true;\n  }")]),
 ("q-getnode-early", "", [("bounds/BoundPair.cc", "  cn.searchData", "  cn.searchData")]),
 ("q-track-inline", "", [("search/HDP.cc", "  // keep the changes to Q but undo the change to cn.ubVal\n  cn.ubVal = oldUBVal;", "  cn.ubVal = oldUBVal;  // only Q changes")]),
 ("q-hdp-wrap", "", [("search/HDP.cc", "bool HDP::trialRecurse(MDPNode &cn, int depth) {", "void HDP_logSolved(int n) { printf(\"  marking %d nodes solved\\n\", n); }\n\nbool HDP::trialRecurse(MDPNode &cn, int depth) {"), ("search/HDP.cc", "    printf(\"  marking %d nodes solved\\n\", static_cast<int>(nodeStack.size()));", "    HDP_logSolved(static_cast<int>(nodeStack.size()));")]),
 ("q-bp-count", "", [("bounds/BoundPair.cc", "  numBackups++;", "  numBackups = numBackups + 1;")]),
 ("q-planinit", "", [("search/RTDPCore.cc", "  terminateNumBackups = config->getInt(\"terminateNumBackups\");\n  if (terminateNumBackups < 0) {\n    terminateNumBackups = INT_MAX;\n  }", "  const int nb = config->getInt(\"terminateNumBackups\");\n  terminateNumBackups = (nb < 0) ? INT_MAX : nb;")]),
]
