PB = "pomdpBounds/"
BL, FO, FI, MP, SW = PB + "BlindLBInitializer.cc", PB + "FullObsUBInitializer.cc", PB + "FastInfUBInitializer.cc", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc"
M = [
 ("b04-max", "B04", [(BL, "worstStateVal = std::min(worstStateVal,", "worstStateVal = std::max(worstStateVal,")]),
 ("b04-carry", "B04 B05", [(BL, "    worstStateVal = 99e+20;\n    FOR(s, pomdp->numStates) {", "    if (a == 0) worstStateVal = 99e+20;\n    FOR(s, pomdp->numStates) {")]),
 ("b04-worstact", "B04", [(BL, "if (worstStateVal > worstCaseReward)", "if (a == 0 || worstStateVal < worstCaseReward)")]),
 ("b04-horizon", "B04", [(BL, "longTermFactor =\n        std::min(longTermFactor,", "longTermFactor =\n        std::max(longTermFactor,")]),
 ("b04-factor", "B04", [(BL, "longTermFactor = 1.0 / (1.0 - pomdp->getDiscount());", "longTermFactor = pomdp->getDiscount() / (1.0 - pomdp->getDiscount());")]),
 ("b04-disc", "B04", [(BL, "      nextAl *= pomdp->discount;\n", "")]),
 ("b04-rew", "B04", [(BL, "copy_from_column(tmp, pomdp->R, a);", "copy_from_column(tmp, pomdp->R, 0);")]),
 ("b04-trans", "B04", [(BL, "mult(nextAl, pomdp->T[a], al);", "mult(nextAl, pomdp->Ttr[a], al);")]),
 ("b04-label", "B04", [(BL, "new LBPlane(al, a, default_mask)", "new LBPlane(al, 0, default_mask)")]),
 ("b04-mask", "B04", [(BL, "mask_set_all(default_mask, pomdp->numStates);", "if (pomdp->numStates < 100) mask_set_all(default_mask, pomdp->numStates);")]),
 ("b04-break", "B04", [(BL, "    bound->addLBPlane(new LBPlane(al, a, default_mask));", "    bound->addLBPlane(new LBPlane(al, a, default_mask));\n    if (maxResidual == 0) break;")]),
 ("b04-eps", "B04", [(BL, "while (maxResidual > targetPrecision);", "while (maxResidual < targetPrecision);")]),
 ("b04-stale", "B04", [(BL, "      diff = nextAl;\n      diff -= al;\n", "      al = nextAl;\n      diff = nextAl;\n      diff -= al;\n")]),
 ("b04-fo-disc", "B04", [(FO, "  result *= pomdp->discount;\n  copy_from_column(R_xa, pomdp->R, a);\n  result += R_xa;", "  copy_from_column(R_xa, pomdp->R, a);\n  result += R_xa;\n  result *= pomdp->discount;")]),
 ("b04-fo-eps", "B04", [(FO, "if (residual < eps) {", "if (residual > eps) {")]),
 ("b04-fo-min", "B05 B04", [(FO, "if (naa(s) > nextAlpha(s))", "if (naa(s) < nextAlpha(s))")]),

 ("b04-fib-o", "B04", [(FI, "        beta_a += beta_ao;\n      }\n", "      }\n      beta_a += beta_ao;\n")]),
 ("b04-fib-oa", "B04", [(FI, "emult_column(tmp, pomdp->O[a], o, al[i]);", "emult_column(tmp, pomdp->O[i], o, al[i]);")]),
 ("b04-fib-r", "B04", [(FI, "copy_from_column(tmp, pomdp->R, a);", "copy_from_column(tmp, pomdp->R, 0);")]),
 ("b04-fib-disc", "B04", [(FI, "      beta_a *= pomdp->discount;\n", "")]),
 ("b04-fib-term", "B04", [(FI, "    if (pomdp->isTerminalState[i]) {\n      dalpha(i) = 0.0;\n    }", "    if (pomdp->isTerminalState[i] && dalpha(i) > 0) {\n      dalpha(i) = 0.0;\n    }")]),
 ("b04-fib-late", "B04", [(FI, "  // write out result\n  bound->pts.clear();\n  copy(bound->cornerPts, dalpha);", "  bound->pts.clear();"), (FI, "  // post-process: make sure the value for all terminal states", "  copy(bound->cornerPts, dalpha);\n  // post-process: make sure the value for all terminal states")]),
 ("b04-point", "B04", [("bounds/PointLowerBound.cc", "if (cn.isTerminal) {", "if (cn.isTerminal && cn.ubVal <= 0) {")]),
 ("b04-saw", "B04", [(SW, "  if (cn.isTerminal) {\n    setUBForNode(cn, 0, true);", "  if (cn.isTerminal) {\n    setUBForNode(cn, getValue(cn.s, NULL), true);")]),
 ("b06-min", "B06 B05", [(MP, "    val = inner_prod(al->alpha, b);\n    if (val > maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n\n  assert", "    val = inner_prod(al->alpha, b);\n    if (NULL == ret || val < maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n\n  assert")]),
 ("b06-subset", "B06", [(MP, "      if (!mask_subset(b, al->mask)) continue;\n    }\n    val = inner_prod(al->alpha, b);\n    if (val > maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n  return *ret;", "      if (!mask_subset(al->mask, b)) continue;\n    }\n    val = inner_prod(al->alpha, b);\n    if (val > maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n  return *ret;")]),
 ("b06-nomask", "B06", [(MP, "    if (useMaxPlanesMasking) {\n      if (!mask_subset(b, al->mask)) continue;\n    }\n    val = inner_prod(al->alpha, b);\n    if (val > maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n  return *ret;", "    if (useMaxPlanesMasking && al != currPlane && al->action != currPlane->action) {\n      if (!mask_subset(b, al->mask)) continue;\n    }\n    val = inner_prod(al->alpha, b);\n    if (val > maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n  return *ret;")]),
 ("b06-age", "B06", [(MP, "if (al->numBackupsAtCreation < lastSetPlaneNumBackups) continue;", "if (al->numBackupsAtCreation <= lastSetPlaneNumBackups) continue;")]),
 ("b06-age2", "B06", [(MP, "if (al->numBackupsAtCreation < lastSetPlaneNumBackups) continue;", "if (al->numBackupsAtCreation > lastSetPlaneNumBackups) continue;")]),
 ("b06-short", "B06", [(MP, "  if (useMaxPlanesSupportList) {\n    planesToCheck = &supportList[b.data[0].index];\n  } else {\n    planesToCheck = &planes;\n  }\n\n  double val;\n", "  if (useMaxPlanesMasking) {\n    planesToCheck = &supportList[b.data[0].index];\n  } else {\n    planesToCheck = &planes;\n  }\n\n  double val;\n")]),
 ("b06-skip", "B06", [(MP, "    const LBPlane *al = *pr;\n", "    const LBPlane *al = *pr;\n    if (al->action < 0 || al->alpha.size() == 0) continue;\n")]),
 ("b06-stamp", "B06", [(MP, "    bdata->lastSetPlaneNumBackups = core->numBackups;", "    bdata->lastSetPlaneNumBackups = core->numBackups + 1;")]),
 ("b06-stamp2", "B06", [(MP, "  result.numBackupsAtCreation = core->numBackups;", "  result.numBackupsAtCreation = lastPruneNumBackups;")]),
 ("b06-lb", "B06 B01", [(MP, "    cn.lbVal = newLB;\n    bdata->bestPlane", "    cn.lbVal = std::max(newLB, bdata->bestPlane ? cn.lbVal + 1e-3 : newLB);\n    bdata->bestPlane")]),
 ("b06-file", "B06", [(MP, "FOR_EACH(ai, av->mask.data) { supportList[ai->index].push_back(av); }", "if (av->action != 0) FOR_EACH(ai, av->mask.data) { supportList[ai->index].push_back(av); }")]),
 ("b06-file2", "B06", [(MP, "FOR_EACH(ai, av->mask.data) { supportList[ai->index].push_back(av); }", "FOR_EACH(ai, av->mask.data) { supportList[ai->index].push_back(av); break; }")]),
 ("b06-sawfile", "B06", [(SW, "      FOR_EACH(bi, bv->b.data) { supportList[bi->index].push_back(bv); }\n    }\n    pts.push_back(bv);", "    } else {\n      FOR_EACH(bi, bv->b.data) { supportList[bi->index].push_back(bv); }\n    }\n    pts.push_back(bv);")]),
 ("b06-interp", "B06", [(SW, "return innerCornerPtsB + minRatio * (cVal - innerCornerPtsC);", "return innerCornerPtsC + minRatio * (cVal - innerCornerPtsC);")]),
 ("b06-interp2", "B06", [(SW, "return innerCornerPtsB + minRatio * (cVal - innerCornerPtsC);", "return innerCornerPtsB + minRatio * (cVal - innerCornerPtsB);")]),
 ("b06-ratio", "B06", [(SW, "minRatio = std::min(minRatio, bi->value / ci->value);", "minRatio = std::min(minRatio, ci->value / bi->value);")]),
 ("b06-ratio2", "B06", [(SW, "    if (0.0 == ci->value) continue;", "    if (ci->value < 0.1) continue;")]),
 ("b06-na", "B06", [(SW, "if (innerCornerPtsC <= cVal) {", "if (innerCornerPtsC <= cVal + 0.5) {")]),
 ("b06-args", "B06", [(SW, "        minValue, getBVValue(b, *cPairP, innerCornerPtsB, innerCornerPtsC));", "        minValue, getBVValue(b, *cPairP, innerCornerPtsC, innerCornerPtsB));")]),
 ("b06-max", "B06", [(SW, "    minValue = std::min(\n", "    minValue = std::max(\n")]),
 ("b06-start", "B06", [(SW, "double minValue = innerCornerPtsB;", "double minValue = 99e+20;")]),
 ("b06-corner", "B06", [(SW, "    cornerPts(wc) = val;", "    cornerPts(b.data[0].index) = val;")]),
 ("b07-swap", "B07", [(MP, "deleteAndForward(member, candidate);\n        memberP = eraseElement(planes, memberP);", "deleteAndForward(candidate, member);\n        memberP = eraseElement(planes, memberP);")]),
 ("b07-erase", "B07", [(MP, "deleteAndForward(candidate, member);\n        candidateP = eraseElement(planes, candidateP);", "deleteAndForward(candidate, member);\n        candidateP = eraseElement(planes, memberP);")]),
 ("b07-cond", "B07", [(MP, "} else if (dominates(member, candidate, useMaxPlanesMasking)) {", "} else if (dominates(member, candidate, useMaxPlanesMasking) || candidate->action == member->action) {")]),
 ("b07-mask", "B07", [(MP, "mask_dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS, a->mask,\n                          b->mask);", "mask_dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS, b->mask,\n                          a->mask);")]),
 ("b07-nomask", "B07", [(MP, "  if (useMaxPlanesMasking) {\n    return mask_dominates(", "  if (useMaxPlanesMasking && a->action != b->action) {\n    return mask_dominates(")]),
 ("b07-eps", "B07", [(MP, "return dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS);", "return dominates(a->alpha, b->alpha, 1e-2);")]),
 ("b07-saw", "B07", [(SW, "} else if (dominates(opponent, candidate)) {", "} else if (dominates(candidate, opponent)) {")]),
 ("b07-saw2", "B07", [(SW, "      if (candidate == opponent) {\n        // duh, can't dominate yourself\n      } else if", "      if")]),
 ("b07-saw3", "B07", [(SW, "return (xValueAtY < yValueAtY + ZMDP_BOUNDS_PRUNE_EPS);", "return (yValueAtY < xValueAtY + ZMDP_BOUNDS_PRUNE_EPS);")]),
 ("b07-sawcache", "B07", [(SW, "    pt->innerCornerCache = inner_prod(cornerPts, pt->b);", "    if (pt->numBackupsAtCreation > lastPruneNumBackups) pt->innerCornerCache = inner_prod(cornerPts, pt->b);")]),
 ("b07-extra", "B07", [(MP, "      if (candidate->backPointers.empty()) {", "      if (candidate->backPointers.size() < 2) {")]),
 ("b07-extra2", "B07", [(MP, "    if (useMaxPlanesExtraPruning) {\n      if (candidate", "    if (useMaxPlanesCache) {\n      if (candidate")]),

]
M = [m for m in M if m[2][0][1]]
