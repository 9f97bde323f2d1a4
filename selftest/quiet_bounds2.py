PB = "pomdpBounds/"
BL, FO, FI, MP, SW = PB + "BlindLBInitializer.cc", PB + "FullObsUBInitializer.cc", PB + "FastInfUBInitializer.cc", PB + "MaxPlanesLowerBound.cc", PB + "SawtoothUpperBound.cc"
M = [
 ("qb-blind-while", "", [(BL, "    do {\n      // calculate nextAl", "    while (true) {\n      // calculate nextAl"), (BL, "      al = nextAl;\n    } while (maxResidual > targetPrecision);", "      al = nextAl;\n      if (maxResidual <= targetPrecision) break;\n    }")]),
 ("qb-blind-order", "", [(BL, "      mult(nextAl, pomdp->T[a], al);\n      nextAl *= pomdp->discount;\n      copy_from_column(tmp, pomdp->R, a);\n      nextAl += tmp;", "      copy_from_column(tmp, pomdp->R, a);\n      mult(nextAl, pomdp->T[a], al);\n      nextAl *= pomdp->getDiscount();\n      nextAl += tmp;")]),
 ("qb-blind-if", "", [(BL, "      worstStateVal = std::min(worstStateVal, pomdp->R(s, a));", "      const double r = pomdp->R(s, a);\n      if (r < worstStateVal) worstStateVal = r;")]),
 ("qb-fo-max", "", [(FO, "      if (naa(s) > nextAlpha(s)) nextAlpha(s) = naa(s);", "      nextAlpha(s) = std::max(nextAlpha(s), naa(s));")]),
 ("qb-fo-break", "", [(FO, "    if (residual < eps) {\n      if (zmdpDebugLevelG >= 1) {\n        cout << endl;\n      }\n      return;\n    }", "    const bool converged = (residual < eps);\n    if (converged) {\n      if (zmdpDebugLevelG >= 1) {\n        cout << endl;\n      }\n      return;\n    }")]),
 ("qb-fib-helper", "", [(FI, "void FastInfUBInitializer::initFIB(", "static double residualOf(const dvector &x, const dvector &y) {\n  dvector d = x;\n  d -= y;\n  return norm_inf(d);\n}\n\nvoid FastInfUBInitializer::initFIB("), (FI, "      diff = nextAl[a];\n      diff -= al[a];\n      maxResidual = std::max(maxResidual, norm_inf(diff));", "      maxResidual = std::max(maxResidual, residualOf(nextAl[a], al[a]));")]),
 ("qb-fib-term", "", [(FI, "  FOR(i, pomdp->numStates) {\n    if (pomdp->isTerminalState[i]) {\n      dalpha(i) = 0.0;\n    }\n  }", "  for (int i = 0; i < pomdp->numStates; ++i) {\n    if (!pomdp->isTerminalState[i]) continue;\n    dalpha(i) = 0.0;\n  }")]),
 ("qb-fib-max", "", [(FI, "  dvector dalpha;\n  FOR(a, pomdp->numActions) {\n    if (0 == a) {\n      dalpha = al[a];\n    } else {\n      max_assign(dalpha, al[a]);\n    }\n  }", "  dvector dalpha = al[0];\n  for (int a = 1; a < pomdp->numActions; a++) {\n    max_assign(dalpha, al[a]);\n  }")]),
 ("qb-best-nest", "", [(MP, "    if (useMaxPlanesMasking) {\n      if (!mask_subset(b, al->mask)) continue;\n    }\n    val = inner_prod(al->alpha, b);\n    if (val > maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n\n  assert", "    if (!useMaxPlanesMasking || mask_subset(b, al->mask)) {\n      val = inner_prod(al->alpha, b);\n      if (val > maxval) {\n        maxval = val;\n        ret = al;\n      }\n    }\n  }\n\n  assert")]),
 ("qb-best-cond", "", [(MP, "  const PlaneSet *planesToCheck;\n  if (useMaxPlanesSupportList) {\n    planesToCheck = &supportList[b.data[0].index];\n  } else {\n    planesToCheck = &planes;\n  }\n\n  double val;\n", "  const PlaneSet *planesToCheck = useMaxPlanesSupportList ? &supportList[b.data[0].index] : &planes;\n\n  double val;\n")]),
 ("qb-best-helper", "", [(MP, "// return the alpha such that alpha * b has the highest value\nconst LBPlane &", "static bool applies(bool masking, const belief_vector &b, const LBPlane *p) {\n  return !masking || mask_subset(b, p->mask);\n}\n\n// return the alpha such that alpha * b has the highest value\nconst LBPlane &"), (MP, "    if (useMaxPlanesMasking) {\n      if (!mask_subset(b, al->mask)) continue;\n    }\n    val = inner_prod(al->alpha, b);\n    if (val > maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n\n  assert", "    if (!applies(useMaxPlanesMasking, b, al)) continue;\n    val = inner_prod(al->alpha, b);\n    if (val > maxval) {\n      maxval = val;\n      ret = al;\n    }\n  }\n\n  assert")]),
 ("qb-prune-if", "", [(MP, "      } else if (dominates(candidate, member, useMaxPlanesMasking)) {", "      } else if (const bool redundant = dominates(candidate, member, useMaxPlanesMasking)) {")]),
 ("qb-prune-bool", "", [(SW, "      } else if (dominates(opponent, candidate)) {\n        // candidate is pruned\n        deleteAndForward(candidate, opponent);\n        candidateP = eraseElement(pts, candidateP);\n        goto nextCandidate;\n      }\n      opponentP++;", "      } else {\n        const bool redundant = dominates(opponent, candidate);\n        if (redundant) {\n          candidateP = eraseElement(pts, candidateP);\n          deleteAndForward(candidate, opponent);\n          goto nextCandidate;\n        }\n      }\n      ++opponentP;")]),
 ("qb-dom-ret", "", [(SW, "  double yValueAtY = yPair->v;\n  return (xValueAtY < yValueAtY + ZMDP_BOUNDS_PRUNE_EPS);", "  return (yPair->v + ZMDP_BOUNDS_PRUNE_EPS > xValueAtY);")]),
 ("qb-dom-mask", "", [(MP, "  if (useMaxPlanesMasking) {\n    return mask_dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS, a->mask,\n                          b->mask);\n  } else {\n    return dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS);\n  }", "  if (!useMaxPlanesMasking) {\n    return dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS);\n  }\n  return mask_dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS, a->mask,\n                        b->mask);")]),
 ("qb-interp", "", [(SW, "  return innerCornerPtsB + minRatio * (cVal - innerCornerPtsC);", "  const double depth = cVal - innerCornerPtsC;\n  const double val = depth * minRatio;\n  return val + innerCornerPtsB;")]),
 ("qb-saw-if", "", [(SW, "    minValue = std::min(\n        minValue, getBVValue(b, *cPairP, innerCornerPtsB, innerCornerPtsC));", "    const double v = getBVValue(b, *cPairP, innerCornerPtsB, innerCornerPtsC);\n    if (v < minValue) minValue = v;")]),
 ("qb-ratio-if", "", [(SW, "    minRatio = std::min(minRatio, bi->value / ci->value);", "    const double ratio = bi->value / ci->value;\n    if (ratio < minRatio) {\n      minRatio = ratio;\n    }")]),
 ("qb-ratio-while", "", [(SW, "    while (1) {\n      if (bi == bend) {\n        bdone = true;\n        goto breakCiLoop;\n      }\n      if (bi->index >= ci->index) break;\n      bi++;\n    }", "    while (bi != bend && bi->index < ci->index) bi++;\n    if (bi == bend) {\n      bdone = true;\n      goto breakCiLoop;\n    }")]),
 ("qb-add", "", [(MP, "  planes.push_back(av);\n\n  if (useMaxPlanesSupportList) {\n    // add new plane to supportList\n    FOR_EACH(ai, av->mask.data) { supportList[ai->index].push_back(av); }\n  }", "  if (useMaxPlanesSupportList) {\n    FOR_EACH(ai, av->mask.data) {\n      const int st = ai->index;\n      supportList[st].push_back(av);\n    }\n  }\n  planes.push_back(av);")]),
 ("qb-addpt", "", [(SW, "  int wc = whichCornerPoint(bv->b);\n  if (-1 == wc) {", "  const int wc = whichCornerPoint(bv->b);\n  const bool interior = (wc < 0);\n  if (interior) {")]),
 ("qb-init", "", [(SW, "  if (cn.isTerminal) {\n    setUBForNode(cn, 0, true);\n  } else {\n    setUBForNode(cn, getValue(cn.s, NULL), false);\n  }", "  const double ub0 = cn.isTerminal ? 0.0 : getValue(cn.s, NULL);\n  setUBForNode(cn, ub0, cn.isTerminal);")]),
]
