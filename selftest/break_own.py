L = "pomdpBounds/MaxPlanesLowerBound.cc"
LH = "pomdpBounds/MaxPlanesLowerBound.h"
S = "pomdpBounds/SawtoothUpperBound.cc"
SH = "pomdpBounds/SawtoothUpperBound.h"
D = "common/zmdpCommonDefs.h"
M = [
    ("b-g01-break", "G01", [(L, "          eraseElement(pi, eltP);\n          break;", "          eraseElement(pi, eltP);")]),
    ("b-g01-erase", "G01", [(L, "        deleteAndForward(member, candidate);\n        memberP = eraseElement(planes, memberP);", "        deleteAndForward(member, candidate);\n        eraseElement(planes, memberP);\n        memberP++;")]),
    ("b-g01-keep", "G01", [(L, "        deleteAndForward(member, candidate);\n        memberP = eraseElement(planes, memberP);\n        continue;", "        deleteAndForward(member, candidate);\n        memberP++;\n        continue;")]),
    ("b-g01-keepc", "G01", [(L, "        candidateP = eraseElement(planes, candidateP);\n        // as a", "        candidateP++;\n        // as a")]),
    ("b-g01-wrong", "G01", [(L, "        deleteAndForward(candidate, member);\n        candidateP = eraseElement(planes, candidateP);", "        deleteAndForward(candidate, member);\n        memberP = eraseElement(planes, memberP);")]),
    ("b-g01-order", "G01", [(L, "        deleteAndForward(member, candidate);\n        memberP", "        deleteAndForward(member, candidate);\n        candidate->backPointers.splice(candidate->backPointers.end(), member->backPointers);\n        memberP")]),
    ("b-g01-dom", "G01", [(L, "  if (useMaxPlanesSupportList) {\n    // remove victim", "  if (useMaxPlanesSupportList && NULL != dominator) {\n    // remove victim")]),
    ("b-g01-sup", "G01", [(L, "  if (useMaxPlanesSupportList) {\n    // remove victim", "  if (useMaxPlanesSupportList && useMaxPlanesCache) {\n    // remove victim")]),
    ("b-g01-nosup", "G01", [(L, "          eraseElement(pi, eltP);\n          break;", "          break;")]),
    ("b-g01-first", "G01", [(L, "          eraseElement(pi, eltP);\n          break;\n        }\n      }", "          eraseElement(pi, eltP);\n          break;\n        }\n      }\n      if (pi.empty()) break;")]),
    ("b-g01-idx", "G01", [(L, "    FOR_EACH(ai, victim->mask.data) {", "    FOR_EACH(ai, victim->alpha.data) {")]),
    ("b-g01-fwd", "G01", [(L, "  if (useMaxPlanesCache) {\n    // forward", "  if (useMaxPlanesExtraPruning) {\n    // forward")]),
    ("b-g01-rereg", "G01", [(L, "      dominator->backPointers.push_back(bp);\n", "")]),
    ("b-g01-redir", "G01", [(L, "      *bp = dominator;\n", "")]),
    ("b-g01-reg", "G01", [(L, "    newPlane->backPointers.push_back(&bdata->bestPlane);\n", "    if (newPlane != oldPlane) newPlane->backPointers.push_back(&bdata->bestPlane);\n")]),
    ("b-g01-unreg", "G01", [(L, "      backPointers.erase(eraseList);\n", "")]),
    ("b-g01-late", "G01", [(L, "  if (useMaxPlanesCache) {\n    // forward", "  delete victim;\n  if (useMaxPlanesCache) {\n    // forward"), (L, "      dominator->backPointers.push_back(bp);\n    }\n  }\n\n  delete victim;\n", "      dominator->backPointers.push_back(bp);\n    }\n  }\n")]),
    ("b-g01-last", "G01", [(LH, "  std::vector<PlaneSet> supportList;", "  std::vector<PlaneSet> supportList;\n  LBPlane *lastPlane;"), (L, "  lastPruneNumPlanes = 0;", "  lastPruneNumPlanes = 0;\n  lastPlane = NULL;"), (L, "  setPlaneForNode(cn, newPlane);\n\n  addLBPlane(newPlane);", "  setPlaneForNode(cn, newPlane);\n  if (NULL != lastPlane && inner_prod(lastPlane->alpha, cn.s) > cn.lbVal) setPlaneForNode(cn, lastPlane);\n  lastPlane = newPlane;\n\n  addLBPlane(newPlane);")]),
    ("b-g01-dtor", "G01", [(L, "  FOR_EACH(planeP, planes) { delete *planeP; }", "  FOR_EACH(planeP, planes) { delete *planeP; }\n  FOR_EACH(sl, supportList) { FOR_EACH(planeP, *sl) { delete *planeP; } }")]),
    ("b-g01-spts", "G01", [(S, "        deleteAndForward(candidate, opponent);\n        candidateP = eraseElement(pts, candidateP);\n        goto nextCandidate;", "        deleteAndForward(candidate, opponent);\n        candidateP++;\n        goto nextCandidate;")]),
    ("b-g01-scont", "G01", [(S, "        candidateP = eraseElement(pts, candidateP);\n        goto nextCandidate;\n      }\n      opponentP++;\n    }\n    candidateP++;\n  nextCandidate : {}", "        candidateP = eraseElement(pts, candidateP);\n        candidate = opponent;\n        goto nextCandidate;\n      } else if (dominates(candidate, opponent)) {\n        deleteAndForward(opponent, candidate);\n      }\n      opponentP++;\n    }\n    candidateP++;\n  nextCandidate : {}")]),
    ("b-g01-ssup", "G01", [(S, "          eraseElement(bvl, eltP);\n          break;", "          break;")]),
    ("b-g01-sdel", "G01", [(S, "    pts.push_back(bv);\n  } else {\n    cornerPts(wc) = bv->v;\n    delete bv;\n  }", "    pts.push_back(bv);\n  } else {\n    pts.push_back(bv);\n    cornerPts(wc) = bv->v;\n    delete bv;\n  }")]),
    ("b-g01-suse", "G01", [(S, "  cn.ubVal = newUB;\n\n  if (addBV) {\n    addPoint(newBV);", "  cn.ubVal = newUB;\n\n  if (addBV) {\n    addPoint(newBV);\n    cn.ubVal = newBV->v;")]),
    ("b-g01-elem", "G01", [(D, "  c.erase(i, ip1);\n  return ip1;", "  c.erase(i, ip1);\n  i++;\n  return i;")]),
]
