L = "pomdpBounds/MaxPlanesLowerBound.cc"
S = "pomdpBounds/SawtoothUpperBound.cc"
D = "common/zmdpCommonDefs.h"
M = [
    ("q-g01-std", "G01", [(L, "          eraseElement(pi, eltP);\n          break;", "          pi.erase(eltP);\n          break;")]),
    ("q-g01-remove", "G01", [(L, "      PlaneSet &pi = supportList[ai->index];\n      FOR_EACH(eltP, pi) {\n        if (victim == *eltP) {\n          eraseElement(pi, eltP);\n          break;\n        }\n      }", "      supportList[ai->index].remove(victim);")]),
    ("q-g01-helper", "G01", [(S, "void SawtoothUpperBound::deleteAndForward(BVPair *victim, BVPair *dominator) {", "static void dropFrom(std::list<BVPair *> &bvl, BVPair *victim) {\n  FOR_EACH(eltP, bvl) {\n    if (victim == *eltP) {\n      eraseElement(bvl, eltP);\n      return;\n    }\n  }\n}\n\nvoid SawtoothUpperBound::deleteAndForward(BVPair *victim, BVPair *dominator) {"), (S, "      BVList &bvl = supportList[bi->index];\n      FOR_EACH(eltP, bvl) {\n        if (victim == *eltP) {\n          eraseElement(bvl, eltP);\n          break;\n        }\n      }", "      dropFrom(supportList[bi->index], victim);")]),
    ("q-g01-first", "G01", [(L, "        deleteAndForward(member, candidate);\n        memberP = eraseElement(planes, memberP);", "        memberP = eraseElement(planes, memberP);\n        deleteAndForward(member, candidate);")]),
    ("q-g01-erase", "G01", [(L, "        memberP = eraseElement(planes, memberP);\n        continue;", "        memberP = planes.erase(memberP);\n        continue;")]),
    ("q-g01-tmp", "G01", [(L, "        memberP = eraseElement(planes, memberP);\n        continue;", "        typeof(memberP) next = memberP;\n        ++next;\n        planes.erase(memberP);\n        memberP = next;\n        continue;")]),
    ("q-g01-post", "G01", [(L, "        memberP = eraseElement(planes, memberP);\n        continue;", "        planes.erase(memberP++);\n        continue;")]),
    ("q-g01-while", "G01", [(L, "    FOR_EACH(bpP, victim->backPointers) {\n      LBPlane **bp = *bpP;\n      *bp = dominator;\n      dominator->backPointers.push_back(bp);\n    }", "    while (!victim->backPointers.empty()) {\n      LBPlane **bp = victim->backPointers.front();\n      victim->backPointers.pop_front();\n      *bp = dominator;\n      dominator->backPointers.push_back(bp);\n    }")]),
    ("q-g01-splice", "G01", [(L, "    FOR_EACH(bpP, victim->backPointers) {\n      LBPlane **bp = *bpP;\n      *bp = dominator;\n      dominator->backPointers.push_back(bp);\n    }", "    for (LBPlane **bp : victim->backPointers) *bp = dominator;\n    if (NULL != dominator) dominator->backPointers.splice(dominator->backPointers.end(), victim->backPointers);")]),
    ("q-g01-fwdhelper", "G01", [(L, "void MaxPlanesLowerBound::deleteAndForward(", "static void forwardPointers(LBPlane *victim, LBPlane *dominator) {\n  FOR_EACH(bpP, victim->backPointers) {\n    LBPlane **bp = *bpP;\n    *bp = dominator;\n    dominator->backPointers.push_back(bp);\n  }\n}\n\nvoid MaxPlanesLowerBound::deleteAndForward("), (L, "    FOR_EACH(bpP, victim->backPointers) {\n      LBPlane **bp = *bpP;\n      *bp = dominator;\n      dominator->backPointers.push_back(bp);\n    }", "    forwardPointers(victim, dominator);")]),
    ("q-g01-early", "G01", [(L, "  if (useMaxPlanesCache) {\n    // forward", "  if (useMaxPlanesCache && !victim->backPointers.empty()) {\n    // forward")]),
    ("q-g01-setremove", "G01", [(L, "      typeof(backPointers.begin()) eraseList = std::remove(\n          backPointers.begin(), backPointers.end(), &bdata->bestPlane);\n      backPointers.erase(eraseList);", "      backPointers.remove(&bdata->bestPlane);")]),
    ("q-g01-range", "G01", [(L, "      typeof(backPointers.begin()) eraseList = std::remove(\n          backPointers.begin(), backPointers.end(), &bdata->bestPlane);\n      backPointers.erase(eraseList);", "      oldPlane->backPointers.erase(std::remove(oldPlane->backPointers.begin(), oldPlane->backPointers.end(), &bdata->bestPlane), oldPlane->backPointers.end());")]),
    ("q-g01-unregh", "G01", [(L, "void MaxPlanesLowerBound::setPlaneForNode(MDPNode &cn, LBPlane *newPlane) {", "static void forget(LBPlane *plane, LBPlane **place) {\n  std::list<LBPlane **> &backPointers = plane->backPointers;\n  backPointers.remove(place);\n}\n\nvoid MaxPlanesLowerBound::setPlaneForNode(MDPNode &cn, LBPlane *newPlane) {"), (L, "      std::list<LBPlane **> &backPointers = oldPlane->backPointers;\n      typeof(backPointers.begin()) eraseList = std::remove(\n          backPointers.begin(), backPointers.end(), &bdata->bestPlane);\n      backPointers.erase(eraseList);", "      forget(oldPlane, &bdata->bestPlane);")]),
    ("q-g01-prunef", "G01", [(S, "        // candidate is pruned\n        deleteAndForward(candidate, opponent);\n        candidateP = eraseElement(pts, candidateP);\n        goto nextCandidate;\n      }\n      opponentP++;\n    }\n    candidateP++;\n  nextCandidate : {}", "        // candidate is pruned\n        dead = opponent;\n        break;\n      }\n      opponentP++;\n    }\n    if (NULL != dead) {\n      deleteAndForward(candidate, dead);\n      candidateP = eraseElement(pts, candidateP);\n    } else {\n      candidateP++;\n    }"), (S, "    BVPair *candidate = *candidateP;\n", "    BVPair *candidate = *candidateP;\n    BVPair *dead = NULL;\n")]),
    ("q-g01-del", "G01", [(S, "    cornerPts(wc) = bv->v;\n    delete bv;\n  }", "    double val = bv->v;\n    delete bv;\n    bv = NULL;\n    cornerPts(wc) = val;\n  }")]),
    ("q-g01-one", "G01", [(D, "  _ForwardIterator ip1 = i;\n  ip1++;\n  c.erase(i, ip1);\n  return ip1;", "  return c.erase(i);")]),
]
