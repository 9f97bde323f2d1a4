B = "bounds/BoundPair.cc"
M_ = "pomdpBounds/MaxPlanesLowerBound.cc"
M = [
    ("b-e02-getnode", "E02", [(B, "lbVal += opv(o) * lowerBound->getValue(sp, getNodeOrNull(sp));", "MDPNode *sn = const_cast<BoundPair *>(this)->getNode(sp);\n          lbVal += opv(o) * lowerBound->getValue(sp, sn);")]),
    ("b-e02-insert", "E02", [(B, "  typeof(lookup->begin()) pr = lookup->find(hashable(s));\n  if (lookup->end() == pr) {\n    return NULL;\n  } else {\n    return pr->second;\n  }", "  return (*lookup)[hashable(s)];")]),
    ("b-e02-cachelb", "E02", [(B, "  MDPNode *cn = getNodeOrNull(s);\n  return", "  MDPNode *cn = getNodeOrNull(s);\n  if (NULL != cn && maintainLowerBound)\n    cn->lbVal = std::max(cn->lbVal, lowerBound->getValue(s, cn));\n  return")]),
    ("b-e02-point", "E02", [("bounds/PointUpperBound.cc", "double PointUpperBound::getValue(const state_vector &s,\n                                 const MDPNode *cn) const {", "double PointUpperBound::getValue(const state_vector &s,\n                                 const MDPNode *cn) const {\n  if (NULL != cn) const_cast<MDPNode *>(cn)->ubVal = std::min(cn->ubVal, initBound->getValue(s, cn));")]),
    ("b-e02-plane", "E02", [(M_, "  return getBestLBPlaneConst(b).action;", "  LBPlane &p = getBestLBPlane(b);\n  planes.remove(&p);\n  planes.push_front(&p);\n  return p.action;")]),
    ("b-e02-prune", "E02", [(B, "  if (canModifyBounds) {\n    mlb->prunePlanes", "  {\n    mlb->prunePlanes")]),
    ("b-e02-true", "E02", [("main/TestDriver.cc", "/* canModifyBounds = */ false", "/* canModifyBounds = */ true")]),
    ("b-e02-count", "E02", [(B, "int BoundPair::chooseAction(const state_vector &s) const {", "int BoundPair::chooseAction(const state_vector &s) const {\n  const_cast<BoundPair *>(this)->numBackups++;")]),
    ("b-e02-count2", "E02", [(B, "int BoundPair::chooseAction(const state_vector &s) const {", "static void touch(int &n) { n++; }\n\nint BoundPair::chooseAction(const state_vector &s) const {\n  touch(const_cast<BoundPair *>(this)->numStatesTouched);")]),
    ("b-e02-exec", "E02", [("exec/BoundPairExec.cc", "  return bounds->chooseAction(currentState);", "  bounds->getNode(currentState);\n  return bounds->chooseAction(currentState);")]),
    ("b-e02-eval", "E02", [("exec/BoundPairExec.cc", "  return bounds->chooseAction(currentState);", "  MDPNode *cn = bounds->getNodeOrNull(currentState);\n  if (NULL != cn) bounds->update(*cn, NULL);\n  return bounds->chooseAction(currentState);")]),
    ("b-e02-store", "E02", [("pomdpBounds/SawtoothUpperBound.cc", "int SawtoothUpperBound::getStorage(int whichMetric) const {", "int SawtoothUpperBound::getStorage(int whichMetric) const {\n  const_cast<SawtoothUpperBound *>(this)->prune(core->numBackups);")]),
    ("b-e02-pts", "E02", [("pomdpBounds/SawtoothUpperBound.cc", "    double innerCornerPtsC = inner_prod(cornerPts, (*cPairP)->b);\n    minValue = std::min(\n        minValue, getBVValue(b, *cPairP, innerCornerPtsB, innerCornerPtsC));", "    double innerCornerPtsC = inner_prod(cornerPts, (*cPairP)->b);\n    (*cPairP)->innerCornerCache = innerCornerPtsC;\n    minValue = std::min(\n        minValue, getBVValue(b, *cPairP, innerCornerPtsB, innerCornerPtsC));")]),
    ("b-e02-model", "E02", [("mdps/RaceTrack.cc", "        result = terminalState;", "        terminalState.push_back(2, s(2));\n        result = terminalState;")]),
    ("b-e02-model2", "E02", [("mdps/RaceTrack.cc", "        result = bogusInitialState;", "        bogusInitialState.data.clear();\n        result = bogusInitialState;")]),
    ("b-e02-log", "E02", [("search/StateLog.cc", "    ValueInterval intv = bounds.getValueAt(*entries[i]);", "    entries[i]->resize(entries[i]->size());\n    ValueInterval intv = bounds.getValueAt(*entries[i]);")]),
]
