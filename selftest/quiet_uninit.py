M = [
    ("q-g02-sel", "G02", [("search/FRTDP.cc", "  searchData->prio =\n      (excessWidth <= 0) ? RT_PRIO_MINUS_INFINITY : log(excessWidth);", "  if (excessWidth <= 0) {\n    searchData->prio = RT_PRIO_MINUS_INFINITY;\n  } else {\n    searchData->prio = log(excessWidth);\n  }")]),
    ("q-g02-late", "G02", [("bounds/RelaxUBInitializer.cc", "  double secondBestUBVal = -99e+20;\n  int maxUBAction = -1;\n", "  double secondBestUBVal;\n  secondBestUBVal = -99e+20;\n  int maxUBAction;\n  maxUBAction = -1;\n")]),
    ("q-g02-helper", "G02", [("bounds/BoundPair.cc", "MDPNode *BoundPair::getNode(", "static void fresh(MDPNode *n) {\n  n->searchData = NULL;\n  n->boundsData = NULL;\n}\n\nMDPNode *BoundPair::getNode("), ("bounds/BoundPair.cc", "    cn.searchData = NULL;\n    cn.boundsData = NULL;\n", "    fresh(&cn);\n")]),
    ("q-g02-ptr", "G02", [("mdps/CacheMDP.cc", "    CMDPNode &cn = *(new CMDPNode);\n", "    CMDPNode *made = new CMDPNode;\n    CMDPNode &cn = *made;\n")]),
    ("q-g02-order", "G02", [("exec/PolicyEvaluator.cc", "  verbose = _verbose;\n", "  if (_verbose) {\n    verbose = true;\n  } else {\n    verbose = false;\n  }\n")]),
    ("q-g02-ctor", "G02", [("search/RTDPCore.cc", "  numTrials = 0;\n", "  numTrials = 1;\n  numTrials--;\n")]),
    ("q-g02-early", "G02", [("bounds/PointUpperBound.cc", "  if (NULL != maxUBActionP) *maxUBActionP = maxUBAction;\n}\n\nvoid PointUpperBound::updateUseCache", "  if (NULL == maxUBActionP) return;\n  *maxUBActionP = maxUBAction;\n}\n\nvoid PointUpperBound::updateUseCache")]),
    ("q-g02-flag", "G02", [("parsers/FastParser.cc", "        discountSet = true;\n", "        const bool got = true;\n        discountSet = got;\n")]),
    ("q-g02-switch", "G02", [("bounds/BoundPair.cc", "    double maxVal = -99e+20;\n    double minVal = 99e+20;", "    double maxVal, minVal;\n    maxVal = -99e+20;\n    minVal = 99e+20;")]),
    ("q-g02-init", "G02", [("mdps/CacheMDP.cc", "    cn.userInt = -1;\n", "    {\n      const int none = -1;\n      cn.userInt = none;\n    }\n")]),
]
