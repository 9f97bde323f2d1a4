PB = "pomdpBounds/"
M = [
    ("b-g02-hsvi", "G02", [("search/HSVI.cc", "  r.maxUBVal = cn.ubVal;\n", "")]),
    ("b-g02-bvpair", "G02", [(PB + "SawtoothUpperBound.h", "v(_v), innerCornerCache(0), numBackupsAtCreation(0) {}", "v(_v), innerCornerCache(0) {}")]),
    ("b-g02-plane", "G02", [(PB + "MaxPlanesLowerBound.cc", "LBPlane::LBPlane(void) : action(-1), numBackupsAtCreation(0) {}", "LBPlane::LBPlane(void) : action(-1) {}")]),
    ("b-g02-node-term", "G02", [("bounds/BoundPair.cc", "    cn.isTerminal = problem->getIsTerminalState(s);\n", "")]),
    ("b-g02-node-data", "G02", [("bounds/BoundPair.cc", "    cn.boundsData = NULL;\n", "")]),
    ("b-g02-node-ub", "G02", [("bounds/BoundPair.cc", "      cn.ubVal = -1;  // n/a\n", "")]),
    ("b-g02-prio", "G02", [("search/FRTDP.cc", "  searchData->prio =\n      (excessWidth <= 0) ? RT_PRIO_MINUS_INFINITY : log(excessWidth);", "  if (excessWidth > 0) searchData->prio = log(excessWidth);")]),
    ("b-g02-maxprio", "G02", [("search/FRTDP.cc", "  r.maxPrio = -99e+20;\n", "")]),
    ("b-g02-out", "G02", [("bounds/PointUpperBound.cc", "  if (NULL != maxUBActionP) *maxUBActionP = maxUBAction;\n}\n\nvoid PointUpperBound::updateUseCache", "}\n\nvoid PointUpperBound::updateUseCache")]),
    ("b-g02-out2", "G02", [("bounds/RelaxUBInitializer.cc", "  if (NULL != secondBestUBValP) *secondBestUBValP = secondBestUBVal;\n", "")]),
    ("b-g02-local", "G02", [("bounds/BoundPair.cc", "    double maxVal = -99e+20;\n    double minVal = 99e+20;", "    double maxVal;\n    double minVal = 99e+20;")]),
    ("b-g02-best", "G02", [("bounds/RelaxUBInitializer.cc", "  double secondBestUBVal = -99e+20;\n", "  double secondBestUBVal;\n")]),
    ("b-g02-verbose", "G02", [("exec/PolicyEvaluator.cc", "  verbose = _verbose;\n", "")]),
    ("b-g02-trials", "G02", [("search/RTDPCore.cc", "  numTrials = 0;\n", "")]),
    ("b-g02-param2", "G02", [("main/solverUtils.cc", "  SU_GET_INT(maxHorizon);\n", "")]),
    ("b-g02-user", "G02", [("mdps/CacheMDP.cc", "    cn.userInt = -1;\n", "")]),
    ("b-g02-hdp", "G02", [("search/HDP.cc", "  index = 0;\n", "")]),
    ("b-g02-fast", "G02", [("parsers/FastParser.cc", "        FP_CHECK_SET(discountSet, \"discount\");\n", "")]),
    ("b-g02-relax", "G02", [("bounds/RelaxUBInitializer.cc", "    cn.lbVal = initLowerBound->getValue(s, NULL);\n", "")]),
    ("b-g02-sim", "G02", [("common/MDPSim.cc", "  terminated = false;\n", "")]),
    ("b-g02-term", "G02", [("search/LRTDP.cc", "a = bounds->getMaxUBAction(n);\n    MDPQEntry", "if (n.ubVal > n.lbVal) a = bounds->getMaxUBAction(n);\n    MDPQEntry")]),
]
