L = "pomdpModels/lifeSurvey/LifeSurvey.cc"
G = "pomdpModels/lifeSurvey/LSModelFile.cc"
X = "pomdpModels/lifeSurvey/LSPathAndReactExec.cc"
M = [
    ("b-x03-bounded", "X03", [(G, "pos.x < (static_cast<int>(width))", "pos.x <= (static_cast<int>(width))")]),
    ("b-x03-boundedy", "X03", [(G, "if (0 <= pos.x && pos.x < (static_cast<int>(width)) && 0 <= pos.y &&", "if (0 <= pos.x && pos.x < (static_cast<int>(width)) &&")]),
    ("b-x03-swap", "X03", [(G, "pos.x < (static_cast<int>(width)) && 0 <= pos.y &&\n      pos.y < (static_cast<int>(height))", "pos.x < (static_cast<int>(height)) && 0 <= pos.y &&\n      pos.y < (static_cast<int>(width))")]),
    ("b-x03-exit", "X03", [(G, "for (int x = pos.x + 1; x < static_cast<int>(width); x++)", "for (int x = pos.x + 1; x <= static_cast<int>(width); x++)")]),
    ("b-x03-prior", "X03", [(L, "int region = mfile.grid.getCellBounded(pos);", "int region = mfile.grid.getCell(pos);")]),
    ("b-x03-move", "X03", [(L, "int nextCellRegion = mfile.grid.getCellBounded(nextState.pos);", "int nextCellRegion = mfile.grid.getCell(nextState.pos);")]),
    ("b-x03-obst", "X03", [(L, "          (LS_OBSTACLE == nextCellRegion)\n          /* move turns too sharply? */\n          || (LS_NE", "          /* move turns too sharply? */\n          (LS_NE")]),
    ("b-x03-reach", "X03", [(L, "((1 == result.getCellBounded(getNeighbor(pos, LS_NE))) ||", "((1 == result.getCell(getNeighbor(pos, LS_NE))) ||")]),
    ("b-x03-row", "X03", [(L, "for (int x = result.width - 1; x >= 0; x--) {", "for (int x = result.width; x >= 0; x--) {")]),
    ("b-x03-rows", "X03", [(L, "    FOR(y, result.height) {\n      for (int x = result", "    for (int y = 0; y <= static_cast<int>(result.height); y++) {\n      for (int x = result")]),
    ("b-x03-pathobst", "X03", [(X, "      if (LS_OBSTACLE == nextCellRegion ||\n          (LS_SE == entry.lastMoveDirection && LS_NE == dir) ||\n          (LS_NE == entry.lastMoveDirection && LS_SE == dir)) {\n        // invalid move\n      } else {\n        // calculate", "      if ((LS_SE == entry.lastMoveDirection && LS_NE == dir) ||\n          (LS_NE == entry.lastMoveDirection && LS_SE == dir)) {\n        // invalid move\n      } else {\n        // calculate")]),
    ("b-x03-act", "X03", [(L, "return useSample * 3 + moveDirection;", "return useSample + 2 * moveDirection;")]),
    ("b-x03-actmod", "X03", [(L, "    useSample = ai / 3;\n    moveDirection = ai % 3;", "    useSample = ai % 2;\n    moveDirection = ai / 2;")]),
    ("b-x03-obs", "X03", [(L, "return lifeInNeighborConfidence[2] +", "return lifeInNeighborConfidence[0] +")]),
    ("b-x03-obsorder", "X03", [(L, "    lifeInNeighborConfidence[2] = oi % LS_BASE_NUM_OBSERVATIONS;\n    oi /= LS_BASE_NUM_OBSERVATIONS;\n    lifeInNeighborConfidence[1] = oi % LS_BASE_NUM_OBSERVATIONS;", "    lifeInNeighborConfidence[1] = oi % LS_BASE_NUM_OBSERVATIONS;\n    oi /= LS_BASE_NUM_OBSERVATIONS;\n    lifeInNeighborConfidence[2] = oi % LS_BASE_NUM_OBSERVATIONS;")]),
    ("b-x03-name", "X03", [(L, '"sx%dy%dd%du%dn%d%d%dr%s", pos.x, pos.y,\n             lastMoveDirection, usedLookaheadInThisCell,', '"sx%dy%dd%dn%d%d%dr%s", pos.x, pos.y,\n             lastMoveDirection,')]),
    ("b-x03-name2", "X03", [(L, "lifeInNeighborCell[1], lifeInNeighborCell[2], rbuf);", "lifeInNeighborCell[1], lifeInNeighborCell[1], rbuf);")]),
    ("b-x03-sep", "X03", [(L, '"sx%dy%dd%du%dn%d%d%dr%s"', '"sx%d%dd%du%dn%d%d%dr%s"')]),
    ("b-x03-nul", "X03", [(L, "    rbuf[n] = '\\0';\n", "    if (n == 0) rbuf[n] = '\\0';\n")]),
    ("b-x03-num", "X03", [(L, "    int si = states.size();\n    lookup[ss] = si;", "    int si = states.size() + 1;\n    lookup[ss] = si;")]),
    ("b-x03-num2", "X03", [(L, "    int si = states.size();\n    lookup[ss] = si;\n", ""), (L, "    states.push_back(e);\n", "    states.push_back(e);\n    int si = states.size();\n    lookup[ss] = si;\n")]),
    ("b-x03-dir", "X03", [(L, "return LSPos(pos.x, pos.y - 1);", "return LSPos(pos.x + 1, pos.y - 1);")]),
    ("b-x03-overlap", "X03", [(L, "np[LS_SE] = s.lifeInNeighborCell[LS_E] ? 1.0 : 0.0;", "np[LS_SE] = s.lifeInNeighborCell[LS_NE] ? 1.0 : 0.0;")]),
    ("b-x03-overlap2", "X03", [(L, "np[LS_NE] = s.lifeInNeighborCell[LS_E] ? 1.0 : 0.0;", "np[LS_E] = s.lifeInNeighborCell[LS_E] ? 1.0 : 0.0;")]),
    ("b-x04-four", "X04", [(L, "      FOR(i, 8) {\n        outc.prob = 1.0;", "      FOR(i, 7) {\n        outc.prob = 1.0;")]),
    ("b-x04-reset", "X04", [(L, "      FOR(i, 8) {\n        outc.prob = 1.0;", "      outc.prob = 1.0;\n      FOR(i, 8) {")]),
    ("b-x04-neg", "X04", [(L, "outc.prob *= nset ? np[j] : (1 - np[j]);", "outc.prob *= nset ? np[j] : (1 - np[0]);")]),
    ("b-x04-thr", "X04", [(L, "if (outc.prob > 0.0) {", "if (outc.prob > 1e-2) {")]),
    ("b-x04-bits", "X04", [(L, "      for (int j = 2; j >= 0; j--) {\n          int nset", "        for (int j = 2; j >= 1; j--) {\n          int nset")]),
    ("b-x04-ret", "X04", [(L, "        outcomes.push_back(outc);\n        reward = actionReward - actionCost;\n        return;", "        outcomes.push_back(outc);\n        reward = actionReward - actionCost;\n        if (reward > 0) return;")]),
    ("b-x04-clear", "X04", [(L, "      outc.nextState = nextState.toInt();\n      outcomes.push_back(outc);\n      reward = -LS_COST_LOOKAHEAD;", "      outc.nextState = nextState.toInt();\n      if (s.lastMoveDirection >= 0) outcomes.push_back(outc);\n      reward = -LS_COST_LOOKAHEAD;")]),
    ("b-x04-obs", "X04", [(L, "FOR(i, LS_NUM_OBSERVATIONS - 1) {\n      outc.obs", "FOR(i, LS_NUM_OBSERVATIONS - 2) {\n      outc.obs")]),
    ("b-x04-dist", "X04", [(L, "(sp.lifeInNeighborCell[j] ? mfile.obsDistributionLifePresent[obsj]", "(sp.lifeInNeighborCell[obsj] ? mfile.obsDistributionLifePresent[obsj]")]),
    ("b-x04-norm", "X04", [(G, 'getVal(params, "obsDistributionLifePresent"),\n                        /* doNormalizeVector = */ 1);', 'getVal(params, "obsDistributionLifePresent"),\n                        /* doNormalizeVector = */ 0);')]),
]
