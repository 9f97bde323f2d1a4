L = "pomdpModels/lifeSurvey/LifeSurvey.cc"
G = "pomdpModels/lifeSurvey/LSModelFile.cc"
X = "pomdpModels/lifeSurvey/LSPathAndReactExec.cc"
M = [
    ("q-x03-contains", "X03", [(G, "unsigned char LSGrid::getCellBounded(const LSPos &pos) const {\n  if (0 <= pos.x && pos.x < (static_cast<int>(width)) && 0 <= pos.y &&\n      pos.y < (static_cast<int>(height))) {\n    return getCell(pos);\n  } else {\n    return LS_OBSTACLE;\n  }", "static bool contains(const LSGrid &g, const LSPos &pos) {\n  return 0 <= pos.x && pos.x < (static_cast<int>(g.width)) && 0 <= pos.y &&\n         pos.y < (static_cast<int>(g.height));\n}\n\nunsigned char LSGrid::getCellBounded(const LSPos &pos) const {\n  if (contains(*this, pos)) {\n    return getCell(pos);\n  }\n  return LS_OBSTACLE;")]),
    ("q-x03-early", "X03", [(G, "  if (0 <= pos.x && pos.x < (static_cast<int>(width)) && 0 <= pos.y &&\n      pos.y < (static_cast<int>(height))) {\n    return getCell(pos);\n  } else {\n    return LS_OBSTACLE;\n  }", "  if (pos.x < 0 || pos.y < 0) return LS_OBSTACLE;\n  if (pos.x >= static_cast<int>(width)) return LS_OBSTACLE;\n  if (pos.y >= static_cast<int>(height)) return LS_OBSTACLE;\n  return getCell(pos);")]),
    ("q-x03-cond", "X03", [(G, "  if (0 <= pos.x && pos.x < (static_cast<int>(width)) && 0 <= pos.y &&\n      pos.y < (static_cast<int>(height))) {\n    return getCell(pos);\n  } else {\n    return LS_OBSTACLE;\n  }", "  bool in = 0 <= pos.x && pos.x < (static_cast<int>(width)) && 0 <= pos.y &&\n      pos.y < (static_cast<int>(height));\n  return in ? getCell(pos) : LS_OBSTACLE;")]),
    ("q-x03-exitw", "X03", [(G, "  for (int x = pos.x + 1; x < static_cast<int>(width); x++) {\n    if (LS_OBSTACLE != getCell(LSPos(x, pos.y))) {\n      return false;\n    }\n  }", "  int x = pos.x + 1;\n  while (x < static_cast<int>(width)) {\n    LSPos p(x, pos.y);\n    if (LS_OBSTACLE != getCell(p)) {\n      return false;\n    }\n    x++;\n  }")]),
    ("q-x03-loops", "X03", [(L, "    FOR(y, result.height) {\n      for (int x = result.width - 1; x >= 0; x--) {", "    const int w = result.width;\n    for (int x = w - 1; x >= 0; x--) {\n      FOR(y, result.height) {")]),
    ("q-x03-neigh", "X03", [(L, "  switch (dir) {\n    case LS_NE:\n      return LSPos(pos.x + 1, pos.y + 1);\n    case LS_E:\n      return LSPos(pos.x + 1, pos.y);\n    case LS_SE:\n      return LSPos(pos.x, pos.y - 1);\n    default:\n      assert(0); /* never reach this point */\n      return LSPos();\n  }", "  static const int dx[] = {1, 1, 0}, dy[] = {1, 0, -1};\n  assert(0 <= dir && dir < 3);\n  return LSPos(pos.x + dx[dir], pos.y + dy[dir]);")]),
    ("q-x03-neighif", "X03", [(L, "  switch (dir) {\n    case LS_NE:\n      return LSPos(pos.x + 1, pos.y + 1);\n    case LS_E:\n      return LSPos(pos.x + 1, pos.y);\n    case LS_SE:\n      return LSPos(pos.x, pos.y - 1);\n    default:\n      assert(0); /* never reach this point */\n      return LSPos();\n  }", "  if (LS_NE == dir) return LSPos(pos.x + 1, pos.y + 1);\n  if (LS_E == dir) return LSPos(pos.x + 1, pos.y);\n  assert(LS_SE == dir);\n  LSPos r = pos;\n  r.y--;\n  return r;")]),
    ("q-x03-obst", "X03,X04", [(L, "      int nextCellRegion = mfile.grid.getCellBounded(nextState.pos);\n      if (/* move into an obstacle? */\n          (LS_OBSTACLE == nextCellRegion)\n          /* move turns too sharply? */\n          || (LS_NE == s.lastMoveDirection && LS_SE == a.moveDirection) ||\n          (LS_SE == s.lastMoveDirection && LS_NE == a.moveDirection)) {", "      int nextCellRegion = mfile.grid.getCellBounded(nextState.pos);\n      bool sharp = (LS_NE == s.lastMoveDirection && LS_SE == a.moveDirection) ||\n          (LS_SE == s.lastMoveDirection && LS_NE == a.moveDirection);\n      bool blocked = LS_OBSTACLE == nextCellRegion;\n      if (blocked || sharp) {")]),
    ("q-x03-key", "X03", [(L, "    FOR(i, n) {\n      snprintf(eltbuf, sizeof(eltbuf), \"%1d\", rewardLevelInRegion[i]);\n      rbuf[i] = eltbuf[0];\n    }\n    rbuf[n] = '\\0';", "    size_t i = 0;\n    for (; i < n; i++) {\n      snprintf(eltbuf, sizeof(eltbuf), \"%1d\", rewardLevelInRegion[i]);\n      rbuf[i] = eltbuf[0];\n    }\n    rbuf[i] = 0;")]),
    ("q-x03-keystr", "X03", [(L, "    char eltbuf[2], rbuf[256], buf[1024];", "    std::string rbuf;\n    char buf[1024];"), (L, "    size_t n = std::min(sizeof(rbuf) - 1, rewardLevelInRegion.size());\n    FOR(i, n) {\n      snprintf(eltbuf, sizeof(eltbuf), \"%1d\", rewardLevelInRegion[i]);\n      rbuf[i] = eltbuf[0];\n    }\n    rbuf[n] = '\\0';", "    FOR(i, rewardLevelInRegion.size()) {\n      rbuf += static_cast<char>('0' + rewardLevelInRegion[i]);\n    }"), (L, "lifeInNeighborCell[2], rbuf);", "lifeInNeighborCell[2], rbuf.c_str());")]),
    ("q-x03-table", "X03", [(L, "    int si = states.size();\n    lookup[ss] = si;\n", ""), (L, "    states.push_back(e);\n", "    states.push_back(e);\n    int si = static_cast<int>(states.size()) - 1;\n    lookup[ss] = si;\n")]),
    ("q-x03-act", "X03", [(L, "  if (6 == ai) {\n    type = LS_ACT_LOOK;\n  } else {\n    type = LS_ACT_MOVE;\n    useSample = ai / 3;\n    moveDirection = ai % 3;\n  }", "  if (ai < 6) {\n    type = LS_ACT_MOVE;\n    useSample = ai < 3 ? 0 : 1;\n    moveDirection = ai - 3 * useSample;\n    return;\n  }\n  type = LS_ACT_LOOK;")]),
    ("q-x03-obs", "X03", [(L, "    lifeInNeighborConfidence[2] = oi % LS_BASE_NUM_OBSERVATIONS;\n    oi /= LS_BASE_NUM_OBSERVATIONS;\n    lifeInNeighborConfidence[1] = oi % LS_BASE_NUM_OBSERVATIONS;\n    oi /= LS_BASE_NUM_OBSERVATIONS;\n    lifeInNeighborConfidence[0] = oi;", "    for (int j = 2; j >= 0; j--) {\n      lifeInNeighborConfidence[j] = oi % LS_BASE_NUM_OBSERVATIONS;\n      oi = oi / LS_BASE_NUM_OBSERVATIONS;\n    }")]),
    ("q-x03-obs2", "X03", [(L, "  if (isNull) {\n    return OBS_NULL;\n  } else {\n    return lifeInNeighborConfidence[2] +\n           LS_BASE_NUM_OBSERVATIONS *\n               (lifeInNeighborConfidence[1] +\n                LS_BASE_NUM_OBSERVATIONS * lifeInNeighborConfidence[0]);\n  }", "  if (isNull) return OBS_NULL;\n  int r = 0;\n  FOR(j, 3) { r = r * LS_BASE_NUM_OBSERVATIONS + lifeInNeighborConfidence[j]; }\n  return r;")]),
    ("q-x04-add", "X04", [(L, "void LSModel::getOutcomes(std::vector<LSOutcome> &outcomes,", "static void addOutcome(std::vector<LSOutcome> &outcomes, double p, int si) {\n  LSOutcome o;\n  o.prob = p;\n  o.nextState = si;\n  outcomes.push_back(o);\n}\n\nvoid LSModel::getOutcomes(std::vector<LSOutcome> &outcomes,"),
        (L, "        outc.prob = 1.0;\n        outc.nextState = LSState::getTerminalState().toInt();\n        outcomes.push_back(outc);", "        addOutcome(outcomes, 1.0, LSState::getTerminalState().toInt());"),
        (L, "        if (outc.prob != 0.0) {\n          outc.nextState = nextState.toInt();\n          outcomes.push_back(outc);\n        }", "        if (outc.prob != 0.0) {\n          addOutcome(outcomes, outc.prob, nextState.toInt());\n        }")]),
    ("q-x04-local", "X04", [(L, "      FOR(i, 8) {\n        outc.prob = 1.0;\n        int i0 = i;\n        for (int j = 2; j >= 0; j--) {\n          int nset = i0 % 2;\n          i0 /= 2;", "      FOR(i, 8) {\n        outc.prob = 1.0;\n        for (int j = 2; j >= 0; j--) {\n          int nset = (i >> (2 - j)) & 1;")]),
    ("q-x04-nest", "X04", [(L, "        if (outc.prob != 0.0) {\n          outc.nextState = nextState.toInt();\n          outcomes.push_back(outc);\n        }", "        if (0.0 == outc.prob) continue;\n        outc.nextState = nextState.toInt();\n        outcomes.push_back(outc);")]),
    ("q-x04-prob", "X04", [(L, "      outc.prob = 1.0;\n      int i0 = i;\n      for (int j = 2; j >= 0; j--) {\n        int obsj", "      double p = 1.0;\n      int i0 = i;\n      for (int j = 2; j >= 0; j--) {\n        int obsj"), (L, "        outc.prob *=\n            (sp.life", "        p *=\n            (sp.life"), (L, "      if (outc.prob > 0.0) {\n        result.push_back", "      outc.prob = p;\n      if (p > 0.0) {\n        result.push_back")]),
    ("q-x04-dist", "X04", [(L, "        outc.prob *=\n            (sp.lifeInNeighborCell[j] ? mfile.obsDistributionLifePresent[obsj]\n                                      : mfile.obsDistributionLifeAbsent[obsj]);", "        const std::vector<double> &dist = sp.lifeInNeighborCell[j] ? mfile.obsDistributionLifePresent : mfile.obsDistributionLifeAbsent;\n        outc.prob *= dist[obsj];")]),
    ("q-x04-single", "X04", [(L, "  if (sp.isTerminal()) {\n    outc.prob = 1.0;\n    outc.obs = OBS_NULL;\n    result.push_back(outc);\n  } else if (LS_ACT_LOOK != a.type) {\n    outc.prob = 1.0;", "  if (sp.isTerminal() || LS_ACT_LOOK != a.type) {\n    outc.prob = 1.0;")]),
]
