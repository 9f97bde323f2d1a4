R = "mdps/RaceTrack.cc"
M = [
    ("q-x01-helper", "X01", [(R, "outcome_prob_vector &RaceTrack::getOutcomeProbVector(", "static void moveMass(outcome_prob_vector &r, int from, int to) {\n  double w = r(from);\n  r(from) = 0;\n  r(to) += w;\n}\n\noutcome_prob_vector &RaceTrack::getOutcomeProbVector("),
                             (R, "    result(lineType) += result(WHICH_OUTCOME);                   \\\n    result(WHICH_OUTCOME) = 0;                                   \\", "    moveMass(result, WHICH_OUTCOME, lineType);                   \\")]),
    ("q-x01-accel", "X01", [(R, "outcome_prob_vector &RaceTrack::getOutcomeProbVector(", "static void decode(int a, int &ax, int &ay) {\n  ax = a / 3 - 1;\n  ay = a % 3 - 1;\n}\n\noutcome_prob_vector &RaceTrack::getOutcomeProbVector("),
                            (R, "    int ax = (a / 3) - 1;\n    int ay = (a % 3) - 1;\n", "    int ax, ay;\n    decode(a, ax, ay);\n"),
                            (R, "        int ax = (a / 3) - 1;\n        int ay = (a % 3) - 1;\n", "        int ax, ay;\n        decode(a, ax, ay);\n")]),
    ("q-x01-while", "X01", [(R, "      FOR(i, 8) {\n        o = RT_SLIP + i;\n        RT_CHECK_OUTCOME(o, ax + dax[o], ay + day[o]);\n      }", "      o = RT_SLIP;\n      while (o < RT_MAX + 7) {\n        RT_CHECK_OUTCOME(o, ax + dax[o], ay + day[o]);\n        o++;\n      }")]),
    ("q-x01-fill", "X01", [(R, "    for (int i = 0; i < n; i++) {\n      result(i) = p;\n    }", "    int i = 0;\n    while (i < n) {\n      result(i) = p;\n      ++i;\n    }")]),
    ("q-x01-if", "X01", [(R, "    switch (o) {\n      case RT_FINISH:", "    if (o == RT_FINISH) {\n      result = terminalState;\n      return result;\n    }\n    switch (o) {\n      case RT_FINISH:")]),
    ("q-x01-size", "X01", [(R, "    if (useErrorIsWind) {\n      result.resize(RT_MAX + 7);\n    } else {\n      result.resize(RT_MAX);\n    }", "    result.resize(useErrorIsWind ? 11 : RT_MAX);")]),
    ("q-x01-direct", "X01", [(R, "        tmp(0) = s(0) + tmp(2);\n        // x", "        tmp(0) = s(0) + tmp(2);"), (R, "        sla::dvector tmp(4);", "        double vx = s(2) + ax, vy = s(3) + ay;\n        sla::dvector tmp(4);"), (R, "        tmp(2) = s(2) + ax;\n        tmp(3) = s(3) + ay;", "        tmp(2) = vx;\n        tmp(3) = vy;"), (R, "        tmp(0) = s(0) + tmp(2);", "        tmp(0) = s(0) + vx;"), (R, "        tmp(1) = s(1) + tmp(3);", "        tmp(1) = vy + s(1);")][1:]),
    ("q-x01-inside", "X01", [(R, "    return 0 <= x && x < static_cast<int>(width) && 0 <= y &&\n           y < static_cast<int>(height);", "    if (x < 0 || y < 0) return false;\n    return static_cast<unsigned int>(x) < width &&\n           static_cast<unsigned int>(y) < height;")]),
    ("q-x01-unsig", "X01", [(R, "    return 0 <= x && x < static_cast<int>(width) && 0 <= y &&\n           y < static_cast<int>(height);", "    return static_cast<unsigned int>(x) < width &&\n           static_cast<unsigned int>(y) < height;")]),
    ("q-x01-open", "X01", [(R, "    return getIsInside(x, y) && open[width * y + x];", "    if (!getIsInside(x, y)) return false;\n    int idx = width * y + x;\n    return open[idx];")]),
    ("q-x01-index", "X01", [(R, "  bool getIsOpen(int x, int y) const {", "  int cell(int x, int y) const { return width * y + x; }\n  bool getIsOpen(int x, int y) const {"), (R, "open[width * y + x]", "open[cell(x, y)]"), (R, "finish[width * y + x]", "finish[cell(x, y)]")]),
    ("q-x01-enum", "X01", [(R, "  RT_FINISH = 1,\n  RT_CRASH = 2,", "  RT_CRASH = 1,\n  RT_FINISH = 2,")]),
    ("q-x01-plot", "X01", [(R, "    if (getIsFinish(tx, ty)) return RT_FINISH; \\\n    if (!getIsOpen(tx, ty)) return RT_CRASH;   \\", "    int pt = plotType(tx, ty);                 \\\n    if (pt != RT_NORMAL) return pt;            \\"), (R, "int TrackMap::lineType(int x0", "int TrackMap::plotType(int x, int y) const {\n  if (getIsFinish(x, y)) return RT_FINISH;\n  if (!getIsOpen(x, y)) return RT_CRASH;\n  return RT_NORMAL;\n}\n\nint TrackMap::lineType(int x0"), (R, "  int lineType(int x0", "  int plotType(int x, int y) const;\n  int lineType(int x0")]),
    ("q-x01-ternary", "X01", [(R, "      cost = 0;\n  } else {\n    // uniform", "      cost = 0;\n  } else {\n    // uniform"), (R, "  // reward = -cost\n  return -cost;", "  double r = cost;\n  r *= -1;\n  return r;")][1:]),
    ("q-x01-acc", "X01", [(R, "#define RT_CHECK_OUTCOME(WHICH_OUTCOME, AX, AY)                  \\\n", "    auto check = [&](int w, int ax0, int ay0) {\n      int t = tmap->lineType(oldX, oldY, oldVX + ax0, oldVY + ay0);\n      if (RT_NORMAL != t) {\n        result(t) += result(w);\n        result(w) = 0;\n      }\n    };\n#define RT_CHECK_OUTCOME(WHICH_OUTCOME, AX, AY) check(WHICH_OUTCOME, AX, AY)\n#define RT_OLD(WHICH_OUTCOME, AX, AY)                  \\\n"), (R, "    int lineType, o;", "    int o;")]),
    ("q-x01-prob", "X01", [(R, "if (!(0 <= errorProbability && errorProbability <= 1)) {", "if (errorProbability < 0 || errorProbability > 1.0) {")]),
    ("q-x01-prob2", "X01", [(R, "  errorProbability = atof(plist.getValue(\"errorProbability\").c_str());\n  if (!(0 <= errorProbability && errorProbability <= 1)) {", "  double ep = atof(plist.getValue(\"errorProbability\").c_str());\n  bool fine = 0 <= ep && ep <= 1;\n  errorProbability = ep;\n  if (!fine) {")]),
]
