R = "mdps/RaceTrack.cc"
M = [
    ("b-x01-mass", "X01", [(R, "result(WHICH_OUTCOME) = 0;                                   \\\n", "\\\n")]),
    ("b-x01-over", "X01", [(R, "result(lineType) += result(WHICH_OUTCOME);  ", "result(lineType) = result(WHICH_OUTCOME);   ")]),
    ("b-x01-seven", "X01", [(R, "FOR(i, 8) { result(RT_SLIP + i) = errorProbability / 8; }", "FOR(i, 7) { result(RT_SLIP + i) = errorProbability / 8; }")]),
    ("b-x01-div", "X01", [(R, "errorProbability / 8; }", "errorProbability / 9; }")]),
    ("b-x01-size", "X01", [(R, "result.resize(RT_MAX + 7);", "result.resize(RT_MAX + 6);")]),
    ("b-x01-normal", "X01", [(R, "    result(RT_NORMAL) = 1 - errorProbability;", "    result(RT_NORMAL) = 1;")]),
    ("b-x01-slip", "X01", [(R, "      RT_CHECK_OUTCOME(RT_SLIP, 0, 0);", "      RT_CHECK_OUTCOME(RT_SLIP, ax, ay);")]),
    ("b-x01-noslip", "X01", [(R, "      RT_CHECK_OUTCOME(RT_SLIP, 0, 0);\n", "")]),
    ("b-x01-day", "X01", [(R, "{0, 0, 0, -1, 0, 1, -1, 1, -1, 0, 1};", "{0, 0, 0, -1, 0, 1, -1, 1, -1, 1, 0};\nstatic int day0[] = {0, 0, 0, -1, 0, 1, -1, 1, -1, 0, 1};"), (R, "          ay += day[o];", "          ay += day0[o];")]),
    ("b-x01-dup", "X01", [(R, "{0, 0, 0, -1, 0, 1, -1, 1, -1, 0, 1};", "{0, 0, 0, -1, 0, 1, -1, 1, -1, 0, 0};")]),
    ("b-x01-short", "X01", [(R, "{0, 0, 0, -1, 0, 1, -1, 1, -1, 0, 1};", "{0, 0, 0, -1, 0, 1, -1, 1, -1, 0};")]),
    ("b-x01-accel", "X01", [(R, "        int ax = (a / 3) - 1;\n        int ay = (a % 3) - 1;", "        int ax = (a % 3) - 1;\n        int ay = (a / 3) - 1;")]),
    ("b-x01-mod", "X01", [(R, "    int ax = (a / 3) - 1;\n    int ay = (a % 3) - 1;", "    int ax = (a / 3) - 1;\n    int ay = (a % 4) - 1;"), (R, "        int ay = (a % 3) - 1;", "        int ay = (a % 4) - 1;")]),
    ("b-x01-pos", "X01", [(R, "        tmp(0) = s(0) + tmp(2);", "        tmp(0) = s(0) + s(2);")]),
    ("b-x01-swapv", "X01", [(R, "        tmp(3) = s(3) + ay;", "        tmp(3) = s(2) + ay;")]),
    ("b-x01-fin", "X01", [(R, "        result = terminalState;", "        result = bogusInitialState;")]),
    ("b-x01-line", "X01", [(R, "if (!getIsOpen(tx, ty)) return RT_CRASH;", "if (!getIsOpen(tx, ty)) return RT_FINISH;")]),
    ("b-x01-lineorder", "X01", [(R, "    if (getIsFinish(tx, ty)) return RT_FINISH; \\\n    if (!getIsOpen(tx, ty)) return RT_CRASH;   \\", "    if (!getIsOpen(tx, ty)) return RT_CRASH;   \\\n    if (getIsFinish(tx, ty)) return RT_FINISH; \\")]),
    ("b-x01-start", "X01", [(R, "    result.push_back(1, tmap->startY[o]);", "    result.push_back(1, tmap->startX[o]);")]),
    ("b-x01-nstart", "X01", [(R, "    int n = tmap->startX.size();\n    double p = 1.0 / n;", "    int n = tmap->startX.size();\n    double p = 1.0 / (n + 1);")]),
    ("b-x01-nstart2", "X01", [(R, "    for (int i = 0; i < n; i++) {\n      result(i) = p;", "    for (int i = 1; i < n; i++) {\n      result(i) = p;")]),
    ("b-x01-y", "X01", [(R, "0 <= x && x < static_cast<int>(width) && 0 <= y &&\n           y < static_cast<int>(height)", "0 <= x && x < static_cast<int>(width) &&\n           y < static_cast<int>(height)")]),
    ("b-x01-le", "X01", [(R, "y < static_cast<int>(height)", "y <= static_cast<int>(height)")]),
    ("b-x01-wh", "X01", [(R, "0 <= x && x < static_cast<int>(width) && 0 <= y &&\n           y < static_cast<int>(height)", "0 <= x && x < static_cast<int>(height) && 0 <= y &&\n           y < static_cast<int>(width)")]),
    ("b-x01-noin", "X01", [(R, "return getIsInside(x, y) && finish[width * y + x];", "return finish[width * y + x];")]),
    ("b-x01-term", "X01", [(R, "  terminalState.push_back(0, -2);", "  terminalState.push_back(0, -3);")]),
    ("b-x01-cost", "X01", [(R, "    // terminal state: model as self-transition with no cost\n    cost = 0;", "    // terminal state: model as self-transition with no cost\n    cost = 1;")]),
    ("b-x01-wind", "X01", [(R, "        RT_CHECK_OUTCOME(o, ax + dax[o], ay + day[o]);", "        RT_CHECK_OUTCOME(o, dax[o], day[o]);")]),
    ("b-x01-oldv", "X01", [(R, "    int oldVY = static_cast<int>(s(3));", "    int oldVY = static_cast<int>(s(2));")]),
    ("b-x01-shadow", "X01", [(R, "      FOR(i, 8) {\n        o = RT_SLIP + i;", "      FOR(i, 7) {\n        o = RT_SLIP + i;")]),
    ("b-x01-prob", "X01", [(R, "if (!(0 <= errorProbability && errorProbability <= 1)) {", "if (!(0 <= errorProbability)) {")]),
    ("b-x01-prob2", "X01", [(R, "if (!(0 <= errorProbability && errorProbability <= 1)) {", "if (errorProbability > 1) {")]),
]
