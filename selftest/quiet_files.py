B = "pomdpBounds/MaxPlanesLowerBound.cc"
S = "search/StateLog.cc"
R = "search/RTDPCore.cc"
U = "search/ScriptedUpdater.cc"
M = [
    ("q-i04-nl", "I04", [(B, 'out << "  numPlanes => " << planes.size() << "," << endl;', 'out << "  numPlanes => " << planes.size() << ",\\n";')]),
    ("q-i04-local", "I04", [(B, 'out << "        " << i << ", " << alpha(i) << "";', 'double v = alpha(i);\n      out << "        " << i;\n      out << ", " << v;')]),
    ("q-i04-range", "I04", [(B, "  PlaneSet::const_iterator pi = planes.begin();\n  FOR(i, planes.size() - 1) {\n    (*pi)->write(out, useMaxPlanesMasking);\n    out << \",\" << endl;\n    pi++;\n  }\n  if (planes.size() > 0) {\n    (*pi)->write(out, useMaxPlanesMasking);\n  }\n", "  bool first = true;\n  for (PlaneSet::const_iterator pi = planes.begin(); pi != planes.end(); ++pi) {\n    if (!first) {\n      out << \",\" << endl;\n    }\n    (*pi)->write(out, useMaxPlanesMasking);\n    first = false;\n  }\n")]),
    ("q-i04-if", "I04", [(B, '    if (s == "{") continue;\n    if (s == "}" || s == "},") continue;\n    if (s == "[") continue;\n    if (s == "]" || s == "],") continue;', '    if (s == "{" || s == "}" || s == "}," || s == "[" || s == "]" || s == "],") continue;')]),
    ("q-i04-ifelse", "I04", [(B, "    switch (parseState) {\n      case 0:", "    if (s.empty()) continue;\n    switch (parseState) {\n      case 0:")]),
    ("q-i04-helper", "I04", [(B, "void MaxPlanesLowerBound::readFromFile(", "static bool ignorable(const std::string &s) {\n  return s == \"{\" || s == \"}\" || s == \"},\" || s == \"[\" || s == \"]\" || s == \"],\";\n}\n\nvoid MaxPlanesLowerBound::readFromFile("), (B, '    if (s == "{") continue;\n    if (s == "}" || s == "},") continue;\n    if (s == "[") continue;\n    if (s == "]" || s == "],") continue;', '    if (ignorable(s)) continue;')]),
    ("q-i04-flag", "I04", [(B, "  int parseState = 0;\n", "  int parseState = 0;\n  bool atPlane = false;\n"), (B, "          parseState = 2;\n", "          parseState = 2;\n          atPlane = true;\n"), (B, "  if (2 == parseState) {\n", "  if (atPlane && 2 == parseState) {\n")]),
    ("q-i04-enum", "I04", [(B, "  int parseState = 0;\n", "  enum { HEAD = 0, ACTION = 1, ENTRIES = 2 };\n  int parseState = HEAD;\n"), (B, "  if (2 == parseState) {\n", "  if (parseState == ENTRIES) {\n")]),
    ("q-i04-nogoto", "I04", [(B, '          mask_set_to_one(plane.mask, plane.alpha);\n          addLBPlane(new LBPlane(plane));\n          parseState = 1;\n          goto parseLineAgain;\n', '          mask_set_to_one(plane.mask, plane.alpha);\n          addLBPlane(new LBPlane(plane));\n          if (1 == sscanf(s.c_str(), "action => %d", &plane.action) && plane.action >= 0 && plane.action < pomdp->numActions) {\n            plane.alpha.resize(pomdp->numStates);\n            break;\n          }\n          fprintf(stderr, "ERROR: %s: line %d: expected action\\n", inFileName.c_str(), lnum);\n          exit(EXIT_FAILURE);\n'), (B, "  parseLineAgain:\n", "")]),
    ("q-i04-finish", "I04", [(B, "void MaxPlanesLowerBound::readFromFile(", "static LBPlane *finishPlane(LBPlane &p) {\n  mask_set_to_one(p.mask, p.alpha);\n  return new LBPlane(p);\n}\n\nvoid MaxPlanesLowerBound::readFromFile("), (B, '          mask_set_to_one(plane.mask, plane.alpha);\n          addLBPlane(new LBPlane(plane));\n', '          addLBPlane(finishPlane(plane));\n'), (B, '    mask_set_to_one(plane.mask, plane.alpha);\n    addLBPlane(new LBPlane(plane));\n  }\n\n  inFile', '    addLBPlane(finishPlane(plane));\n  }\n\n  inFile')]),
    ("q-i04-all", "I04", [(B, '    int n = alpha.size();\n    FOR(i, n - 1) { out << "        " << i << ", " << alpha(i) << "," << endl; }\n    out << "        " << (n - 1) << ", " << alpha(n - 1) << endl;\n', '    int n = alpha.size();\n    FOR(i, n) {\n      out << "        " << i << ", " << alpha(i) << (i < n - 1 ? "," : "") << endl;\n    }\n')]),
    ("q-i04-le", "I04", [(B, "FOR(i, n - 1) { out", "for (int i = 0; i <= n - 2; i++) { out")]),
    ("q-i04-while", "I04", [(B, "  while (inFile.getline(buf, sizeof(buf))) {\n    lnum++;\n", "  for (;;) {\n    if (!inFile.getline(buf, sizeof(buf))) break;\n    lnum++;\n")]),
    ("q-i05-iter", "I05", [(S, "FOR_EACH(e, entries) { out << (*e) << endl; }", "FOR(i, entries.size()) { out << entries[i] << endl; }")]),
    ("q-i05-range", "I05", [(S, "FOR_EACH(e, entries) { out << (*e) << endl; }", "for (int e : entries) out << e << \"\\n\";")]),
    ("q-i05-prec", "I05", [(S, '  FOR(i, entries.size()) {\n    out << "state " << i << endl;', '  out << setprecision(20);\n  FOR(i, entries.size()) {\n    out << "state " << i << endl;'), (S, 'out << CV_INDEX(v) << " " << setprecision(20) << CV_VAL(v) << endl;', 'out << CV_INDEX(v) << " " << CV_VAL(v) << endl;')]),
    ("q-i05-prec2", "I05", [(S, '  FOR(i, entries.size()) {\n    out << "state " << i << endl;', '  out.precision(17);\n  FOR(i, entries.size()) {\n    out << "state " << i << endl;'), (S, 'out << CV_INDEX(v) << " " << setprecision(20) << CV_VAL(v) << endl;', 'out << CV_INDEX(v) << " " << CV_VAL(v) << endl;')]),
    ("q-i05-fold", "I05", [(S, "void StateIndex::readFromFile(", "static void foldIn(StateIndex &x, state_vector &accum) {\n  if (accum.filled() > 0) {\n    accum.canonicalize();\n    x.getStateId(accum);\n    accum.clear();\n  }\n}\n\nvoid StateIndex::readFromFile("), (S, "      if (accum.filled() > 0) {\n        accum.canonicalize();\n        getStateId(accum);\n        accum.clear();\n      }\n", "      foldIn(*this, accum);\n"), (S, "  if (accum.filled() > 0) {\n    accum.canonicalize();\n    getStateId(accum);\n    accum.clear();\n  }\n\n  if (zmdp", "  foldIn(*this, accum);\n\n  if (zmdp")]),
    ("q-i05-size", "I05", [(S, "      if (accum.filled() > 0) {", "      if (0 != accum.filled()) {")]),
    ("q-i05-first", "I05", [(S, "    entries.push_back(sCopyP);\n    int id = entries.size() - 1;\n", "    int id = entries.size();\n    entries.push_back(sCopyP);\n")]),
    ("q-i05-lu", "I05", [(S, 'out << i << " " << setprecision(20) << intv.l << " " << setprecision(20)\n        << intv.u << endl;', 'double lo = intv.l, hi = intv.u;\n    out << setprecision(20) << i << " " << lo << " " << hi << endl;')]),
    ("q-i05-compare", "I05", [(S, 'if (string::npos != s.find("state")) {', 'if (s.compare(0, 5, "state") == 0) {')]),
    ("q-i05-strncmp", "I05", [(S, 'if (string::npos != s.find("state")) {', 'if (0 == strncmp(s.c_str(), "state", 5)) {')]),
    ("q-i05-iss", "I05", [(S, '''      if (2 != sscanf(s.c_str(), "%d %lf", &id, &val) || id < 0 ||
          id >= numStateDimensions) {''', '''      std::istringstream is(s);
      if (!(is >> id >> val) || id < 0 || id >= numStateDimensions) {'''), (S, "#include \"MatrixUtils.h\"", "#include <sstream>\n#include \"MatrixUtils.h\"")]),
    ("q-i05-check2", "I05", [(S, '''    if (1 != sscanf(s.c_str(), "%d", &id) || id < 0 ||
        id >= static_cast<int>(index->entries.size())) {''', '''    bool good = (1 == sscanf(s.c_str(), "%d", &id));
    if (good) good = id >= 0 && id < static_cast<int>(index->entries.size());
    if (!good) {''')]),
    ("q-i05-bylog", "I05", [(S, "  entries.push_back(index->getStateId(s));", "  int id = index->getStateId(s);\n  entries.push_back(id);")]),
]
L = "pomdpModels/lifeSurvey/LSModelFile.cc"
M += [
    ("q-i06-local", "I06", [(L, 'startX = atoi(getVal(params, "startX").c_str());', 'std::string sx = getVal(params, "startX");\n  startX = atoi(sx.c_str());')]),
    ("q-i06-helper", "I06", [(L, "static std::string parseRow(", "static double getDouble(const ParamLookup &params, const char *name) {\n  return atof(getVal(params, name).c_str());\n}\n\nstatic std::string parseRow("), (L, 'baseCost = atof(getVal(params, "baseCost").c_str());', 'baseCost = getDouble(params, "baseCost");')]),
    ("q-i06-one", "I06", [(L, '  fprintf(outFile, "startX %d\\n", startX);\n  fprintf(outFile, "startY %d\\n", startY);\n', '  fprintf(outFile, "startX %d\\nstartY %d\\n", startX, startY);\n')]),
    ("q-i06-g", "I06", [(L, '"baseCost %lf\\n"', '"baseCost %.17g\\n"')]),
    ("q-i06-chr", "I06", [(L, "outCell = cell + 97;", "outCell = cell + 'a';"), (L, "cell = c - 97;", "cell = c - 'a';")]),
    ("q-i06-down", "I06", [(L, "  FOR(y0, height) {\n    y = height - y0 - 1;\n", "  for (y = static_cast<int>(height) - 1; y >= 0; y--) {\n")]),
    ("q-i06-loop", "I06", [(L, "  FOR(y0, rows.size()) {\n    int y = rows.size() - y0 - 1;\n    FOR(x0, rows[y0].size()) {", "  int h = rows.size();\n  for (int y0 = 0; y0 < h; y0++) {\n    const int y = h - 1 - y0;\n    FOR(x0, rows[y0].size()) {")]),
    ("q-i06-shift", "I06", [(L, "parseRow(rows[y0].c_str(), y % 2, fname", "parseRow(rows[y0].c_str(), y & 1, fname")]),
    ("q-i06-ord", "I06", [(L, '  fprintf(outFile, "startX %d\\n", startX);\n  fprintf(outFile, "startY %d\\n", startY);\n', '  fprintf(outFile, "startY %d\\n", startY);\n  fprintf(outFile, "startX %d\\n", startX);\n')]),
    ("q-i06-tern", "I06", [(L, "      if (LS_OBSTACLE == cell) {\n        outCell = ' ';\n      } else {\n        if (binaryMap", "      if (LS_OBSTACLE != cell) {\n        if (binaryMap"), (L, "          outCell = cell + 97;\n        }\n      }\n", "          outCell = cell + 97;\n        }\n      } else {\n        outCell = ' ';\n      }\n")]),
]
