B = "pomdpBounds/MaxPlanesLowerBound.cc"
S = "search/StateLog.cc"
R = "search/RTDPCore.cc"
U = "search/ScriptedUpdater.cc"
M = [
    ("b-i04-key", "I04", [(B, '"action => %d"', '"action = %d"')]),
    ("b-i04-keyw", "I04", [(B, 'out << "      action => " << action', 'out << "      label => " << action')]),
    ("b-i04-type", "I04", [(B, 'policyType => \\"MaxPlanesLowerBound\\",', 'policyType => \\"MaxPlanes\\",')]),
    ("b-i04-count", "I04", [(B, 'out << "      numEntries => " << mask.filled()', 'out << "      count => " << mask.filled()')]),
    ("b-i04-swap", "I04", [(B, 'plane.alpha.push_back(entryIndex, entryVal);', 'plane.alpha.push_back((int) entryVal, entryIndex);')]),
    ("b-i04-swapw", "I04", [(B, 'out << "        " << i << ", " << alpha(i) << "";', 'out << "        " << alpha(i) << ", " << i << "";')]),
    ("b-i04-float", "I04", [(B, '"%d, %lf", &entryIndex', '"%d, %f", &entryIndex')]),
    ("b-i04-base", "I04", [(B, 'out << "        " << i << ", " << alpha(i) << "";', 'out << "        " << (i + 1) << ", " << alpha(i) << "";')]),
    ("b-i04-sep", "I04", [(B, 'out << "        " << i << ", " << alpha(i) << "";', 'out << "        " << i << " " << alpha(i) << "";')]),
    ("b-i04-last", "I04", [(B, "  /* reached EOF, finish up the last plane */\n  if (2 == parseState) {", "  /* reached EOF, finish up the last plane */\n  if (1 == parseState) {")]),
    ("b-i04-mask", "I04", [(B, "          mask_set_to_one(plane.mask, plane.alpha);\n", "")]),
    ("b-i04-mask2", "I04", [(B, "  if (2 == parseState) {\n    mask_set_to_one(plane.mask, plane.alpha);\n", "  if (2 == parseState) {\n")]),
    ("b-i04-clear", "I04", [(B, "          plane.alpha.resize(pomdp->numStates);\n", ""), (B, "  LBPlane plane;\n", "  LBPlane plane;\n  plane.alpha.resize(pomdp->numStates);\n")]),
    ("b-i04-noadd", "I04", [(B, "          addLBPlane(new LBPlane(plane));\n          parseState = 1;", "          if (planes.size() > 0 || !useMaxPlanesMasking) addLBPlane(new LBPlane(plane));\n          parseState = 1;")]),
    ("b-i04-again", "I04", [(B, "          parseState = 1;\n          goto parseLineAgain;", "          parseState = 1;")]),
    ("b-i04-last1", "I04", [(B, "  if (planes.size() > 0) {\n    (*pi)->write(out, useMaxPlanesMasking);\n  }\n", "")]),
    ("b-i04-pi", "I04", [(B, '    out << "," << endl;\n    pi++;\n', '    out << "," << endl;\n')]),
    ("b-i04-short", "I04", [(B, "FOR(i, n - 1) { out", "FOR(i, n - 2) { out")]),
    ("b-i04-lastw", "I04", [(B, 'out << "        " << (n - 1) << ", " << alpha(n - 1) << endl;', 'out << "        " << n << ", " << alpha(n - 1) << endl;')]),
    ("b-i04-lastv", "I04", [(B, 'out << "        " << (n - 1) << ", " << alpha(n - 1) << endl;', 'out << "        " << (n - 1) << ", " << alpha(0) << endl;')]),
    ("b-i04-init", "I04", [(B, "  lastPruneNumBackups = -1;\n\n  initialized = true;", "  lastPruneNumBackups = -1;\n")]),
    ("b-i04-entrieskey", "I04", [(B, 'if (string::npos != s.find("numPlanes")) continue;\n    if (string::npos != s.find("planes")) continue;', 'if (string::npos != s.find("numPlanes")) continue;')]),
    ("b-i04-comment", "I04", [(B, 'out << "# This file is a POMDP policy', 'out << "This file is a POMDP policy')]),
    ("b-i04-brace", "I04", [(B, '    if (s == "}" || s == "},") continue;', '    if (s == "}") continue;')]),
    ("b-i04-skip", "I04", [(B, "    if ('#' == s[0]) continue;\n", "    if ('#' == s[0] || '0' == s[0]) continue;\n")]),
    ("b-i04-neg", "I04", [(B, "plane.action >= 0 && plane.action <", "plane.action > 0 && plane.action <")]),
    ("b-i04-actwhole", "I04", [(B, 'out << "      action => " << action << "," << endl;', 'out << "      action => " << numBackupsAtCreation << "," << endl;')]),
    ("b-i05-sep", "I05", [(S, 'out << CV_INDEX(v) << " " << setprecision(20)', 'out << CV_INDEX(v) << ", " << setprecision(20)')]),
    ("b-i05-swap", "I05", [(S, 'out << CV_INDEX(v) << " " << setprecision(20) << CV_VAL(v) << endl;', 'out << setprecision(20) << CV_VAL(v) << " " << CV_INDEX(v) << endl;')]),
    ("b-i05-prec", "I05", [(S, 'out << CV_INDEX(v) << " " << setprecision(20) << CV_VAL(v)', 'out << CV_INDEX(v) << " " << CV_VAL(v)')]),
    ("b-i05-prec2", "I05", [(S, 'out << CV_INDEX(v) << " " << setprecision(20) << CV_VAL(v)', 'out << CV_INDEX(v) << " " << setprecision(10) << CV_VAL(v)')]),
    ("b-i05-fold", "I05", [(S, "  // fold in last state\n  if (accum.filled() > 0) {\n    accum.canonicalize();\n    getStateId(accum);\n    accum.clear();\n  }\n", "")]),
    ("b-i05-noclear", "I05", [(S, "        getStateId(accum);\n        accum.clear();\n", "        getStateId(accum);\n")]),
    ("b-i05-clearfirst", "I05", [(S, "        accum.canonicalize();\n        getStateId(accum);\n        accum.clear();\n", "        accum.canonicalize();\n        accum.clear();\n        getStateId(accum);\n")]),
    ("b-i05-one", "I05", [(S, "      if (accum.filled() > 0) {", "      if (accum.filled() > 1) {")]),
    ("b-i05-key", "I05", [(S, 'out << "state " << i << endl;', 'out << "s" << i << endl;')]),
    ("b-i05-base", "I05", [(S, 'out << "state " << i << endl;', 'out << "state " << (i + 1) << endl;')]),
    ("b-i05-float", "I05", [(S, '"%d %lf", &id, &val', '"%d %f", &id, &val')]),
    ("b-i05-wrongst", "I05", [(S, "const state_vector &v = *entries[i];", "const state_vector &v = *entries[entries.size() - 1 - i];")]),
    ("b-i05-log", "I05", [(S, 'FOR_EACH(e, entries) { out << (*e) << endl; }', 'FOR_EACH(e, entries) { out << "b" << (*e) << endl; }')]),
    ("b-i05-logline", "I05", [(S, 'FOR_EACH(e, entries) { out << (*e) << endl; }', 'FOR_EACH(e, entries) { out << (*e) << " "; }')]),
    ("b-i05-logbase", "I05", [(S, 'FOR_EACH(e, entries) { out << (*e) << endl; }', 'FOR_EACH(e, entries) { out << (*e + 1) << endl; }')]),
    ("b-i05-logidx", "I05", [(S, 'FOR_EACH(e, entries) { out << (*e) << endl; }', 'FOR(i, entries.size()) { out << i << endl; }')]),
    ("b-i05-logskip", "I05", [(S, "    entries.push_back(id);\n", "    if (id > 0) entries.push_back(id);\n")]),
    ("b-i05-logrej", "I05", [(S, '1 != sscanf(s.c_str(), "%d", &id) || id < 0 ||', '1 != sscanf(s.c_str(), "%d", &id) || id <= 0 ||')]),
    ("b-i05-tabswap", "I05", [(S, 'out << i << " " << setprecision(20) << intv.l << " " << setprecision(20)\n        << intv.u << endl;', 'out << i << " " << setprecision(20) << intv.u << " " << setprecision(20)\n        << intv.l << endl;')]),
    ("b-i05-tabcol", "I05", [(S, 'out << i << " " << a << " " << setprecision(20) << intv.l', 'out << a << " " << i << " " << setprecision(20) << intv.l')]),
    ("b-i05-tabone", "I05", [(S, 'out << i << " " << setprecision(20) << intv.l << " " << setprecision(20)\n        << intv.u << endl;', 'out << i << " " << setprecision(20) << intv.l << endl;')]),
    ("b-i05-tabact", "I05", [(S, "bounds.getQValue(s, a)", "bounds.getQValue(s, 0)")]),
    ("b-i05-tabst", "I05", [(S, "bounds.getValueAt(*entries[i])", "bounds.getValueAt(*entries[0])")]),
    ("b-i05-tabactn", "I05", [(S, "FOR(a, numActions) {\n      ValueInterval", "for (int a = 0; a < numActions - 1; a++) {\n      ValueInterval")]),
    ("b-i05-id", "I05", [(S, "int id = entries.size() - 1;", "int id = entries.size();")]),
    ("b-i05-id2", "I05", [(S, "    entries.push_back(sCopyP);\n    int id = entries.size() - 1;\n", "    int id = entries.size() - 1;\n    entries.push_back(sCopyP);\n")]),
    ("b-i05-noindex", "I05", [(R, "  index.writeToFile(stateIndexOutputFile);\n", "  if (log.size() == 0) index.writeToFile(stateIndexOutputFile);\n")]),
    ("b-i05-readord", "I05", [(U, "  stateIndex->readFromFile(stateIndexInputFile);\n\n", ""), (U, "  backupsLog->readFromFile(backupsInputFile);\n", "  backupsLog->readFromFile(backupsInputFile);\n  stateIndex->readFromFile(stateIndexInputFile);\n")]),
]
L = "pomdpModels/lifeSurvey/LSModelFile.cc"
M += [
    ("b-i06-look", "I06", [(L, '  fprintf(outFile, "lookaheadCost %lf\\n", lookaheadCost);\n', '')]),
    ("b-i06-swap", "I06", [(L, 'startX = atoi(getVal(params, "startX").c_str());\n  startY = atoi(getVal(params, "startY").c_str());', 'startX = atoi(getVal(params, "startY").c_str());\n  startY = atoi(getVal(params, "startX").c_str());')]),
    ("b-i06-swapw", "I06", [(L, 'writeDoubleVectorToFile(outFile, "obsDistributionLifeAbsent",\n                          obsDistributionLifeAbsent);', 'writeDoubleVectorToFile(outFile, "obsDistributionLifeAbsent",\n                          obsDistributionLifePresent);')]),
    ("b-i06-int", "I06", [(L, 'baseCost = atof(', 'baseCost = atoi(')]),
    ("b-i06-key", "I06", [(L, '"baseCost %lf\\n"', '"cost %lf\\n"')]),
    ("b-i06-eq", "I06", [(L, '"baseCost %lf\\n"', '"baseCost = %lf\\n"')]),
    ("b-i06-comma", "I06", [(L, 'fprintf(outFile, "%lf ", *dp);', 'fprintf(outFile, "%lf,", *dp);')]),
    ("b-i06-char", "I06", [(L, "outCell = cell + 97;", "outCell = cell + 65;")]),
    ("b-i06-charr", "I06", [(L, "cell = c - 97;", "cell = c - 96;")]),
    ("b-i06-sep", "I06", [(L, '  fprintf(outFile, "---\\n");\n', '  fprintf(outFile, "===\\n");\n')]),
    ("b-i06-coords", "I06", [(L, "  grid.writeToFile(outFile);", "  grid.writeToFile(outFile, true);")]),
    ("b-i06-rows", "I06", [(L, "    int y = rows.size() - y0 - 1;\n    FOR(x0, rows[y0].size()) {", "    int y = y0;\n    FOR(x0, rows[y0].size()) {")]),
    ("b-i06-col", "I06", [(L, "      int x = (y + 1) / 2 + x0;", "      int x = y / 2 + x0;")]),
    ("b-i06-parity", "I06", [(L, "parseRow(rows[y0].c_str(), y % 2, fname", "parseRow(rows[y0].c_str(), y0 % 2, fname")]),
    ("b-i06-blank", "I06", [(L, "      if (LS_OBSTACLE == cell) {\n        outCell = ' ';", "      if (0 == cell) {\n        outCell = ' ';")]),
]
