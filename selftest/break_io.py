PE, TD, SL, MP, ZC = "exec/PolicyEvaluator.cc", "main/TestDriver.cc", "search/StateLog.cc", "pomdpBounds/MaxPlanesLowerBound.cc", "common/zmdpConfig.cc"
FP, MD, RT, LF, PERR = "parsers/FastParser.cc", "parsers/mdp.c", "mdps/RaceTrack.cc", "pomdpModels/lifeSurvey/LSModelFile.cc", "parsers/parse_err.c"
M = [
    ("io-open-pe-ptr", "I01", [(PE, "  if (!(*simOutFile)) {\n    fprintf(stderr, \"ERROR: couldn't open %s for writing", "  if (!simOutFile) {\n    fprintf(stderr, \"ERROR: couldn't open %s for writing")]),
    ("io-open-fast-noexit", "I01", [(FP, "         << \" for reading: \" << strerror(errno) << endl;\n    exit(EXIT_FAILURE);", "         << \" for reading: \" << strerror(errno) << endl;")]),
    ("io-open-log-noexit", "I01", [(SL, "  std::ifstream in(inFile.c_str());\n  if (!in) {", "  std::ifstream in(inFile.c_str());\n  if (in.bad()) {", 0)]),
    ("io-open-race-success", "I01", [(RT, "  inFile = fopen(fname.c_str(), \"r\");\n  if (NULL == inFile) {", "  inFile = fopen(fname.c_str(), \"r\");\n  if (NULL == inFile && errno != ENOENT) {")]),
    ("io-open-mdp-return", "I01", [(MD, "  if ((file = fopen(filename, \"r\")) == NULL) {", "  if ((file = fopen(filename, \"r\")) == NULL && filename[0] != '/') {")]),
    ("io-open-policy-eof", "I01", [(MP, "  ifstream inFile(inFileName.c_str());\n  if (!inFile) {\n    cerr << \"ERROR: couldn't open \" << inFileName\n         << \" for reading: \" << strerror(errno) << endl;\n    exit(EXIT_FAILURE);\n  }\n\n  char buf[1024];\n  std::string s;\n  LBPlane plane;", "  ifstream inFile(inFileName.c_str());\n  if (inFile.eof()) {\n    cerr << \"ERROR: couldn't open \" << inFileName\n         << \" for reading: \" << strerror(errno) << endl;\n    exit(EXIT_FAILURE);\n  }\n\n  char buf[1024];\n  std::string s;\n  LBPlane plane;")]),
    ("io-open-config-status", "I01 M06", [(ZC, "  ifstream in(fname.c_str());\n  if (!in) {", "  ifstream in(fname.c_str());\n  if (!in && getBool(\"x\")) {")]),
    ("io-write-policy", "I02", [(MP, "  out.close();\n  if (!out) {", "  if (!out) {")]),
    ("io-write-policy-warn", "I02 M06", [(MP, "  out.close();\n  if (!out) {\n    cerr << \"ERROR: couldn't write \" << outFileName << \": \" << strerror(errno)\n         << endl;\n    exit(EXIT_FAILURE);", "  out.close();\n  if (!out) {\n    cerr << \"ERROR: couldn't write \" << outFileName << \": \" << strerror(errno)\n         << endl;")]),
    ("io-write-sim", "I02", [(PE, "  simOutFile->close();\n  if (!(*simOutFile)) {", "  if (!(*simOutFile)) {")]),
    ("m06-fast-exit0", "M06", [(FP, "         << \": syntax error in 'discount' statement\" << endl;\n          exit(EXIT_FAILURE);", "         << \": syntax error in 'discount' statement\" << endl;\n          exit(EXIT_SUCCESS);", 0), (FP, "               << \": syntax error in 'discount' statement\" << endl;\n          exit(EXIT_FAILURE);", "               << \": syntax error in 'discount' statement\" << endl;\n          exit(EXIT_SUCCESS);")]),
    ("m06-ls-noexit", "M06", [(LF, "            \"ERROR: %s: obsDistributionLife{Absent,Present} vectors must have \"\n            \"%d entries each\\n\",\n            fname.c_str(), LS_BASE_NUM_OBSERVATIONS);\n    exit(EXIT_FAILURE);", "            \"ERROR: %s: obsDistributionLife{Absent,Present} vectors must have \"\n            \"%d entries each\\n\",\n            fname.c_str(), LS_BASE_NUM_OBSERVATIONS);")]),
    ("m06-list-unlinked", "M06", [(PERR, "  trailPtr->nextError = newNode;", "  if (tempPtr != NULL) trailPtr->nextError = newNode;")]),
    ("m07-cfg-notfail", "M07", [(ZC, "  while (in.getline(buf, sizeof(buf))) {", "  while (!in.eof()) {\n    in.getline(buf, sizeof(buf));")]),
    ("m07-state-good", "M07", [(SL, "  while (in.getline(buf, sizeof(buf))) {\n    lnum++;\n\n    // strip whitespace, ignore empty lines and comments\n    s = stripWhiteSpace(buf);\n    if (0 == s.size()) continue;\n    if ('#' == s[0]) continue;\n\n    if (string::npos != s.find(\"state\")) {", "  while (in.getline(buf, sizeof(buf)).good()) {\n    lnum++;\n\n    // strip whitespace, ignore empty lines and comments\n    s = stripWhiteSpace(buf);\n    if (0 == s.size()) continue;\n    if ('#' == s[0]) continue;\n\n    if (string::npos != s.find(\"state\")) {")]),
    ("m07-fast-nofail", "M07", [(FP, "    if (in.fail() && !in.eof()) {", "    if (in.bad()) {")]),
    ("m07-race-feof", "M07", [(RT, "  while (NULL != fgets(lbuf, sizeof(lbuf), inFile)) {", "  while (!feof(inFile)) {\n    fgets(lbuf, sizeof(lbuf), inFile);")]),
    ("m07-ls-cut", "M07", [(LF, "  if (n > 0 && '\\n' == s[n - 1]) s[n - 1] = '\\0';", "  if (n > 0) s[n - 1] = '\\0';")]),
    ("m08-fast-values", "M08", [(FP, "values: %511s", "values: %s")]),
    ("m08-fast-values2", "M08", [(FP, "values: %511s", "values: %512s")]),
    ("m08-getline", "M08", [(ZC, "in.getline(buf, sizeof(buf))", "in.getline(buf, 2 * sizeof(buf))")]),
    ("m08-race-room", "M08", [(RT, "    assert(i + width < sizeof(data));\n", "")]),
    ("m08-race-room2", "M08", [(RT, "    assert(i + width < sizeof(data));\n", "    assert(i < sizeof(data));\n")]),
    ("m08-cfg-copy", "M08", [(ZC, "      snprintf(field, sizeof(field), \"%s\", bufp);", "      snprintf(field, 2048, \"%s\", bufp);")]),
    ("m08-err-alloc", "M08", [(PERR, "(char *)calloc(strlen(source) + 1, sizeof(char));", "(char *)calloc(strlen(source), sizeof(char));")]),
    ("m08-ls-buf", "M08", [(LF, "fgets(lbuf, sizeof(lbuf), modelFile)) {\n    lnum++;\n    if (strlen(lbuf) <= 1) continue;", "fgets(lbuf, 65536, modelFile)) {\n    lnum++;\n    if (strlen(lbuf) <= 1) continue;")]),
]
M = [(a, b, [e[:3] for e in es if len(e) == 3 or e[3]]) for a, b, es in M]
M = [m for m in M if m[2]]
