PE, TD, SL, MP, ZC = "exec/PolicyEvaluator.cc", "main/TestDriver.cc", "search/StateLog.cc", "pomdpBounds/MaxPlanesLowerBound.cc", "common/zmdpConfig.cc"
FP, MD, RT, LF, PERR = "parsers/FastParser.cc", "parsers/mdp.c", "mdps/RaceTrack.cc", "pomdpModels/lifeSurvey/LSModelFile.cc", "parsers/parse_err.c"
M = [
    ("q-io-open-isopen", "", [(MP, "  ifstream inFile(inFileName.c_str());\n  if (!inFile) {\n    cerr << \"ERROR: couldn't open \" << inFileName\n         << \" for reading: \" << strerror(errno) << endl;\n    exit(EXIT_FAILURE);\n  }\n\n  char buf[1024];\n  std::string s;\n  LBPlane plane;", "  ifstream inFile;\n  inFile.open(inFileName.c_str());\n  const bool opened = inFile.is_open();\n  if (!opened) {\n    cerr << \"ERROR: couldn't open \" << inFileName\n         << \" for reading: \" << strerror(errno) << endl;\n    exit(EXIT_FAILURE);\n  }\n\n  char buf[1024];\n  std::string s;\n  LBPlane plane;")]),
    ("q-io-open-helper", "", [(FP, "void FastParser::readModelFromFile(CassandraModel &problem, bool expectPomdp) {", "static void requireOpen(std::ifstream &in, const std::string &n) {\n  if (in.fail()) {\n    cerr << \"ERROR: couldn't open \" << n << \" for reading: \" << strerror(errno) << endl;\n    exit(EXIT_FAILURE);\n  }\n}\n\nvoid FastParser::readModelFromFile(CassandraModel &problem, bool expectPomdp) {"),
        (FP, "  if (!in) {\n    cerr << \"ERROR: couldn't open \" << problem.fileName\n         << \" for reading: \" << strerror(errno) << endl;\n    exit(EXIT_FAILURE);\n  }\n", "  requireOpen(in, problem.fileName);\n")]),
    ("q-io-write-helper", "", [(MP, "void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {", "static void finishFile(std::ofstream &o, const std::string &n) {\n  o.close();\n  if (o.fail()) {\n    cerr << \"ERROR: couldn't write \" << n << endl;\n    exit(EXIT_FAILURE);\n  }\n}\n\nvoid MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {", ),
        (MP, "  out.close();\n  if (!out) {\n    cerr << \"ERROR: couldn't write \" << outFileName << \": \" << strerror(errno)\n         << endl;\n    exit(EXIT_FAILURE);\n  }\n", "  finishFile(out, outFileName);\n"),
        (MP, "void MaxPlanesLowerBound::writeToFile(", "static void finishFile(std::ofstream &o, const std::string &n);\n\nvoid MaxPlanesLowerBound::writeToFile(")]),
    ("q-m07-loopform", "", [(ZC, "  while (in.getline(buf, sizeof(buf))) {\n    lnum++;", "  for (;;) {\n    if (!in.getline(buf, sizeof(buf))) break;\n    lnum++;")]),
    ("q-m07-race-loop", "", [(RT, "  while (NULL != fgets(lbuf, sizeof(lbuf), inFile)) {\n    lnum++;", "  char *got;\n  while ((got = fgets(lbuf, sizeof(lbuf), inFile)) != NULL) {\n    lnum++;")]),
    ("q-m07-ls-cut", "", [(LF, "  size_t n = strlen(s);\n  if (n > 0 && '\\n' == s[n - 1]) s[n - 1] = '\\0';", "  if (*s != '\\0' && s[strlen(s) - 1] == '\\n') s[strlen(s) - 1] = '\\0';")]),
    ("q-m08-named", "", [(ZC, "  char buf[1024], field[1024], val[1024];", "  const int bufSize = 1024;\n  char buf[bufSize], field[1024], val[1024];"), (ZC, "in.getline(buf, sizeof(buf))", "in.getline(buf, bufSize)")]),
    ("q-m08-assert", "", [(RT, "    assert(i + width < sizeof(data));\n", "    if (!(i + width < sizeof(data))) {\n      fprintf(stderr, \"ERROR: %s: map too large\\n\", mapFileName.c_str());\n      exit(EXIT_FAILURE);\n    }\n")]),
    ("q-m06-helper", "", [(LF, "void LSModelFile::readFromFile(", "static void die(const char *what, const char *f) {\n  fprintf(stderr, \"ERROR: %s: %s\\n\", f, what);\n  exit(EXIT_FAILURE);\n}\n\nvoid LSModelFile::readFromFile("), (LF, "  fprintf(stderr, \"ERROR: %s: reached EOF while still parsing preamble\\n\",\n          fname.c_str());\n  exit(EXIT_FAILURE);", "  die(\"reached EOF while still parsing preamble\", fname.c_str());")]),
    ("q-m06-err", "", [(PERR, "  if (errorid >= NBR_ERRORS) {\n    printf(OUT_OF_RANGE_MSSG, errorid);\n    return;\n  }\n", "  if (!(errorid < NBR_ERRORS)) {\n    printf(OUT_OF_RANGE_MSSG, errorid);\n    return;\n  }\n")]),
]
