SU, ZM, ZC, TD = "main/solverUtils.cc", "main/zmdp.cc", "common/zmdpConfig.cc", "main/TestDriver.cc"
MP, PE, RC, PO = "pomdpBounds/MaxPlanesLowerBound.cc", "exec/PolicyEvaluator.cc", "search/RTDPCore.cc", "pomdpCore/Pomdp.cc"
PERR, PH, PY, PL = "parsers/parse_err.c", "parsers/parse_err.h", "parsers/pomdp_spec.y", "parsers/pomdp_spec.l"
M = [
    ("q-c01-set", "", [(ZC, "  if (noNewFieldsAllowed) {\n    if (!defined(field)) {", "  const bool unknown = cmap.end() == cmap.find(field);\n  if (noNewFieldsAllowed) {\n    if (unknown) {")]),
    ("q-c01-set2", "", [(ZC, "  cmap[field] = val;", "  std::string &slot = cmap[field];\n  slot = val;")]),
    ("q-c01-helper", "", [(ZC, "void ZMDPConfig::setString(", "static void unknownField(const std::string &f) {\n  fprintf(stderr, \"ERROR: unknown config field '%s' was specified\\n\", f.c_str());\n  exit(EXIT_FAILURE);\n}\n\nvoid ZMDPConfig::setString("), (ZC, "      fprintf(stderr, \"ERROR: unknown config field '%s' was specified\\n\",\n              field.c_str());\n      exit(EXIT_FAILURE);\n", "      unknownField(field);\n")]),
    ("q-c02-const", "", [(MP, 'config->getBool("useMaxPlanesCache")', 'config->getBool(std::string("useMaxPlanesCache"))')]),
    ("q-c02-key", "", [(RC, '  terminateNumBackups = config->getInt("terminateNumBackups");', '  const char *key = "terminateNumBackups";\n  const int given = config->getInt(key);\n  terminateNumBackups = given;')]),
    ("q-c03-loop", "", [(SU, "  EnumEntry *i;\n  for (i = table; NULL != i->key; i++) {\n    if (key == i->key) {\n      return i->val;\n    }\n  }\n", "  EnumEntry *i = table;\n  while (i->key != NULL) {\n    if (0 == key.compare(i->key)) return i->val;\n    ++i;\n  }\n")]),
    ("q-c03-ends", "", [(SU, "  if (s.size() < suffix.size()) return false;\n  return (s.substr(s.size() - suffix.size()) == suffix);", "  return s.size() >= suffix.size() &&\n         0 == s.compare(s.size() - suffix.size(), suffix.size(), suffix);")]),
    ("q-c03-if", "", [(SU, "  switch (p.modelType) {\n    case T_POMDP:\n      obj.problem = new Pomdp(p.probName, &config);\n      break;\n    case T_MDP:\n      obj.problem = new GenericDiscreteMDP(p.probName, &config);\n      break;\n    case T_RACETRACK:\n      obj.problem = new RaceTrack(p.probName);\n      break;\n    case T_CUSTOM:\n      obj.problem = new CustomMDP(config);\n      break;\n    default:\n      assert(0);  // never reach this point\n  }\n", "  if (p.modelType == T_POMDP) {\n    obj.problem = new Pomdp(p.probName, &config);\n  } else if (p.modelType == T_MDP) {\n    obj.problem = new GenericDiscreteMDP(p.probName, &config);\n  } else if (p.modelType == T_RACETRACK) {\n    obj.problem = new RaceTrack(p.probName);\n  } else if (p.modelType == T_CUSTOM) {\n    obj.problem = new CustomMDP(config);\n  } else {\n    assert(0);\n  }\n")]),
    ("q-c03-helper", "", [(SU, "void constructSolverObjects(SolverObjects &obj,", "static MDP *makeModel(SolverParams &p, const ZMDPConfig &config) {\n  switch (p.modelType) {\n    case T_POMDP:\n      return new Pomdp(p.probName, &config);\n    case T_MDP:\n      return new GenericDiscreteMDP(p.probName, &config);\n    case T_RACETRACK:\n      return new RaceTrack(p.probName);\n    case T_CUSTOM:\n      return new CustomMDP(config);\n  }\n  assert(0);\n  return NULL;\n}\n\nvoid constructSolverObjects(SolverObjects &obj,"), (SU, "  switch (p.modelType) {\n    case T_POMDP:\n      obj.problem = new Pomdp(p.probName, &config);\n      break;\n    case T_MDP:\n      obj.problem = new GenericDiscreteMDP(p.probName, &config);\n      break;\n    case T_RACETRACK:\n      obj.problem = new RaceTrack(p.probName);\n      break;\n    case T_CUSTOM:\n      obj.problem = new CustomMDP(config);\n      break;\n    default:\n      assert(0);  // never reach this point\n  }\n", "  obj.problem = makeModel(p, config);\n")]),
    ("q-c04-merge", "", [(SU, "  if (V_MAXPLANES == lowerBoundRepresentation && T_POMDP != modelType) {", "  const bool isPomdp = (T_POMDP == modelType);\n  if (!isPomdp && lowerBoundRepresentation == V_MAXPLANES) {")]),
    ("q-c05-wall", "", [(SU, "  if (terminateWallclockSeconds <= 0.0) {\n    terminateWallclockSeconds = 99e+20;\n  }", "  if (!(terminateWallclockSeconds > 0)) terminateWallclockSeconds = 1e30;")]),
    ("q-c05-backups", "", [(RC, "  if (terminateNumBackups <= 0) {\n    terminateNumBackups = INT_MAX;\n  }", "  terminateNumBackups = (terminateNumBackups > 0) ? terminateNumBackups : INT_MAX;")]),
    ("q-c05-value", "", [(TD, "    if (so.bounds->maintainLowerBound && terminateLowerBoundValue != -999) {\n      if (root->lbVal >= terminateLowerBoundValue) {\n        solverFinished = true;\n      }\n    }", "    const bool useLB = (terminateLowerBoundValue != -999);\n    if (useLB && so.bounds->maintainLowerBound) {\n      if (!(root->lbVal < terminateLowerBoundValue)) solverFinished = true;\n    }")]),
    ("q-m10-loop", "", [(PL, "        return( reserved_token[ i ] );\n", "        { int tok = reserved_token[ i ]; return tok; }\n")]),
    ("q-m10-enter", "", [(PERR, "  if (errorid >= NBR_ERRORS) {", "  if (errorid > NBR_ERRORS - 1 || errorid < 0) {")]),
]
