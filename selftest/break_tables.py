SU, ZM, ZC, TD = "main/solverUtils.cc", "main/zmdp.cc", "common/zmdpConfig.cc", "main/TestDriver.cc"
MP, PE, RC, PO = "pomdpBounds/MaxPlanesLowerBound.cc", "exec/PolicyEvaluator.cc", "search/RTDPCore.cc", "pomdpCore/Pomdp.cc"
PERR, PH, PY, PL, GM = "parsers/parse_err.c", "parsers/parse_err.h", "parsers/pomdp_spec.y", "parsers/pomdp_spec.l", "mdps/GenericDiscreteMDP.cc"
BL, BE, CM = "pomdpBounds/BlindLBInitializer.cc", "exec/BoundPairExec.cc", "mdps/CustomMDP.cc"
M = [
    # C01
    ("c01-open-table", "C01", [(ZM, "config.setNoNewFieldsAllowed(true)", "config.setNoNewFieldsAllowed(false)")]),
    ("c01-set-skip", "C01", [(ZC, "      exit(EXIT_FAILURE);\n    }\n  }\n\n  cmap[field] = val;", "      return;\n    }\n  }\n\n  cmap[field] = val;")]),
    ("c01-set-keep", "C01", [(ZC, "  cmap[field] = val;", "  cmap.insert(std::make_pair(field, val));")]),
    ("c01-dash-value", "C01", [(ZC, "setString(arg.substr(2), *argp);", "setString(arg.substr(2), arg);")]),
    ("c01-alias-o", "C01", [("main/zmdp.config", "alias -o --policyOutputFile", "alias -o --policyOutFile")]),
    ("c01-alias-swap", "C01", [(ZC, "  aliases[field] = val;", "  aliases[val] = field;")]),
    # C02
    ("c02-name", "C02", [(MP, 'config->getBool("useMaxPlanesCache")', 'config->getBool("useMaxPlaneCache")')]),
    ("c02-other", "C02", [(MP, 'config->getBool("useMaxPlanesCache")', 'config->getBool("useMaxPlanesMasking")')]),
    ("c02-type", "C02", [(SU, "SU_GET_DOUBLE(terminateRegretBound)", "SU_GET_INT(terminateRegretBound)")]),
    ("c02-type2", "C02", [(SU, "SU_GET_DOUBLE(evaluationFirstEpochWallclockSeconds)", "SU_GET_INT(evaluationFirstEpochWallclockSeconds)")]),
    ("c02-default", "C02", [("main/zmdp.config", "customMDPNumStates 5", "customMDPStates 5")]),
    ("c02-swap-args", "C02", [(ZM, "      /* minOrder = */ p.evaluationFirstEpochWallclockSeconds,\n      /* maxOrder = */ p.terminateWallclockSeconds,\n      /* ticksPerOrder = */ p.evaluationEpochsPerMagnitude,", "      /* minOrder = */ p.evaluationEpochsPerMagnitude,\n      /* maxOrder = */ p.terminateWallclockSeconds,\n      /* ticksPerOrder = */ p.evaluationFirstEpochWallclockSeconds,")]),
    ("c02-lbub", "C02", [(TD, "      if (root->ubVal <= terminateUpperBoundValue) {", "      if (root->lbVal <= terminateUpperBoundValue) {")]),
    ("c02-regret", "C02", [(ZM, "/* maxTime = */ -1, p.terminateRegretBound);", "/* maxTime = */ -1, p.terminateWallclockSeconds);")]),
    ("c02-backups-unused", "C02", [(RC, "  done = done || (bounds->numBackups >= terminateNumBackups);", "  done = done || (bounds->numBackups >= INT_MAX);")]),
    # C03
    ("c03-strategy", "C03", [(SU, '{"lrtdp", S_LRTDP}', '{"lrtdp", S_RTDP}')]),
    ("c03-fallthrough", "C03", [(SU, "    case T_RACETRACK:\n      obj.problem = new RaceTrack(p.probName);\n      break;", "    case T_RACETRACK:\n      obj.problem = new RaceTrack(p.probName);")]),
    ("c03-getenum", "C03", [(SU, "  exit(EXIT_FAILURE);\n}\n\nbool endsWith(", "  return table->val;\n}\n\nbool endsWith(")]),
    ("c03-runtime", "C03", [(SU, '{"-", -1}, {"lower", 0}, {"upper", 1}, {NULL, -1}', '{"-", -1}, {"lower", 1}, {"upper", 0}, {NULL, -1}')]),
    ("c03-evalcache", "C03", [(PE, 'config->getBool("useEvaluationCache")', '!config->getBool("useEvaluationCache")')]),
    ("c03-blind", "C03", [("pomdpModels/lifeSurvey/LSPathAndReactExec.cc", '(config->getString("policyType") == "lsblind")', '(config->getString("policyType") != "lspath" && false)')]),
    ("c03-polfile", "C03", [(ZM, '        config.setString("policyOutputFile", "out.policy");', '        config.setString("policyOutputFile", "none");')]),
    # C04
    ("c04-sawtooth", "C04", [(SU, "  if (V_SAWTOOTH == upperBoundRepresentation && T_POMDP != modelType) {", "  if (V_SAWTOOTH == upperBoundRepresentation && T_MDP == modelType) {")]),
    ("c04-maxplanes", "C04", [(SU, "  if (V_MAXPLANES == lowerBoundRepresentation && T_POMDP != modelType) {", "  if (V_MAXPLANES == lowerBoundRepresentation && T_POMDP == modelType && V_POINT == lowerBoundRepresentation) {")]),
    ("c04-undisc", "C04", [(SU, "      p.maxHorizon <= 0) {", "      p.maxHorizon < 0) {")]),
    # C05
    ("c05-wall", "C05", [(SU, "  if (terminateWallclockSeconds <= 0.0) {", "  if (terminateWallclockSeconds < 0.0) {")]),
    ("c05-backups", "C05", [(RC, "  if (terminateNumBackups <= 0) {", "  if (terminateNumBackups == -1 && useLogBackups) {")]),
    ("c05-value", "C05", [(TD, "    if (so.bounds->maintainLowerBound && terminateLowerBoundValue != -999) {", "    if (so.bounds->maintainLowerBound && terminateLowerBoundValue != -9999) {")]),
    ("c05-steps", "C05", [(PE, "(j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial)", "(j < evaluationMaxStepsPerTrial) || (-1 == evaluationMaxStepsPerTrial)")]),
    ("c05-traces", "C05", [(PE, "    simulationTracesToLogPerEpoch = INT_MAX;", "    simulationTracesToLogPerEpoch = 0;")]),
    ("c05-horizon", "C05", [(BL, "  if (pomdp->maxHorizon != -1) {\n    longTermFactor =", "  if (pomdp->maxHorizon >= -1) {\n    longTermFactor =")]),
    # M10
    ("m10-text", "M10", [(PERR, "    ERROR_MSSG_25, ERROR_MSSG_26, ERROR_MSSG_27, ERROR_MSSG_28};", "    ERROR_MSSG_25, ERROR_MSSG_26, ERROR_MSSG_27};")]),
    ("m10-dup", "M10", [(PERR, "ERROR_MSSG_12, ERROR_MSSG_13,", "ERROR_MSSG_12, ERROR_MSSG_12,")]),
    ("m10-guard", "M10", [(PERR, "  if (errorid >= NBR_ERRORS) {", "  if (errorid >= NBR_ERRORS - 1) {")]),
    ("m10-swap", "M10", [(PY, "                                BAD_NUM_ACTIONS", "                                BAD_NUM_STATES")]),
    ("m10-token", "M10", [(PL, "   INCLUDETOK,\n   EXCLUDETOK,", "   EXCLUDETOK,\n   INCLUDETOK,")]),
    ("m10-nwords", "M10", [(PL, "#define NUM_RESERVED_WORDS              16", "#define NUM_RESERVED_WORDS              15")]),
    ("m10-report", "M10", [(PERR, "  return 1;\n", "  return numErrors > 100;\n")]),
    ("m10-code", "M10", [(PH, "#define BAD_REWARD_SYNTAX 28", "#define BAD_REWARD_SYNTAX 29")]),
]
