Z = "main/zmdp.cc"
T = "main/TestDriver.cc"
U = "common/MatrixUtils.h"
C = "bounds/BoundPairCore.cc"
M = [
    ("b-i03-printf", "I03", [(Z, "  int savedErrno = errno;\n", "  printf(\"interrupted\\n\");\n  int savedErrno = errno;\n")]),
    ("b-i03-time", "I03", [(Z, "  userTerminatedG = 1;\n", "  if (sig != SIGINT) return;\n  if (getpid() == 1) return;\n  userTerminatedG = 1;\n")]),
    ("b-i03-nonvol", "I03", [(Z, "volatile sig_atomic_t userTerminatedG = 0;", "double userTerminatedG = 0;")]),
    ("b-i03-loop", "I03", [(Z, "reachedTimeout || userTerminatedG)) {", "reachedTimeout)) {")]),
    ("b-i03-once", "I03", [(Z, "  while (!(reachedTargetPrecision || reachedTimeout || userTerminatedG)) {", "  bool stop = userTerminatedG;\n  while (!(reachedTargetPrecision || reachedTimeout || stop)) {")]),
    ("b-i03-inner", "I03", [(Z, "    numSolverCalls++;\n", "    numSolverCalls++;\n    while (!reachedTargetPrecision && numSolverCalls % 100 != 0) {\n      reachedTargetPrecision = so.solver->planFixedTime(so.sim->getModel()->getInitialState(), -1, p.terminateRegretBound);\n      numSolverCalls++;\n    }\n")]),
    ("b-i03-late", "I03", [(Z, "  setSignalHandler(SIGINT, &sigIntHandler);\n\n", ""), (Z, "    numSolverCalls++;\n", "    if (numSolverCalls++ == 0) setSignalHandler(SIGINT, &sigIntHandler);\n")]),
    ("b-i03-sig", "I03", [(Z, "setSignalHandler(SIGINT, &sig", "setSignalHandler(SIGTERM, &sig")]),
    ("b-i03-reset", "I03", [(Z, "act.sa_flags = SA_RESTART;", "act.sa_flags = SA_RESTART | SA_RESETHAND;")]),
    ("b-i03-nopolicy", "I03", [(Z, "  if (NULL == p.policyOutputFile) {", "  if (NULL == p.policyOutputFile || userTerminatedG) {")]),
    ("b-i03-nopolicy2", "I03", [(Z, "  if (NULL == p.policyOutputFile) {", "  if (NULL == p.policyOutputFile || !reachedTargetPrecision) {")]),
    ("b-i03-return", "I03", [(Z, "caught SIGINT from user\\n\",\n           static_cast<int>(run.elapsedTime()));\n", "caught SIGINT from user\\n\",\n           static_cast<int>(run.elapsedTime()));\n    return;\n")]),
    ("b-i03-exit0", "I03", [(Z, "caught SIGINT from user\\n\",\n           static_cast<int>(run.elapsedTime()));\n", "caught SIGINT from user\\n\",\n           static_cast<int>(run.elapsedTime()));\n    exit(EXIT_SUCCESS);\n")]),
    ("b-i03-log", "I03", [(Z, "  so.solver->finishLogging();\n", "  if (!userTerminatedG) so.solver->finishLogging();\n")]),
    ("b-i03-clear", "I03", [(Z, "    // check timeout\n", "    userTerminatedG = 0;\n")]),
    ("b-i03-clear2", "I03", [(Z, "  double lastPrintTime = -1000;\n", "  double lastPrintTime = -1000;\n  userTerminatedG = 0;\n")]),
    ("b-i03-exit", "I03", [(Z, "  userTerminatedG = 1;\n", "  if (userTerminatedG) exit(1);\n  userTerminatedG = 1;\n")]),
    ("b-i03-zero", "I03", [(Z, "  userTerminatedG = 1;\n", "  userTerminatedG = 0;\n")]),
    ("b-i03-write", "I03", [("bounds/BoundPair.cc", "  mlb->writeToFile(outFileName);", "  if (canModifyBounds) mlb->writeToFile(outFileName);")]),
    ("b-i07-nobak", "I07", [(T, "        if (0 != rename(outPolicyFileName, bakFileName.c_str()) &&", "        if (solverFinished && 0 != rename(outPolicyFileName, bakFileName.c_str()) &&")]),
    ("b-i07-early", "I07", [(T, "        so.bounds->writePolicy(outPolicyFileName,\n                               /* canModifyBounds = */ false);\n\n", ""), (T, "strerror(errno));\n        }\n      }\n", "strerror(errno));\n        }\n        so.bounds->writePolicy(outPolicyFileName, false);\n      }\n")]),
    ("b-i07-system", "I07", [(T, "        if (0 != rename(outPolicyFileName, bakFileName.c_str()) &&", "        if (0 != system((\"mv \" + string(outPolicyFileName) + \" \" + bakFileName).c_str()) &&")]),
    ("b-i07-wrong", "I07", [(T, "rename(outPolicyFileName, bakFileName.c_str())", "rename(bakFileName.c_str(), outPolicyFileName)")]),
    ("b-i07-rmself", "I07", [(T, "        so.bounds->writePolicy(outPolicyFileName,", "        unlink(outPolicyFileName);\n        so.bounds->writePolicy(outPolicyFileName,")]),
    ("b-i07-late", "I07", [(T, "        if (0 != rename(outPolicyFileName, bakFileName.c_str()) &&\n            ENOENT != errno) {\n          fprintf(stderr, \"failed to make policy backup: %s\\n\",\n                  strerror(errno));\n        }\n\n        so.bounds->writePolicy(outPolicyFileName,\n                               /* canModifyBounds = */ false);\n", "        so.bounds->writePolicy(outPolicyFileName, false);\n        if (0 != rename(outPolicyFileName, bakFileName.c_str())) {}\n")]),
    ("b-e03-drand", "E03", [(U, "(static_cast<double>(std::rand())) / RAND_MAX", "drand48()")]),
    ("b-e03-mod", "E03", [(U, "(static_cast<double>(std::rand())) / RAND_MAX", "(static_cast<double>(std::rand() % 1000)) / 1000")]),
    ("b-e03-int", "E03", [(U, "(static_cast<double>(std::rand())) / RAND_MAX", "std::rand() / RAND_MAX")]),
    ("b-e03-noseed", "E03", [(Z, "void doBenchmark(const ZMDPConfig &config) {\n  init_matrix_utils();\n", "void doBenchmark(const ZMDPConfig &config) {\n")]),
    ("b-e03-twice", "E03", [(Z, "    // check timeout\n", "    init_matrix_utils();\n")]),
    ("b-e03-twice2", "E03", [("exec/PolicyEvaluator.cc", "  double successRateSum = 0.0;\n", "  double successRateSum = 0.0;\n  MatrixUtils::init_matrix_utils();\n")]),
    ("b-e03-guard", "E03", [(U, "    if (b(i) > 0) {\n", "    if (b(i) >= 0) {\n")]),
    ("b-e03-guard2", "E03", [(U, "    if (CV_VAL(b) > 0) {\n", "    {\n")]),
    ("b-e03-null", "E03", [(C, "    if (NULL != e) {\n      // if rounding keeps r positive to the end, the last possible outcome is used\n      result = o;\n", "    result = o;\n    if (NULL != e) {\n")]),
    ("b-e03-last", "E03", [(U, "    if (b(i) > 0) {\n      last = i;\n", "    last = i;\n    if (b(i) > 0) {\n")]),
    ("b-e03-off", "E03", [(U, "if (r <= 0) return i;", "if (r <= 0) return i + 1;")]),
    ("b-e03-tol", "E03", [(U, "if (r <= 0) return i;", "if (r <= 0.05) return i;")]),
    ("b-e03-order", "E03", [(U, "      r -= b(i);\n      if (r <= 0) return i;\n", "      if (r <= 0) return i;\n      r -= b(i);\n")]),
    ("b-e03-first", "E03", [(U, "    FOR(i, b.size()) {\n    if (b(i) > 0)", "X"), ]),
    ("b-e03-from1", "E03", [(U, "  FOR(i, b.size()) {\n    if (b(i) > 0) {", "  for (int i = 1; i < static_cast<int>(b.size()); i++) {\n    if (b(i) > 0) {")]),
    ("b-e03-upto", "E03", [(C, "  FOR(o, Qa.getNumOutcomes()) {\n    MDPEdge *e = Qa.outcomes[o];\n    if (NULL != e) {\n      // if", "  FOR(o, static_cast<int>(Qa.getNumOutcomes()) - 1) {\n    MDPEdge *e = Qa.outcomes[o];\n    if (NULL != e) {\n      // if")]),
    ("b-e03-index", "E03", [(C, "  double r = unit_rand();\n", "  double r = unit_rand();\n  int pos = -1;\n"), (C, "    if (NULL != e) {\n      // if", "    pos = o;\n    if (NULL != e) {\n      // if"), (C, "  return result;\n", "  return pos;\n")]),
    ("b-e03-nobreak", "E03", [(C, "      if (r <= 0) {\n        break;\n      }\n", "")]),
    ("b-e03-redraw", "E03", [(C, "      r -= e->obsProb;\n      if (r <= 0) {", "      r -= e->obsProb;\n      if (unit_rand() <= e->obsProb) {")]),
    ("b-e03-after", "E03", [(C, "      result = o;\n      r -= e->obsProb;\n      if (r <= 0) {\n        break;\n      }\n", "      r -= e->obsProb;\n      if (r <= 0) {\n        break;\n      }\n      result = o;\n")]),
    ("b-e03-break", "E03", [(C, "    MDPEdge *e = Qa.outcomes[o];\n    if (NULL != e) {\n      // if", "    MDPEdge *e = Qa.outcomes[o];\n    if (o > 0 && NULL == e) break;\n    if (NULL != e) {\n      // if")]),
    ("b-e03-weight", "E03", [(C, "r -= e->obsProb;", "r -= 1.0 / Qa.getNumOutcomes();")]),
    ("b-e03-weight2", "E03", [(C, "r -= e->obsProb;", "r = unit_rand() - e->obsProb;")]),
]
M = [m for m in M if m[2][0][2] != "X"]
M += [
    # E04
    ('b-e04-carry', 'E04', [('common/zmdpCommonTime.cc', '  if (result.tv_usec < 0) {\n    result.tv_sec--;', '  if (result.tv_usec < 0) {\n    result.tv_sec++;')]),
    ('b-e04-carry2', 'E04', [('common/zmdpCommonTime.cc', 'result.tv_usec += 1000000;', 'result.tv_usec += 100000;')]),
    ('b-e04-ge', 'E04', [('common/zmdpCommonTime.cc', 'result.tv_usec >= 1000000', 'result.tv_usec > 1000000')]),
    ('b-e04-lt', 'E04', [('common/zmdpCommonTime.cc', '((a.tv_sec == b.tv_sec) && (a.tv_usec < b.tv_usec))', '(a.tv_usec < b.tv_usec)')]),
    ('b-e04-sec', 'E04', [('common/zmdpCommonTime.cc', 'return tv.tv_sec + 1e-6 * tv.tv_usec', 'return tv.tv_sec + 1e-3 * tv.tv_usec')]),
    ('b-e04-stv', 'E04', [('common/zmdpCommonTime.cc', '1e+6 * (d - a.tv_sec)', '1e+6 * d')]),
    ('b-e04-sw', 'E04', [('common/zmdpCommonTime.cc', '(tv.tv_usec - startTime.tv_usec)', '(startTime.tv_usec - tv.tv_usec)')]),
    ('b-e04-mean', 'E04', [('common/MatrixUtils.h', '  mean = sum / n;\n', '  mean = sum / (n + 1);\n')]),
    ('b-e04-boot', 'E04', [('common/MatrixUtils.h', '    bvals(i) = sum / n;', '    bvals(i) = sum / numBootstrapSamples;')]),
    ('b-e04-bootreset', 'E04', [('common/MatrixUtils.h', '    sum = 0.0;\n    for (int j = 0; j < n; j++) {\n      // unit', '    for (int j = 0; j < n; j++) {\n      // unit')]),
    ('b-e04-q', 'E04', [('common/MatrixUtils.h', 'quantile2 = getQuantile(bvals, (1.0 - alpha / 2))', 'quantile2 = getQuantile(bvals, (1.0 - alpha))')]),
    ('b-e04-sort', 'E04', [('common/MatrixUtils.h', '  std::sort(bvals.data.begin(), bvals.data.end());\n', '')]),
    ('b-e04-q2', 'E04', [('common/MatrixUtils.h', '  return sortedVals(i) + r * (', '  return sortedVals(i) + (1 - r) * (')]),
    ('b-e04-batch', 'E04', [('exec/PolicyEvaluator.cc', '  int numBatches = std::min(evaluationTrialsPerEpoch, 30);', '  int numBatches = 30;')]),
    ('b-e04-rate', 'E04', [('exec/PolicyEvaluator.cc', '  successRate = successRateSum / numBatches;', '  successRate = successRateSum / evaluationTrialsPerEpoch;')]),
    ('b-e04-rate2', 'E04', [('exec/PolicyEvaluator.cc', 'rewards(i) = sum(batchRewards) / numTrialsPerBatch;', 'rewards(i) = sum(batchRewards) / numBatches;')]),
    ('b-e04-int', 'E04', [('exec/PolicyEvaluator.cc', '(static_cast<double>(numTrialsReachedGoal)) / numTrials', 'numTrialsReachedGoal / numTrials')]),
    ('b-e04-dot', 'E04', [('exec/PolicyEvaluator.cc', '      if (i % 10 == 9) {', '      if (i % (numTrials / 10) == 9) {')]),
]
