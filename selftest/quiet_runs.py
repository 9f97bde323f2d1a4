Z = "main/zmdp.cc"
T = "main/TestDriver.cc"
U = "common/MatrixUtils.h"
C = "bounds/BoundPairCore.cc"
M = [
    ("q-i03-signal", "I03", [(Z, "  setSignalHandler(SIGINT, &sigIntHandler);\n\n", "  signal(SIGINT, sigIntHandler);\n\n")]),
    ("q-i03-inline", "I03", [(Z, "  setSignalHandler(SIGINT, &sigIntHandler);\n\n", "  struct sigaction act;\n  memset(&act, 0, sizeof(act));\n  act.sa_handler = sigIntHandler;\n  act.sa_flags = SA_RESTART;\n  if (0 != sigaction(SIGINT, &act, NULL)) exit(EXIT_FAILURE);\n\n")]),
    ("q-i03-helper", "I03", [(Z, "void doSolve(", "static bool stopAsked() { return userTerminatedG != 0; }\n\nvoid doSolve("), (Z, "reachedTimeout || userTerminatedG)) {", "reachedTimeout || stopAsked())) {")]),
    ("q-i03-forever", "I03", [(Z, "  while (!(reachedTargetPrecision || reachedTimeout || userTerminatedG)) {", "  for (;;) {\n    if (reachedTargetPrecision || reachedTimeout || userTerminatedG) break;")]),
    ("q-i03-stop", "I03", [(Z, "  while (!(reachedTargetPrecision || reachedTimeout || userTerminatedG)) {", "  bool stop = userTerminatedG;\n  while (!stop) {"), (Z, "      lastPrintTime = elapsed;\n    }\n", "      lastPrintTime = elapsed;\n    }\n    stop = reachedTargetPrecision || reachedTimeout || userTerminatedG;\n")]),
    ("q-i03-fn", "I03", [(Z, "void doSolve(", "static void savePolicy(SolverObjects &so, const SolverParams &p) {\n  if (NULL != p.policyOutputFile) {\n    so.bounds->writePolicy(p.policyOutputFile, true);\n  }\n}\n\nvoid doSolve("), (Z, "    assert(so.bounds->lowerBound != NULL);\n    so.bounds->writePolicy(p.policyOutputFile, /* canModifyBounds = */ true);\n  }\n", "  }\n  savePolicy(so, p);\n")]),
    ("q-i03-local", "I03", [(Z, "  if (NULL == p.policyOutputFile) {", "  const char *out = p.policyOutputFile;\n  if (!out) {"), (Z, "so.bounds->writePolicy(p.policyOutputFile, /*", "so.bounds->writePolicy(out, /*")]),
    ("q-i03-step", "I03", [(Z, "void doSolve(", "static bool oneStep(SolverObjects &so, const SolverParams &p) {\n  return so.solver->planFixedTime(so.sim->getModel()->getInitialState(), -1, p.terminateRegretBound);\n}\n\nvoid doSolve("), (Z, "        so.solver->planFixedTime(so.sim->getModel()->getInitialState(),\n                                 /* maxTime = */ -1, p.terminateRegretBound);\n", "        oneStep(so, p);\n")]),
    ("q-i03-kill", "I03", [(Z, "  userTerminatedG = 1;\n", "  userTerminatedG = userTerminatedG ? 2 : 1;\n")]),
    ("q-i07-helper", "I07", [(T, "namespace zmdp {\n", "namespace zmdp {\n\nstatic void saveAside(const char *name, const std::string &bak) {\n  if (0 != rename(name, bak.c_str()) && ENOENT != errno) {\n    fprintf(stderr, \"failed to make policy backup: %s\\n\", strerror(errno));\n  }\n}\n"), (T, "        if (0 != rename(outPolicyFileName, bakFileName.c_str()) &&\n            ENOENT != errno) {\n          fprintf(stderr, \"failed to make policy backup: %s\\n\",\n                  strerror(errno));\n        }\n", "        saveAside(outPolicyFileName, bakFileName);\n")]),
    ("q-i07-remove", "I07", [(T, "if (0 != unlink(bakFileName.c_str())", "if (0 != remove(bakFileName.c_str())")]),
    ("q-i07-build", "I07", [(T, "string bakFileName = string(outPolicyFileName) + \".bak\";", "string bakFileName = outPolicyFileName;\n        bakFileName += \".bak\";")]),
    ("q-i07-keep", "I07", [(T, "        if (0 != unlink(bakFileName.c_str()) && ENOENT != errno) {", "        if (solverFinished && 0 != unlink(bakFileName.c_str()) && ENOENT != errno) {")]),
    ("q-i07-whole", "I07", [(T, "namespace zmdp {\n", "namespace zmdp {\n\nstatic void savePolicy(SolverObjects &so, const char *name) {\n  string bak = string(name) + \".bak\";\n  if (0 != rename(name, bak.c_str()) && ENOENT != errno) perror(\"backup\");\n  so.bounds->writePolicy(name, false);\n  if (0 != unlink(bak.c_str()) && ENOENT != errno) perror(\"backup\");\n}\n"), (T, "        so.bounds->writePolicy(outPolicyFileName,\n                               /* canModifyBounds = */ false);\n", "        savePolicy(so, outPolicyFileName);\n"), (T, "        if (0 != rename(outPolicyFileName, bakFileName.c_str()) &&", "        if (false &&"), (T, "        if (0 != unlink(bakFileName.c_str()) && ENOENT != errno) {", "        if (false) {")]),
    ("q-e03-plus1", "E03", [(U, "(static_cast<double>(std::rand())) / RAND_MAX", "std::rand() / (RAND_MAX + 1.0)")]),
    ("q-e03-var", "E03", [(U, "  return (static_cast<double>(std::rand())) / RAND_MAX;", "  double x = std::rand();\n  return x / RAND_MAX;")]),
    ("q-e03-while", "E03", [(U, "  FOR(i, b.size()) {\n    if (b(i) > 0) {\n      last = i;\n      r -= b(i);\n      if (r <= 0) return i;\n    }\n  }\n", "  int n = b.size();\n  int i = 0;\n  while (i < n) {\n    double p = b(i);\n    if (p > 0) {\n      last = i;\n      r = r - p;\n      if (r <= 0) return last;\n    }\n    i++;\n  }\n")]),
    ("q-e03-cont", "E03", [(U, "    if (CV_VAL(b) > 0) {\n      last = CV_INDEX(b);\n      r -= CV_VAL(b);\n      if (r <= 0) return last;\n    }\n", "    if (CV_VAL(b) <= 0) continue;\n    last = CV_INDEX(b);\n    r -= CV_VAL(b);\n    if (0 >= r) break;\n")]),
    ("q-e03-accum", "E03", [(C, "  double r = unit_rand();\n", "  double r = unit_rand();\n  double seen = 0;\n"), (C, "      r -= e->obsProb;\n      if (r <= 0) {", "      seen += e->obsProb;\n      if (r <= seen) {")]),
    ("q-e03-return", "E03", [(C, "      if (r <= 0) {\n        break;\n      }", "      if (r <= 0) return o;")]),
    ("q-e03-swap", "E03", [(C, "      result = o;\n      r -= e->obsProb;\n", "      r -= e->obsProb;\n      result = o;\n")]),
    ("q-e03-null", "E03", [(C, "    if (NULL != e) {\n      // if rounding keeps r positive to the end, the last possible outcome is used\n      result = o;\n      r -= e->obsProb;\n      if (r <= 0) {\n        break;\n      }\n    }\n", "    if (NULL == e) continue;\n    result = o;\n    r -= e->obsProb;\n    if (!(r > 0)) {\n      break;\n    }\n")]),
    ("q-e03-seed", "E03", [(Z, "void doSolve(const ZMDPConfig &config) {\n  init_matrix_utils();\n", "static void startUp() { init_matrix_utils(); }\n\nvoid doSolve(const ZMDPConfig &config) {\n  startUp();\n")]),
    ("q-e03-once", "E03", [(U, "  rand();\n", "  rand();\n  rand();\n")]),
    ("q-e03-cond", "E03", [(C, "  FOR(o, Qa.getNumOutcomes()) {\n    MDPEdge *e = Qa.outcomes[o];\n    if (NULL != e) {\n      // if", "  for (int o = 0; r > 0 && o < static_cast<int>(Qa.getNumOutcomes()); o++) {\n    MDPEdge *e = Qa.outcomes[o];\n    if (NULL != e) {\n      // if"), (C, "      r -= e->obsProb;\n      if (r <= 0) {\n        break;\n      }", "      r -= e->obsProb;")]),

    # E04
    ('q-e04-carry', 'E04', [('common/zmdpCommonTime.cc', '  if (result.tv_usec < 0) {\n    result.tv_sec--;\n    result.tv_usec += 1000000;\n  }', '  if (a.tv_usec < b.tv_usec) {\n    result.tv_usec = result.tv_usec + 1000000;\n    result.tv_sec = result.tv_sec - 1;\n  }')]),
    ('q-e04-plus', 'E04', [('common/zmdpCommonTime.cc', '  result.tv_sec = a.tv_sec + b.tv_sec;\n  result.tv_usec = a.tv_usec + b.tv_usec;\n  if (result.tv_usec >= 1000000) {\n    result.tv_sec++;\n    result.tv_usec -= 1000000;\n  }', '  long usec = a.tv_usec + b.tv_usec;\n  result.tv_sec = a.tv_sec + b.tv_sec;\n  if (usec >= 1000000) {\n    usec -= 1000000;\n    result.tv_sec += 1;\n  }\n  result.tv_usec = usec;')]),
    ('q-e04-lt', 'E04', [('common/zmdpCommonTime.cc', '  return (a.tv_sec < b.tv_sec) ||\n         ((a.tv_sec == b.tv_sec) && (a.tv_usec < b.tv_usec));', '  if (a.tv_sec != b.tv_sec) return a.tv_sec < b.tv_sec;\n  return a.tv_usec < b.tv_usec;')]),
    ('q-e04-sw', 'E04', [('common/zmdpCommonTime.cc', '  timeval tv;\n  gettimeofday(&tv, 0);\n  return (tv.tv_sec - startTime.tv_sec) +\n         (tv.tv_usec - startTime.tv_usec) * 1.0e-6;', '  timeval now;\n  gettimeofday(&now, 0);\n  double secs = now.tv_sec - startTime.tv_sec;\n  double usecs = now.tv_usec - startTime.tv_usec;\n  return secs + 1.0e-6 * usecs;')]),
    ('q-e04-mean', 'E04', [('common/MatrixUtils.h', '  mean = sum / n;\n', '  mean = sum / static_cast<double>(n);\n')]),
    ('q-e04-mean2', 'E04', [('common/MatrixUtils.h', '  int n = vals.size();\n  double sum = 0.0;\n  for (int i = 0; i < n; i++) {\n    sum += vals(i);\n  }\n  mean = sum / n;', '  const int n = vals.size();\n  double sum = 0.0;\n  int idx = 0;\n  while (idx < n) {\n    sum = sum + vals(idx);\n    ++idx;\n  }\n  mean = sum / n;')]),
    ('q-e04-q', 'E04', [('common/MatrixUtils.h', '  quantile1 = getQuantile(bvals, alpha / 2);\n  quantile2 = getQuantile(bvals, (1.0 - alpha / 2));', '  const double tail = 0.5 * alpha;\n  quantile1 = getQuantile(bvals, tail);\n  quantile2 = getQuantile(bvals, 1.0 - tail);')]),
    ('q-e04-gq', 'E04', [('common/MatrixUtils.h', '  return sortedVals(i) + r * (sortedVals(i + 1) - sortedVals(i));', '  double lo = sortedVals(i);\n  double hi = sortedVals(i + 1);\n  return lo + r * (hi - lo);')]),
    ('q-e04-gq2', 'E04', [('common/MatrixUtils.h', '  return sortedVals(i) + r * (sortedVals(i + 1) - sortedVals(i));', '  return (1.0 - r) * sortedVals(i) + r * sortedVals(i + 1);')]),
    ('q-e04-batch', 'E04', [('exec/PolicyEvaluator.cc', '  int numBatches = std::min(evaluationTrialsPerEpoch, 30);', '  int numBatches = 30;\n  if (evaluationTrialsPerEpoch < numBatches) {\n    numBatches = evaluationTrialsPerEpoch;\n  }')]),
    ('q-e04-tern', 'E04', [('exec/PolicyEvaluator.cc', '  int numBatches = std::min(evaluationTrialsPerEpoch, 30);', '  const int numBatches =\n      (evaluationTrialsPerEpoch < 30) ? evaluationTrialsPerEpoch : 30;')]),
    ('q-e04-sum', 'E04', [('exec/PolicyEvaluator.cc', '    rewards(i) = sum(batchRewards) / numTrialsPerBatch;', '    double batchTotal = sum(batchRewards);\n    rewards(i) = batchTotal / numTrialsPerBatch;')]),
    ('q-e04-rate', 'E04', [('exec/PolicyEvaluator.cc', '  successRate = successRateSum / numBatches;', '  const double batches = numBatches;\n  successRate = successRateSum / batches;')]),
    ('q-e04-helper', 'E04', [('exec/PolicyEvaluator.cc', '  successRate = (static_cast<double>(numTrialsReachedGoal)) / numTrials;\n}\n\n};', '  successRate = fractionOf(numTrialsReachedGoal, numTrials);\n}\n\n};'), ('exec/PolicyEvaluator.cc', 'void PolicyEvaluator::doBatchSimple(', 'static double fractionOf(int count, int total) {\n  return static_cast<double>(count) / total;\n}\n\nvoid PolicyEvaluator::doBatchSimple(')]),
]
