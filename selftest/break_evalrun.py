PE, SIM = "exec/PolicyEvaluator.cc", "common/MDPSim.cc"
M = [
    ("b-e01-pow", "E01", [(SIM, "pow(model->discount, elapsedTime) * imm_reward", "pow(model->discount, elapsedTime + 1) * imm_reward")]),
    ("b-e01-tick", "E01", [(SIM, "  // increment reward\n", "  elapsedTime++;\n"), (SIM, "  state = sp;\n  elapsedTime++;\n", "  state = sp;\n")]),
    ("b-e01-newstate", "E01", [(SIM, "  // increment reward\n  double imm_reward = model->getReward(state, a);\n  rewardSoFar += pow(model->discount, elapsedTime) * imm_reward;\n", ""),
                               (SIM, "  state = sp;\n", "  state = sp;\n  rewardSoFar += pow(model->discount, elapsedTime) * model->getReward(state, a);\n")]),
    ("b-e01-noterm", "E01", [(SIM, "  if (model->getIsTerminalState(state)) {\n    terminated = true;", "  if (model->getIsTerminalState(state)) {\n    terminated = (lastOutcomeIndex >= 0 && elapsedTime > 1);")]),
    ("b-e01-oldterm", "E01", [(SIM, "  // bring sim variables up to date\n  state = sp;\n", "  bool atEnd = model->getIsTerminalState(state);\n  state = sp;\n"), (SIM, "if (model->getIsTerminalState(state)) {", "if (atEnd) {")]),
    ("b-e01-norestart", "E01", [(SIM, "  elapsedTime = 0;\n", "  if (terminated) elapsedTime = 0;\n")]),
    ("b-e01-keepreward", "E01", [(SIM, "  elapsedTime = 0;\n  rewardSoFar = 0;\n", "  elapsedTime = 0;\n"), (SIM, "  simOutFile = NULL;\n", "  simOutFile = NULL;\n  rewardSoFar = 0;\n")]),
    ("b-e01-execreset", "E01", [(PE, "    sim->restart();\n    exec->setToInitialState();\n", "    sim->restart();\n    if (0 == i) exec->setToInitialState();\n")]),
    ("b-e01-steps", "E01", [(PE, "    sim->restart();\n    exec->setToInitialState();\n    for (int j = 0;", "    sim->restart();\n    exec->setToInitialState();\n    for (int j = 1;")]),
    ("b-e01-le", "E01", [(PE, "CMDPQEntry *Qa = NULL;\n    for (int j = 0;\n         (j < evaluationMaxStepsPerTrial)", "CMDPQEntry *Qa = NULL;\n    for (int j = 0;\n         (j <= evaluationMaxStepsPerTrial)")]),
    ("b-e01-nobreak", "E01", [(PE, "      if (sim->terminated) {\n        numTrialsReachedGoal++;\n        break;\n", "      if (sim->terminated) {\n        numTrialsReachedGoal++;\n        if (j > 0) break;\n")]),
    ("b-e01-told", "E01", [(PE, "        exec->advanceToNextState(a, sim->lastOutcomeIndex);", "        exec->advanceToNextState(a, 0);")]),
    ("b-e01-toldafter", "E01", [(PE, "      if (assumeIdenticalModels) {\n        (reinterpret_cast<MDPExec *>(exec))->currentState = sim->state;\n      } else {", "      if (assumeIdenticalModels && j > 0) {\n        (reinterpret_cast<MDPExec *>(exec))->currentState = sim->state;\n      } else if (!assumeIdenticalModels) {")]),
    ("b-e01-identical", "E01", [(PE, "if (-1 == simState->userInt || !assumeIdenticalModels)", "if (-1 == simState->userInt)")]),
    ("b-e01-remember", "E01", [(PE, "        simState->userInt = a;\n", "        modelCache->root->userInt = a;\n")]),
    ("b-e01-drop", "E01", [(PE, "      trials[i].push_back(PESimLogEntry(simState, a, o));\n\n", "      if (!e->nextState->isTerminal) trials[i].push_back(PESimLogEntry(simState, a, o));\n\n")]),
    ("b-e01-logafter", "E01", [(PE, "      trials[i].push_back(PESimLogEntry(simState, a, o));\n\n", ""), (PE, "      simState = e->nextState;\n", "      simState = e->nextState;\n      trials[i].push_back(PESimLogEntry(simState, a, o));\n")]),
    ("b-e01-count", "E01", [(PE, "        e->userInt = 1;\n      } else {\n        e->userInt++;", "        e->userInt = 0;\n      } else {\n        e->userInt++;")]),
    ("b-e01-horner", "E01", [(PE, "reweight * modelCache->getDiscount() * rewardSoFar;", "reweight * modelCache->getDiscount() * rewardSoFar * reweight;")]),
    ("b-e01-horner2", "E01", [(PE, "rewardSoFar = Qa.immediateReward +\n                    reweight * modelCache->getDiscount() * rewardSoFar;", "rewardSoFar = reweight * (Qa.immediateReward +\n                    modelCache->getDiscount() * rewardSoFar);")]),
    ("b-e01-last", "E01", [(PE, "for (int j = trials[i].size() - 1; j >= 0; j--)", "for (int j = trials[i].size() - 1; j > 0; j--)")]),
    ("b-e01-forward", "E01", [(PE, "for (int j = trials[i].size() - 1; j >= 0; j--)", "for (int j = 0; j < static_cast<int>(trials[i].size()); j++)")]),
    ("b-e01-carry", "E01", [(PE, "  double batchSumReward = 0.0;\n  for (int i = 0; i < numTrials; i++) {\n    double rewardSoFar = 0.0;\n", "  double batchSumReward = 0.0;\n  double rewardSoFar = 0.0;\n  for (int i = 0; i < numTrials; i++) {\n")]),
    ("b-e01-weight", "E01", [(PE, "e->userDouble = Qa->opv(o) / (e->userInt / cntSum);", "e->userDouble = Qa->opv(o) * (e->userInt / cntSum);")]),
    ("b-e01-weight2", "E01", [(PE, "if (probSum == 1.0) {", "if (probSum > 0.0) {")]),
    ("b-e01-clear", "E01", [(PE, "        for (int o = 0; o < static_cast<int>(Qa->getNumOutcomes()); o++) {\n          CMDPEdge *e = Qa->outcomes[o];\n          if (NULL != e) {\n            e->userInt = -1;", "        for (int o = 1; o < static_cast<int>(Qa->getNumOutcomes()); o++) {\n          CMDPEdge *e = Qa->outcomes[o];\n          if (NULL != e) {\n            e->userInt = -1;")]),
    ("b-e01-cntsum", "E01", [(PE, "              cntSum += e->userInt;\n", "              cntSum += 1;\n")]),
    ("b-e01-rewards", "E01", [(PE, "    rewards(i) = sim->rewardSoFar;\n    if (verbose) {", "    if (sim->terminated) rewards(i) = sim->rewardSoFar;\n    if (verbose) {")]),
    ("b-e01-reward2", "E01", [(PE, "    rewards(i) = sum(batchRewards) / numTrialsPerBatch;", "    rewards(0) = sum(batchRewards) / numTrialsPerBatch;")]),
]
