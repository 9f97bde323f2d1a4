PE, SIM, PH = "exec/PolicyEvaluator.cc", "common/MDPSim.cc", "exec/PolicyEvaluator.h"
M = [
    ("q-e01-order", "E01", [(SIM, "  state = sp;\n  elapsedTime++;\n  lastOutcomeIndex = o;\n", "  lastOutcomeIndex = o;\n  elapsedTime += 1;\n  state = sp;\n")]),
    ("q-e01-assign", "E01", [(SIM, "  // increment reward\n  double imm_reward = model->getReward(state, a);\n  rewardSoFar += pow(model->discount, elapsedTime) * imm_reward;\n", "  const double factor = pow(model->getDiscount(), elapsedTime);\n  rewardSoFar = rewardSoFar + factor * model->getReward(state, a);\n")]),
    ("q-e01-helper", "E01", [("common/MDPSim.h", "  void performAction(int a);\n", "  void performAction(int a);\n  void noteEnd(void);\n"),
                             (SIM, "  // check for termination\n  if (model->getIsTerminalState(state)) {\n    terminated = true;\n    if (simOutFile) {\n      (*simOutFile) << \"terminated\" << endl;\n    }\n  }\n}\n",
                              "  noteEnd();\n}\n\nvoid MDPSim::noteEnd(void) {\n  if (!model->getIsTerminalState(state)) return;\n  terminated = true;\n  if (simOutFile) {\n    (*simOutFile) << \"terminated\" << endl;\n  }\n}\n")]),
    ("q-e01-direct", "E01", [(SIM, "  if (model->getIsTerminalState(state)) {\n    terminated = true;\n", "  terminated = model->getIsTerminalState(state);\n  if (terminated) {\n")]),
    ("q-e01-while", "E01", [(PE, "    for (int j = 0;\n         (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);\n         j++) {\n      int a = exec->chooseAction();\n",
                             "    int j = 0;\n    while ((0 == evaluationMaxStepsPerTrial) || !(j >= evaluationMaxStepsPerTrial)) {\n      j++;\n      const int a = exec->chooseAction();\n")]),
    ("q-e01-swap", "E01", [(PE, "    sim->restart();\n    exec->setToInitialState();\n", "    exec->setToInitialState();\n    sim->restart();\n")]),
    ("q-e01-step", "E01", [(PH, "  void doBatchSimple(", "  bool simStep(void);\n  void doBatchSimple("),
                           (PE, "      int a = exec->chooseAction();\n      sim->performAction(a);\n      if (assumeIdenticalModels) {\n        (reinterpret_cast<MDPExec *>(exec))->currentState = sim->state;\n      } else {\n        exec->advanceToNextState(a, sim->lastOutcomeIndex);\n      }\n      if (sim->terminated) {\n        numTrialsReachedGoal++;\n        break;\n      }\n",
                            "      if (simStep()) {\n        numTrialsReachedGoal++;\n        break;\n      }\n"),
                           (PE, "void PolicyEvaluator::doBatchSimple(dvector", "bool PolicyEvaluator::simStep(void) {\n  int a = exec->chooseAction();\n  sim->performAction(a);\n  if (!assumeIdenticalModels) {\n    exec->advanceToNextState(a, sim->lastOutcomeIndex);\n  } else {\n    (reinterpret_cast<MDPExec *>(exec))->currentState = sim->state;\n  }\n  return sim->terminated;\n}\n\nvoid PolicyEvaluator::doBatchSimple(dvector")]),
    ("q-e01-flag", "E01", [(PE, "      if (sim->terminated) {\n        numTrialsReachedGoal++;\n        break;\n      }\n    }\n", "      const bool done = sim->terminated;\n      if (done) numTrialsReachedGoal++;\n      if (done) break;\n    }\n")]),
    ("q-e01-count", "E01", [(PE, "      if (-1 == e->userInt) {\n        e->userInt = 1;\n      } else {\n        e->userInt++;\n      }\n      trials[i].push_back(PESimLogEntry(simState, a, o));\n",
                             "      trials[i].push_back(PESimLogEntry(simState, a, o));\n      if (e->userInt != -1) {\n        e->userInt += 1;\n      } else {\n        e->userInt = 1;\n      }\n")]),
    ("q-e01-choice", "E01", [(PE, "      int a;\n", ""), (PE, "      // the choice depends on the simulator state alone only if the planner's\n      // state is the same thing\n      if (-1 == simState->userInt || !assumeIdenticalModels) {\n        a = exec->chooseAction();\n        simState->userInt = a;\n      } else {\n        a = simState->userInt;\n      }\n",
                              "      int a = simState->userInt;\n      if (-1 == a || !assumeIdenticalModels) {\n        a = exec->chooseAction();\n        simState->userInt = a;\n      }\n")]),
    ("q-e01-horner", "E01", [(PE, "      rewardSoFar = Qa.immediateReward +\n                    reweight * modelCache->getDiscount() * rewardSoFar;\n", "      const double later = modelCache->getDiscount() * rewardSoFar;\n      rewardSoFar = later * reweight + Qa.immediateReward;\n")]),
    ("q-e01-down", "E01", [(PE, "for (int j = trials[i].size() - 1; j >= 0; j--) {\n", "for (int j = trials[i].size(); j-- > 0;) {\n")]),
    ("q-e01-riter", "E01", [(PE, "    for (int j = trials[i].size() - 1; j >= 0; j--) {\n      PESimLogEntry &entry = trials[i][j];\n", "    for (PESimLog::reverse_iterator it = trials[i].rbegin(); it != trials[i].rend(); ++it) {\n      PESimLogEntry &entry = *it;\n")]),
    ("q-e01-weight", "E01", [(PE, "                e->userDouble = Qa->opv(o) / (e->userInt / cntSum);", "                const double freq = e->userInt / cntSum;\n                e->userDouble = Qa->opv(o) / freq;")]),
    ("q-e01-weight2", "E01", [(PE, "                e->userDouble = Qa->opv(o) / (e->userInt / cntSum);", "                e->userDouble = cntSum * Qa->opv(o) / e->userInt;")]),
    ("q-e01-clear", "E01", [(PE, "  for (int si = 0; si < static_cast<int>(modelCache->nodeTable.size()); si++) {\n    CMDPNode *cn = modelCache->nodeTable[si];\n    for (int a = 0; a < modelCache->getNumActions(); a++) {\n      CMDPQEntry *Qa = cn->Q[a];\n      if (NULL != Qa) {\n        for (int o = 0;",
                             "  for (CMDPNode *cn : modelCache->nodeTable) {\n    for (int a = 0; a < modelCache->getNumActions(); a++) {\n      CMDPQEntry *Qa = cn->Q[a];\n      if (NULL != Qa) {\n        for (int o = 0;")]),
    ("q-e01-local", "E01", [(PE, "    rewards(i) = sim->rewardSoFar;\n    if (verbose) {\n      (*scoresOutFile) << sim->rewardSoFar << endl;", "    const double total = sim->rewardSoFar;\n    rewards(i) = total;\n    if (verbose) {\n      (*scoresOutFile) << total << endl;")]),
]
