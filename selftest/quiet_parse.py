Y, FP, IR, DT, SM = "parsers/pomdp_spec.y", "parsers/FastParser.cc", "parsers/imm-reward.c", "parsers/decision-tree.c", "parsers/sparse-matrix.c"
M = [
    ("q-m03-abs", "M03", [(Y, "if ((sum < (1.0 - EPSILON)) || (sum > (1.0 + EPSILON))) {\n        snprintf(str, sizeof(str), \"action=%d, state=%d (%.5lf)\", a, i", "double lo = 1.0 - EPSILON;\n      if (!(sum >= lo && sum <= 1.0 + EPSILON)) {\n        snprintf(str, sizeof(str), \"action=%d, state=%d (%.5lf)\", a, i")]),
    ("q-m03-swap", "M03", [(Y, "for (a = 0; a < gNumActions; a++)\n    for (i = 0; i < gNumStates; i++) {\n      sum", "for (i = 0; i < gNumStates; i++)\n    for (a = 0; a < gNumActions; a++) {\n      sum")]),
    ("q-m03-fastvar", "M03", [(FP, "      if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {\n        fprintf", "      double total = sum(checkTmp);\n      if (total < 1.0 - POMDP_READ_ERROR_EPS || total > 1.0 + POMDP_READ_ERROR_EPS) {\n        fprintf")]),
    ("q-m03-neg", "M03", [(FP, "            sp >= p.numStates || !(prob >= 0.0)) {", "            sp >= p.numStates || prob < 0.0) {")]),
    ("q-m03-while", "M03", [(FP, "      if (!(val >= 0.0)) {", "      if (val < 0.0) {")]),
    ("q-m04-case", "M04", [(Y, "      for (i = minI; i <= maxI; i++)\n        addEntryToIMatrix(IP[a], i, curCol, value);", "      for (i = maxI; i >= minI; i--)\n        addEntryToIMatrix(IP[a], i, curCol, value);")]),
    ("q-m04-ident", "M04", [(Y, "          if (i == j)\n            addEntryToIMatrix(IP[a], i, j, 1.0);\n          else\n            addEntryToIMatrix(IP[a], i, j, 0.0);", "          addEntryToIMatrix(IP[a], i, j, i == j ? 1.0 : 0.0);")]),
    ("q-m04-reset", "M04", [(Y, "          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);", "          if (gInitialState != j)\n            addEntryToIMatrix(IP[a], i, j, 0.0);\n          else\n            addEntryToIMatrix(IP[a], i, j, 1.0);")]),
    ("q-m04-range", "M04", [(Y, "  if (i < 0) {\n    minI = 0;\n    maxI = gNumStates - 1;\n  } else\n    minI = maxI = i;", "  if (i >= 0) {\n    maxI = i;\n    minI = i;\n  } else {\n    minI = 0;\n    maxI = gNumStates - 1;\n  }")]),
    ("q-m04-dt", "M04", [(DT, "    if (NULL == *entryP) {", "    if (!*entryP) {"), (DT, "  } else if (WILDCARD_SPEC == vec[index]) {", "  } else if (vec[index] < 0) {")]),
    ("q-m04-dtvar", "M04", [(DT, "    entryP = &node->data.subTree.entries[vec[index]];\n    if (NULL == *entryP) {", "    i = vec[index];\n    entryP = &node->data.subTree.entries[i];\n    if (NULL == *entryP) {")]),
    ("q-m04-ir", "M04", [(IR, "          for (j = 0; j < gNumObservations; j++) {\n            dtAdd(node->action, node->cur_state, i, j, getEntryMatrix(m, i, j));", "          for (j = 0; j < gNumObservations; j++) {\n            double v = getEntryMatrix(m, i, j);\n            dtAdd(node->action, node->cur_state, i, j, v);")]),
    ("q-m04-row", "M04", [(SM, "      if (accumulate)\n        cur_node->value += value;\n      else\n        cur_node->value = value;\n\n      return (row);", "      cur_node->value = accumulate ? cur_node->value + value : value;\n      return (row);")]),
]
