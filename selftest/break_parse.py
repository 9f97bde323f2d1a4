Y, FP, IR, DT, SM = "parsers/pomdp_spec.y", "parsers/FastParser.cc", "parsers/imm-reward.c", "parsers/decision-tree.c", "parsers/sparse-matrix.c"
CP = "parsers/CassandraParser.cc"
SL = "common/sla.h"
M = [
    ("m03-act0", "M03", [(Y, "for (a = 0; a < gNumActions; a++)\n    for (i = 0; i < gNumStates; i++) {\n      sum", "for (a = 1; a < gNumActions; a++)\n    for (i = 0; i < gNumStates; i++) {\n      sum")]),
    ("m03-low", "M03", [(Y, "if ((sum < (1.0 - EPSILON)) || (sum > (1.0 + EPSILON))) {\n        snprintf(str, sizeof(str), \"action=%d, state=%d (%.5lf)\", a, i", "if ((sum > (1.0 + EPSILON))) {\n        snprintf(str, sizeof(str), \"action=%d, state=%d (%.5lf)\", a, i")]),
    ("m03-eps", "M03", [(Y, "#define EPSILON 0.00001", "#define EPSILON 0.1")]),
    ("m03-obs0", "M03", [(Y, "sum = sumIMatrixRowValues(IR[a], j);", "sum = sumIMatrixRowValues(IP[a], j);")]),
    ("m03-obsrow", "M03", [(Y, "for (j = 0; j < gNumStates; j++) {\n        sum", "for (j = 0; j < gNumStates - 1; j++) {\n        sum")]),
    ("m03-nocheck", "M03", [(Y, "                     checkProbs();", "                     if (gNumStates < 10000) checkProbs();")]),
    ("m03-start", "M03", [(Y, "if ((prob < (1.0 - EPSILON)) || (prob > (1.0 + EPSILON))) {\n      ERR_enter(\"Parser<endStartStates>:\", NO_LINE", "if (prob > (1.0 + EPSILON)) {\n      ERR_enter(\"Parser<endStartStates>:\", NO_LINE")]),
    ("m03-prob", "M03", [(Y, "if(($$ < 0.0) || ($$ > 1.0))", "if($$ > 1.0)")]),
    ("m03-fast-abs", "M03", [(FP, "if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {\n        fprintf", "if (sum(checkTmp) - 1.0 > POMDP_READ_ERROR_EPS) {\n        fprintf")]),
    ("m03-fast-obs", "M03", [(FP, "copy_from_column(checkTmp, checkObs, s);", "copy_from_column(checkTmp, p.Ttr[a], s);")]),
    ("m03-fast-belief", "M03", [(FP, "if (fabs(sum(p.initialBelief) - 1.0) > POMDP_READ_ERROR_EPS)", "if (fabs(sum(p.initialBelief) - 1.0) > 0.5)")]),
    ("m03-fast-state", "M03", [(FP, "FOR(s, p.numStates) {\n      copy_from_column(checkTmp, p.Ttr", "for (int s = 1; s < p.numStates; s++) {\n      copy_from_column(checkTmp, p.Ttr")]),
    ("m03-fast-neg", "M03", [(FP, "sp >= p.numStates || !(prob >= 0.0)", "sp >= p.numStates")]),
    ("m03-fast-negstart", "M03", [(FP, "if (!(val >= 0.0)) {", "if (!(val >= -1.0)) {")]),
    ("m03-sum", "M03", [(SM, "sum += temp->value;", "sum = temp->value;")]),
    ("m04-first", "M04", [(SM, "        cur_node->value = value;\n", "        ;\n")]),
    ("m04-zero", "M04", [(SM, "return (removeRowNode(row, col, count));", "return (row);")]),
    ("m04-headzero", "M04", [(SM, "  if (row->column == col) {\n    temp_node = row;\n    row = row->next;\n    free(temp_node);\n    (*count)--;\n    return (row);", "  if (row->column == col) {\n    return (row);")]),
    ("m04-wild", "M04", [(Y, "minI = 0;\n    maxI = gNumStates - 1;", "minI = 0;\n    maxI = gNumStates - 2;")]),
    ("m04-wildobs", "M04", [(Y, "maxObs = gNumObservations - 1;", "maxObs = minObs;")]),
    ("m04-swapIJ", "M04", [(Y, "addEntryToIMatrix(IP[a], curRow, curCol, value);", "addEntryToIMatrix(IP[a], curCol, curRow, value);")]),
    ("m04-uniform", "M04", [(Y, "prob = 1.0 / gNumObservations;", "prob = 1.0 / gNumStates;")]),
    ("m04-ident", "M04", [(Y, "          else\n            addEntryToIMatrix(IP[a], i, j, 0.0);", "")]),
    ("m04-reset", "M04", [(Y, "addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);", "if (j == gInitialState) addEntryToIMatrix(IP[a], i, j, 1.0);")]),
    ("m04-rzero", "M04", [(IR, "dtAdd(node->action, node->cur_state, i, j, getEntryMatrix(m, i, j));", "if (getEntryMatrix(m, i, j) != 0.0) dtAdd(node->action, node->cur_state, i, j, getEntryMatrix(m, i, j));")]),
    ("m04-dtdef", "M04", [(DT, "*entryP = dtDeepCopyNode(node->data.subTree.defaultEntry);", "*entryP = NULL;")]),
    ("m04-dtall", "M04", [(DT, "for (i = 0; i < gTableSizes[index]; i++) {\n      if (NULL", "for (i = 1; i < gTableSizes[index]; i++) {\n      if (NULL")]),
    ("m04-dtnodef", "M04", [(DT, "    node->data.subTree.defaultEntry =\n        dtAddInternal(node->data.subTree.defaultEntry, vec, index + 1, val);\n", "")]),
    ("m04-stable", "M04", [(SL, "std::stable_sort(", "std::sort(")]),
    ("m04-fastzero", "M04", [(FP, "kmatrix_set_entry(Tx[a], s, sp, prob);", "if (prob > 0.0) kmatrix_set_entry(Tx[a], s, sp, prob);")]),
    ("m04-startwild", "M04", [(Y, "minS = 0;\n    maxS = gNumStates - 1;", "minS = 0;\n    maxS = 0;")]),
]
