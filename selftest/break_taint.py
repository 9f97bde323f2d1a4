Y, FP, MP, SL, LM = "parsers/pomdp_spec.y", "parsers/FastParser.cc", "pomdpBounds/MaxPlanesLowerBound.cc", "search/StateLog.cc", "pomdpModels/lifeSurvey/LSModelFile.cc"
M = [
    ("m05-t-s", "M05", [(FP, "a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || sp < 0 ||\n            sp >= p.numStates", "a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || sp < 0")]),
    ("m05-t-a", "M05", [(FP, "            a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || sp < 0 ||", "            a >= p.numActions || s < 0 || s >= p.numStates || sp < 0 ||")]),
    ("m05-r-le", "M05", [(FP, "            a >= p.numActions || s < 0 || s >= p.numStates) {", "            a > p.numActions || s < 0 || s >= p.numStates) {")]),
    ("m05-nstates", "M05", [(FP, "p.numStates <= 0", "p.numStates == 0")]),
    ("m05-start", "M05", [(FP, "if (1 != sscanf(data, \"start: %d\", &startState) || startState < 0 ||\n        startState >= p.numStates) {", "if (1 != sscanf(data, \"start: %d\", &startState) || startState < 0) {")]),
    ("m05-y-state", "M05", [(Y, "                      || ($1->theValue.theInt >= gNumStates)) {", "                      || ($1->theValue.theInt > gNumStates)) {")]),
    ("m05-y-name", "M05", [(Y, "if((num < 0) || (num >= gNumActions)) {", "if(num >= gNumActions) {")]),
    ("m05-y-obs", "M05", [(Y, "                   if (($1->theValue.theInt < 0)\n                      || ($1->theValue.theInt >= gNumObservations)) {", "                   if ($1->theValue.theInt < 0) {")]),
    ("m05-y-neg", "M05", [(Y, "if (gNumStates < 1) {", "if (gNumStates == 0) {")]),
    ("m05-y-wild", "M05", [(Y, "  if (i < 0) {\n    minS = 0;\n    maxS = gNumStates - 1;\n  } else\n    minS = maxS = i;", "  minS = maxS = i;")]),
    ("m05-y-cols", "M05", [(Y, "      if (curCol < gNumObservations) {\n\n        for", "      if (curCol <= gNumObservations) {\n\n        for")]),
    ("m05-y-rows", "M05", [(Y, "    if (curRow < gNumStates) {\n      for", "    if (curRow <= gNumStates) {\n      for")]),
    ("m05-pol-act", "M05", [(MP, " &&\n            plane.action >= 0 && plane.action < pomdp->numActions) {", ") {")]),
    ("m05-pol-entry", "M05", [(MP, "entryIndex >= 0 && entryIndex < pomdp->numStates", "entryIndex < pomdp->numStates")]),
    ("m05-log", "M05", [(SL, "id >= static_cast<int>(index->entries.size())", "id > static_cast<int>(index->entries.size())")]),
    ("m05-idx", "M05", [(SL, "|| id < 0 ||\n          id >= numStateDimensions", "|| id < 0")]),
    ("m05-ls", "M05", [(LM, "startX < 0 || startX >= static_cast<int>(grid.width) || ", "startX >= static_cast<int>(grid.width) || ")]),
    ("m05-alpha", "M05", [(MP, "if (plane.action < 0 || plane.action >= pomdp->numActions) {", "if (plane.action < 0) {")]),
]
