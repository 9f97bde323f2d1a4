Y, FP, MP, SL, LM = "parsers/pomdp_spec.y", "parsers/FastParser.cc", "pomdpBounds/MaxPlanesLowerBound.cc", "search/StateLog.cc", "pomdpModels/lifeSurvey/LSModelFile.cc"
M = [
    ("q-m05-helper", "M05", [(FP, "void FastParser::readModelFromStream(", "static bool inRange(int x, int n) { return x >= 0 && x < n; }\nvoid FastParser::readModelFromStream("),
        (FP, "            a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || sp < 0 ||\n            sp >= p.numStates ||", "            !inRange(a, p.numActions) || !inRange(s, p.numStates) ||\n            !inRange(sp, p.numStates) ||")]),
    ("q-m05-form", "M05", [(FP, "            a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || sp < 0 ||\n            sp >= p.numStates ||", "            !(0 <= a && a < p.numActions) || !(0 <= s && s <= p.numStates - 1) || sp < 0 ||\n            p.numStates <= sp ||")]),
    ("q-m05-var", "M05", [(SL, "    if (1 != sscanf(s.c_str(), \"%d\", &id) || id < 0 ||\n        id >= static_cast<int>(index->entries.size())) {", "    bool ok = 1 == sscanf(s.c_str(), \"%d\", &id);\n    if (ok) ok = id >= 0 && id < static_cast<int>(index->entries.size());\n    if (!ok) {")]),
    ("q-m05-copy", "M05", [(MP, "plane.alpha.push_back(entryIndex, entryVal);", "int where = entryIndex;\n          plane.alpha.push_back(where, entryVal);")]),
    ("q-m05-two", "M05", [(FP, "        if (3 != sscanf(buf, rFormat, &a, &s, &reward) || a < 0 ||\n            a >= p.numActions || s < 0 || s >= p.numStates) {", "        bool bad = 3 != sscanf(buf, rFormat, &a, &s, &reward);\n        if (!bad && (a < 0 || a >= p.numActions)) bad = true;\n        if (!bad && (s < 0 || s >= p.numStates)) bad = true;\n        if (bad) {")]),
    ("q-m05-y", "M05", [(Y, "                   if (($1->theValue.theInt < 0)\n                      || ($1->theValue.theInt >= gNumObservations)) {\n                      ERR_enter(\"Parser<ytab>:\", currentLineNumber,\n                                BAD_OBS_VAL, \"\");\n                      $$ = 0;\n                   }\n                   else\n                      $$ = $1->theValue.theInt;", "                   if ($1->theValue.theInt >= 0\n                      && $1->theValue.theInt < gNumObservations)\n                      $$ = $1->theValue.theInt;\n                   else {\n                      ERR_enter(\"Parser<ytab>:\", currentLineNumber,\n                                BAD_OBS_VAL, \"\");\n                      $$ = 0;\n                   }")]),
    ("q-m05-y2", "M05", [(Y, "                   if((num < 0) || (num >= gNumActions)) {", "                   if(num == -1) num = gNumActions;\n                   if((num < 0) || (num >= gNumActions)) {")]),
]
