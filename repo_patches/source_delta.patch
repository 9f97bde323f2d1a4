From fe93db7a40ffdefb28742dd283ced6bdcc079544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 01/49] fix: sawtooth backup never raises the upper bound of a
 node

SawtoothUpperBound::update() replaced cn.ubVal by the newly backed up value
even when that value is larger (seen on three_state.pomdp and term3.pomdp).
---
 src/pomdpBounds/SawtoothUpperBound.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 033e627..171b3db 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -74,7 +74,9 @@ void SawtoothUpperBound::initNodeBound(MDPNode &cn) {
 }
 
 void SawtoothUpperBound::update(MDPNode &cn, int *maxUBActionP) {
-  double newUBVal = getNewUBValue(cn, maxUBActionP);
+  // the sawtooth interpolation is not always improved by a backup, so make
+  // sure the bound at cn never gets looser
+  double newUBVal = std::min(cn.ubVal, getNewUBValue(cn, maxUBActionP));
   setUBForNode(cn, newUBVal, true);
 }
 
-- 
2.43.0


From 728702fcd1d546192bd0bdc93d6b9bcc5e54e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 02/49] fix: getSimulatedOutcome never returns an impossible
 outcome

---
 src/bounds/BoundPairCore.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bounds/BoundPairCore.cc b/src/bounds/BoundPairCore.cc
index 9fcf7e0..759ed79 100644
--- a/src/bounds/BoundPairCore.cc
+++ b/src/bounds/BoundPairCore.cc
@@ -62,14 +62,15 @@ int BoundPairCore::getMaxUBAction(MDPNode &cn) {
 
 int BoundPairCore::getSimulatedOutcome(MDPNode &cn, int a) {
   double r = unit_rand();
-  int result = 0;
+  int result = -1;
   MDPQEntry &Qa = cn.Q[a];
   FOR(o, Qa.getNumOutcomes()) {
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
+      // if rounding keeps r positive to the end, the last possible outcome is used
+      result = o;
       r -= e->obsProb;
       if (r <= 0) {
-        result = o;
         break;
       }
     }
-- 
2.43.0


From fbc3f078c0d2be2fdb4255d950362dee0b84d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 03/49] fix: report output files that cannot be opened (test
 the stream, not the pointer)

---
 src/exec/PolicyEvaluator.cc | 2 +-
 src/main/TestDriver.cc      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 83ffa45..163cf61 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -84,7 +84,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   if (verbose) {
     scoresOutFile = new ofstream(scoresOutputFile.c_str());
-    if (!scoresOutFile) {
+    if (!(*scoresOutFile)) {
       fprintf(stderr, "ERROR: couldn't open %s for writing: %s\n",
               scoresOutputFile.c_str(), strerror(errno));
       exit(EXIT_FAILURE);
diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 0549add..fb769e8 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -84,8 +84,8 @@ void TestDriver::batchTestIncremental(
   string storageOutputFileName = config.getString("storageOutputFile");
   if (storageOutputFileName != "none") {
     storageOutputFile = new ofstream(storageOutputFileName.c_str());
-    if (!storageOutputFile) {
-      cerr << "ERROR: couldn't open " << storageOutputFile
+    if (!(*storageOutputFile)) {
+      cerr << "ERROR: couldn't open " << storageOutputFileName
            << " for writing: " << strerror(errno) << endl;
       exit(EXIT_FAILURE);
     }
-- 
2.43.0


From cfd09022ac80bf6412b75880417791e489654b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 04/49] fix: stop reading when a line read fails, and keep a
 last line without newline

---
 src/common/zmdpConfig.cc               |  9 ++++++---
 src/pomdpBounds/MaxPlanesLowerBound.cc |  8 ++++++--
 src/search/StateLog.cc                 | 16 ++++++++++++----
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 806fe72..8608583 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -78,10 +78,8 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
 
   char buf[1024], field[1024], val[1024];
   int lnum = 0;
-  while (1) {
-    in.getline(buf, sizeof(buf));
+  while (in.getline(buf, sizeof(buf))) {
     lnum++;
-    if (in.eof()) break;
     if (allWhiteSpace(buf)) continue;
     if ('#' == buf[0]) continue;
     if (0 == strncmp(buf, "alias", 5)) {
@@ -125,6 +123,11 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
       setString(field, val);
     }
   }
+  if (!in.eof()) {
+    fprintf(stderr, "ERROR: %s:%d: line too long or read failure\n",
+            sourceName.c_str(), lnum + 1);
+    exit(EXIT_FAILURE);
+  }
 }
 
 void ZMDPConfig::readFromFile(const std::string &fname) {
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index abd2778..d1d559f 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -588,8 +588,7 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
   double entryVal;
   int parseState = 0;
   int lnum = 0;
-  while (!inFile.eof()) {
-    inFile.getline(buf, sizeof(buf));
+  while (inFile.getline(buf, sizeof(buf))) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
@@ -659,6 +658,11 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
         assert(0);  // never reach this point
     }
   }
+  if (!inFile.eof()) {
+    fprintf(stderr, "ERROR: %s: line %d: line too long or read failure\n",
+            inFileName.c_str(), lnum + 1);
+    exit(EXIT_FAILURE);
+  }
 
   /* reached EOF, finish up the last plane */
   if (2 == parseState) {
diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index cd31ca8..9f3e383 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -121,8 +121,7 @@ void StateIndex::readFromFile(const std::string &inFile) {
   int id;
   double val;
   int lnum = 0;
-  while (!in.eof()) {
-    in.getline(buf, sizeof(buf));
+  while (in.getline(buf, sizeof(buf))) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
@@ -146,6 +145,11 @@ void StateIndex::readFromFile(const std::string &inFile) {
       accum.push_back(id, val);
     }
   }
+  if (!in.eof()) {
+    fprintf(stderr, "ERROR: %s:%d: line too long or read failure\n",
+            inFile.c_str(), lnum + 1);
+    exit(EXIT_FAILURE);
+  }
 
   // fold in last state
   if (accum.filled() > 0) {
@@ -271,8 +275,7 @@ void StateLog::readFromFile(const std::string &inFile) {
   std::string s;
   int id;
   int lnum = 0;
-  while (!in.eof()) {
-    in.getline(buf, sizeof(buf));
+  while (in.getline(buf, sizeof(buf))) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
@@ -287,6 +290,11 @@ void StateLog::readFromFile(const std::string &inFile) {
     }
     entries.push_back(id);
   }
+  if (!in.eof()) {
+    fprintf(stderr, "ERROR: %s:%d: line too long or read failure\n",
+            inFile.c_str(), lnum + 1);
+    exit(EXIT_FAILURE);
+  }
 
   if (zmdpDebugLevelG >= 1) {
     printf("read log of %d backups from %s\n", static_cast<int>(entries.size()),
-- 
2.43.0


From 85ce500a1a0d04efa6aec0226ec8e54278fac8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 05/49] fix: check every value read from an alpha-vector file

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index d1d559f..77ff6d2 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -695,16 +695,28 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
   mask_set_all(plane.mask, pomdp->numStates);
   plane.numBackupsAtCreation = -1;
 
-  while (!inFile.eof()) {
-    inFile >> plane.action;
+  while (inFile >> plane.action) {
+    if (plane.action < 0 || plane.action >= pomdp->numActions) {
+      cerr << "ERROR: " << inFileName << ": action " << plane.action
+           << " is out of range" << endl;
+      exit(EXIT_FAILURE);
+    }
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
-      inFile >> val;
+      if (!(inFile >> val)) {
+        cerr << "ERROR: " << inFileName << ": expected " << pomdp->numStates
+             << " entries in each alpha vector" << endl;
+        exit(EXIT_FAILURE);
+      }
       plane.alpha.push_back(i, val);
     }
     addLBPlane(new LBPlane(plane));
   }
+  if (!inFile.eof()) {
+    cerr << "ERROR: " << inFileName << ": expected '<action>'" << endl;
+    exit(EXIT_FAILURE);
+  }
 
   inFile.close();
 
-- 
2.43.0


From f2b28af4c3620d4997249b8b0fbe387b301e16c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 06/49] fix: reject out-of-range indices in policy and log
 files

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 6 ++++--
 src/search/StateLog.cc                 | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 77ff6d2..bb79a60 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -625,7 +625,8 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
       case 1:
         /* at the start of a plane, read the action */
         if (string::npos != s.find("action") &&
-            (1 == sscanf(s.c_str(), "action => %d", &plane.action))) {
+            (1 == sscanf(s.c_str(), "action => %d", &plane.action)) &&
+            plane.action >= 0 && plane.action < pomdp->numActions) {
           plane.alpha.resize(pomdp->numStates);
           parseState = 2;
         } else {
@@ -643,7 +644,8 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
           addLBPlane(new LBPlane(plane));
           parseState = 1;
           goto parseLineAgain;
-        } else if (2 == sscanf(s.c_str(), "%d, %lf", &entryIndex, &entryVal)) {
+        } else if (2 == sscanf(s.c_str(), "%d, %lf", &entryIndex, &entryVal) &&
+                   entryIndex >= 0 && entryIndex < pomdp->numStates) {
           /* push another entry into the plane */
           plane.alpha.push_back(entryIndex, entryVal);
         } else {
diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index 9f3e383..dd04042 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -136,7 +136,8 @@ void StateIndex::readFromFile(const std::string &inFile) {
         accum.clear();
       }
     } else {
-      if (2 != sscanf(s.c_str(), "%d %lf", &id, &val)) {
+      if (2 != sscanf(s.c_str(), "%d %lf", &id, &val) || id < 0 ||
+          id >= numStateDimensions) {
         fprintf(stderr,
                 "ERROR: %s:%d: syntax error, expected '<index> <val>'\n",
                 inFile.c_str(), lnum);
@@ -283,7 +284,8 @@ void StateLog::readFromFile(const std::string &inFile) {
     if (0 == s.size()) continue;
     if ('#' == s[0]) continue;
 
-    if (1 != sscanf(s.c_str(), "%d", &id)) {
+    if (1 != sscanf(s.c_str(), "%d", &id) || id < 0 ||
+        id >= static_cast<int>(index->entries.size())) {
       fprintf(stderr, "ERROR: %s:%d: syntax error, expected '<index>'\n",
               inFile.c_str(), lnum);
       exit(EXIT_FAILURE);
-- 
2.43.0


From 6778267597d521b702b7a4252c4f066b6204a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 07/49] fix: fast parser stops when a preamble statement is
 missing

---
 src/parsers/FastParser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index b874219..58c5c00 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -201,6 +201,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     cerr << "ERROR: " << p.fileName << ": line " << lineNumber            \
          << ": at end of preamble, no '" << (NAME) << "' statement found" \
          << endl;                                                         \
+    exit(EXIT_FAILURE);                                                   \
   }
 
         FP_CHECK_SET(discountSet, "discount");
@@ -276,6 +277,11 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 
     lineNumber++;
   }
+  if (inPreamble) {
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+         << ": end of file reached before any T, O, or R statement" << endl;
+    exit(EXIT_FAILURE);
+  }
 
   // post-process
   copy(p.R, Rx);
-- 
2.43.0


From 6e79dc07a3671fc89a829b69ee05679041f6f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 08/49] fix: fast parser bounds the length of the 'values' word

---
 src/parsers/FastParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 58c5c00..37691fa 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -144,7 +144,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         discountSet = true;
       } else if (PM_PREFIX_MATCHES("values:")) {
-        if (1 != sscanf(buf, "values: %s", sbuf)) {
+        if (1 != sscanf(buf, "values: %511s", sbuf)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'values' statement" << endl;
           exit(EXIT_FAILURE);
-- 
2.43.0


From 75158f089aad228bbbd513241fe1c70cac194c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 09/49] fix: fast parser checks every count and index it reads

---
 src/parsers/FastParser.cc | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 37691fa..5e8b767 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -158,7 +158,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         valuesSet = true;
       } else if (PM_PREFIX_MATCHES("actions:")) {
-        if (1 != sscanf(buf, "actions: %d", &p.numActions)) {
+        if (1 != sscanf(buf, "actions: %d", &p.numActions) ||
+            p.numActions <= 0) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'actions' statement" << endl;
           exit(EXIT_FAILURE);
@@ -166,7 +167,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         numActionsSet = true;
       } else if (PM_PREFIX_MATCHES("observations:")) {
         if (expectPomdp) {
-          if (1 != sscanf(buf, "observations: %d", &p.numObservations)) {
+          if (1 != sscanf(buf, "observations: %d", &p.numObservations) ||
+              p.numObservations <= 0) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in 'observations' statement" << endl;
             exit(EXIT_FAILURE);
@@ -178,7 +180,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d", &p.numStates)) {
+        if (1 != sscanf(buf, "states: %d", &p.numStates) || p.numStates <= 0) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
@@ -237,7 +239,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       if (PM_PREFIX_MATCHES("R:")) {
         int s, a;
         double reward;
-        if (3 != sscanf(buf, rFormat, &a, &s, &reward)) {
+        if (3 != sscanf(buf, rFormat, &a, &s, &reward) || a < 0 ||
+            a >= p.numActions || s < 0 || s >= p.numStates) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in R statement\n"
                << "  (expected format is '" << rFormat << "')" << endl;
@@ -247,7 +250,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d %lf", &a, &s, &sp, &prob)) {
+        if (4 != sscanf(buf, "T: %d : %d : %d %lf", &a, &s, &sp, &prob) ||
+            a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || sp < 0 ||
+            sp >= p.numStates) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
@@ -257,7 +262,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         if (expectPomdp) {
           int s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d %lf", &a, &s, &o, &prob)) {
+          if (4 != sscanf(buf, "O: %d : %d : %d %lf", &a, &s, &o, &prob) ||
+              a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || o < 0 ||
+              o >= p.numObservations) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
@@ -370,7 +377,7 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
 
     int i;
     char *tok, *saveptr = NULL;
-    double val;
+    double val, firstVal = 0.0;
 
     p.initialBelief.resize(p.numStates);
 
@@ -382,9 +389,10 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
         tok = strtok_r(NULL, " ", &saveptr);
       }
       if (NULL == tok) {
-        if (0 == i) {
-          double startState = atof(tok);
-          if (startState != floor(startState)) {
+        if (1 == i) {
+          double startState = firstVal;
+          if (startState != floor(startState) || startState < 0 ||
+              startState >= p.numStates) {
             cout << "ERROR: " << p.fileName
                  << ": POMDP 'start' statement must either contain a single "
                     "integer "
@@ -393,6 +401,7 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
                  << "all states" << endl;
             exit(EXIT_FAILURE);
           }
+          p.initialBelief.resize(p.numStates);
           p.initialBelief.push_back(static_cast<int>(startState), 1.0);
           return;
         } else {
@@ -407,6 +416,9 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
       }
 
       val = atof(tok);
+      if (0 == i) {
+        firstVal = val;
+      }
       if (val > SPARSE_EPS) {
         p.initialBelief.push_back(i, val);
       }
@@ -425,7 +437,8 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
 
     p.initialState.resize(1);
     int startState;
-    if (1 != sscanf(data, "start: %d", &startState)) {
+    if (1 != sscanf(data, "start: %d", &startState) || startState < 0 ||
+        startState >= p.numStates) {
       cout << "ERROR: " << p.fileName
            << ": MDP 'start' statement must contain a single integer "
            << "specifying a known start state" << endl;
-- 
2.43.0


From fb1351fcf113649bf4dd9a2cbddd3512a8603959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 10/49] fix: report output files that could not be written
 completely

---
 src/common/embedFiles.h                      |  8 ++++--
 src/common/sla.h                             |  5 ++++
 src/exec/PolicyEvaluator.cc                  | 15 +++++++++++
 src/main/TestDriver.cc                       | 20 ++++++++++++++
 src/pomdpBounds/MaxPlanesLowerBound.cc       |  5 ++++
 src/pomdpModels/lifeSurvey/dumpMap.cc        |  6 ++++-
 src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc |  5 ++++
 src/search/StateLog.cc                       | 28 ++++++++++++++++++++
 8 files changed, 89 insertions(+), 3 deletions(-)

diff --git a/src/common/embedFiles.h b/src/common/embedFiles.h
index 5b69244..51cc48e 100644
--- a/src/common/embedFiles.h
+++ b/src/common/embedFiles.h
@@ -47,8 +47,12 @@ inline void embedWriteToFile(const char *fileName, const embed_buffer_t &buf) {
             strerror(errno));
     exit(EXIT_FAILURE);
   }
-  fwrite(buf.data, 1, buf.size, outFile);
-  fclose(outFile);
+  size_t numWritten = fwrite(buf.data, 1, buf.size, outFile);
+  if (0 != fclose(outFile) || numWritten != buf.size) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n", fileName,
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 }
 
 #endif  // ZMDP_SRC_COMMON_EMBEDFILES_H_
diff --git a/src/common/sla.h b/src/common/sla.h
index 676163d..28d0088 100644
--- a/src/common/sla.h
+++ b/src/common/sla.h
@@ -1163,6 +1163,11 @@ void write_to_file(const T &x, const std::string &file_name) {
   }
   x.write(out);
   out.close();
+  if (!out) {
+    std::cerr << "ERROR: couldn't write " << file_name << ": "
+              << strerror(errno) << std::endl;
+    exit(EXIT_FAILURE);
+  }
 }
 
 }  // namespace sla
diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 163cf61..463504b 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -117,6 +117,21 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   successRate = successRateSum / numBatches;
 
+  simOutFile->close();
+  if (!(*simOutFile)) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n",
+            simulationTraceOutputFile.c_str(), strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+  if (NULL != scoresOutFile) {
+    scoresOutFile->close();
+    if (!(*scoresOutFile)) {
+      fprintf(stderr, "ERROR: couldn't write %s: %s\n",
+              scoresOutputFile.c_str(), strerror(errno));
+      exit(EXIT_FAILURE);
+    }
+  }
+
   // cleanup
 #define DELETE_AND_NULL(x) \
   if (NULL != (x)) {       \
diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index fb769e8..f8e0790 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -238,10 +238,30 @@ void TestDriver::batchTestIncremental(
     }
   }
   incPlotFile.close();
+  if (!incPlotFile) {
+    cerr << "ERROR: couldn't write " << incPlotFileName << ": "
+         << strerror(errno) << endl;
+    exit(EXIT_FAILURE);
+  }
   boundsFile.close();
+  if (!boundsFile) {
+    cerr << "ERROR: couldn't write " << boundsFileName << ": "
+         << strerror(errno) << endl;
+    exit(EXIT_FAILURE);
+  }
   simOutFile.close();
+  if (!simOutFile) {
+    cerr << "ERROR: couldn't write " << simFileName << ": "
+         << strerror(errno) << endl;
+    exit(EXIT_FAILURE);
+  }
   if (storageOutputFile) {
     storageOutputFile->close();
+    if (!(*storageOutputFile)) {
+      cerr << "ERROR: couldn't write " << storageOutputFileName << ": "
+           << strerror(errno) << endl;
+      exit(EXIT_FAILURE);
+    }
   }
 
   so.solver->finishLogging();
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index bb79a60..3ab1ffa 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -571,6 +571,11 @@ void MaxPlanesLowerBound::writeToFile(const std::string &outFileName) const {
   out << "}" << endl;
 
   out.close();
+  if (!out) {
+    cerr << "ERROR: couldn't write " << outFileName << ": " << strerror(errno)
+         << endl;
+    exit(EXIT_FAILURE);
+  }
 }
 
 void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
diff --git a/src/pomdpModels/lifeSurvey/dumpMap.cc b/src/pomdpModels/lifeSurvey/dumpMap.cc
index 4793101..de17301 100644
--- a/src/pomdpModels/lifeSurvey/dumpMap.cc
+++ b/src/pomdpModels/lifeSurvey/dumpMap.cc
@@ -135,7 +135,11 @@ int main(int argc, char *argv[]) {
       }
     }
   }
-  fclose(mapDumpFile);
+  if (ferror(mapDumpFile) || 0 != fclose(mapDumpFile)) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n", mapDumpFileName.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 
   printf("done writing %s\n", mapDumpFileName.c_str());
 }
diff --git a/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc b/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
index 0610459..fc1f84a 100644
--- a/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
@@ -149,6 +149,11 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   m.writeToFile(pomdpFile, fullIdentifiers);
+  if (ferror(pomdpFile) || 0 != fclose(pomdpFile)) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n", pomdpFileName.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 
   printf("done writing %s\n", pomdpFileName.c_str());
 }
diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index dd04042..4267e6e 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -98,6 +98,13 @@ void StateIndex::writeToFile(const std::string &outFile) const {
     }
   }
 
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n", outFile.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote index of %d states to %s\n", static_cast<int>(entries.size()),
            outFile.c_str());
@@ -190,6 +197,13 @@ void StateIndex::writeBoundValuesToFile(const std::string &outFile,
         << intv.u << endl;
   }
 
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n", outFile.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote bound values for %d states to %s\n",
            static_cast<int>(entries.size()), outFile.c_str());
@@ -226,6 +240,13 @@ void StateIndex::writeQValuesToFile(const std::string &outFile,
     }
   }
 
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n", outFile.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote bound values for %d states to %s\n",
            static_cast<int>(entries.size()), outFile.c_str());
@@ -256,6 +277,13 @@ void StateLog::writeToFile(const std::string &outFile) const {
 
   FOR_EACH(e, entries) { out << (*e) << endl; }
 
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n", outFile.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote log of %d backups to %s\n", static_cast<int>(entries.size()),
            outFile.c_str());
-- 
2.43.0


From 1b59cc9e8b691347fb3253fe36b208b6bcb17796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 11/49] fix: survey model file keeps the last character of a
 last line without newline

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index b6df89d..63de2b2 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -212,6 +212,12 @@ int LSGrid::getMaxCellValue(void) {
 
 LSModelFile::LSModelFile(void) : startX(-1), startY(-1) {}
 
+// the last line of a file may lack the newline
+static void truncateNewline(char *s) {
+  size_t n = strlen(s);
+  if (n > 0 && '\n' == s[n - 1]) s[n - 1] = '\0';
+}
+
 void LSModelFile::readFromFile(const std::string &fname) {
   FILE *modelFile = fopen(fname.c_str(), "r");
   if (NULL == modelFile) {
@@ -232,7 +238,7 @@ void LSModelFile::readFromFile(const std::string &fname) {
     if (strlen(lbuf) <= 1) continue;
     if ('#' == lbuf[0]) continue;
     if ('-' == lbuf[0]) goto preambleDone;
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate newline
+    truncateNewline(lbuf);
     if (2 != sscanf(lbuf, "%s %[-0-9.eE \t]", key, value)) {
       fprintf(stderr,
               "ERROR: %s: line %d: syntax error, expected '<key> <value>'\n",
@@ -283,7 +289,7 @@ preambleDone:
         exit(EXIT_FAILURE);
       }
     }
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate trailing newline
+    truncateNewline(lbuf);
     rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
   }
 
-- 
2.43.0


From 3b466803a7de58843eac1b5c68595f71a3deda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 12/49] fix: accept the documented value 'maxPlanes' of
 lowerBoundRepresentation

---
 src/main/solverUtils.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index d53cb5b..04335c8 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -57,8 +57,12 @@ static EnumEntry modelTypeTableG[] = {{"-", -1},
                                       {"custom", T_CUSTOM},
                                       {NULL, -1}};
 
-static EnumEntry lowerBoundRepresentationTableG[] = {
-    {"-", -1}, {"point", V_POINT}, {"convex", V_MAXPLANES}, {NULL, -1}};
+// 'convex' is the name older versions used for 'maxPlanes'
+static EnumEntry lowerBoundRepresentationTableG[] = {{"-", -1},
+                                                     {"point", V_POINT},
+                                                     {"maxPlanes", V_MAXPLANES},
+                                                     {"convex", V_MAXPLANES},
+                                                     {NULL, -1}};
 
 static EnumEntry upperBoundRepresentationTableG[] = {
     {"-", -1}, {"point", V_POINT}, {"sawtooth", V_SAWTOOTH}, {NULL, -1}};
-- 
2.43.0


From fad7cda644e97965deeaba80f9a475f9304517e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 13/49] fix: refuse option values that are not of the option's
 type

---
 src/common/zmdpConfig.cc | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 8608583..4da1b30 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -166,20 +167,38 @@ const std::string &ZMDPConfig::getString(const std::string &field) const {
 
 int ZMDPConfig::getInt(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like an integer here
-  return atoi(s.c_str());
+  char *end;
+  errno = 0;
+  long val = strtol(s.c_str(), &end, 10);
+  if (end == s.c_str() || *end != '\0' || errno == ERANGE || val < INT_MIN ||
+      val > INT_MAX) {
+    fprintf(stderr, "ERROR: config field '%s' must be an integer, got '%s'\n",
+            field.c_str(), s.c_str());
+    exit(EXIT_FAILURE);
+  }
+  return static_cast<int>(val);
 }
 
 double ZMDPConfig::getDouble(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a double here
-  return atof(s.c_str());
+  char *end;
+  double val = strtod(s.c_str(), &end);
+  if (end == s.c_str() || *end != '\0') {
+    fprintf(stderr, "ERROR: config field '%s' must be a number, got '%s'\n",
+            field.c_str(), s.c_str());
+    exit(EXIT_FAILURE);
+  }
+  return val;
 }
 
 bool ZMDPConfig::getBool(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a boolean value here
-  return (0 != atoi(s.c_str()));
+  if (s != "0" && s != "1") {
+    fprintf(stderr, "ERROR: config field '%s' must be 0 or 1, got '%s'\n",
+            field.c_str(), s.c_str());
+    exit(EXIT_FAILURE);
+  }
+  return s == "1";
 }
 
 bool ZMDPConfig::defined(const std::string &field) const {
-- 
2.43.0


From 871c2b5edeb5156598389d05c675a1f685e5eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 14/49] fix: refuse maxPlanes options whose prerequisites are
 off

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 3ab1ffa..d6d7667 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -135,6 +135,19 @@ MaxPlanesLowerBound::MaxPlanesLowerBound(const MDP *_pomdp,
   useMaxPlanesCache = config->getBool("useMaxPlanesCache");
   useMaxPlanesExtraPruning = config->getBool("useMaxPlanesExtraPruning");
 
+  if (useMaxPlanesSupportList && !useMaxPlanesMasking) {
+    cerr << "ERROR: useMaxPlanesSupportList=1 requires useMaxPlanesMasking=1 "
+            "(-h for help)"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (useMaxPlanesExtraPruning && !useMaxPlanesCache) {
+    cerr << "ERROR: useMaxPlanesExtraPruning=1 requires useMaxPlanesCache=1 "
+            "(-h for help)"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+
   if (useMaxPlanesSupportList) {
     supportList.resize(pomdp->getBeliefSize());
   }
-- 
2.43.0


From 85dc92665f9305598d345801d3269e71a35b9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 15/49] fix: terminateNumBackups=0 means no limit

---
 src/search/RTDPCore.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index 25fa9d3..4e6e8b6 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -78,7 +78,7 @@ void RTDPCore::planInit(MDP *_problem, const ZMDPConfig *_config) {
   initialized = false;
   targetPrecision = config->getDouble("terminateRegretBound");
   terminateNumBackups = config->getInt("terminateNumBackups");
-  if (terminateNumBackups < 0) {
+  if (terminateNumBackups <= 0) {
     terminateNumBackups = INT_MAX;
   }
   bool useTimeWithoutHeuristic = config->getBool("useTimeWithoutHeuristic");
-- 
2.43.0


From 85c953349e9b3de6f1f45871c54295ed967fed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 16/49] fix: negative evaluationMaxStepsPerTrial means no limit

---
 src/exec/PolicyEvaluator.cc       | 3 +++
 src/exec/PolicyEvaluatorLSHack.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 463504b..72742fc 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -67,6 +67,9 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   useEvaluationCache = config->getBool("useEvaluationCache");
   evaluationTrialsPerEpoch = config->getInt("evaluationTrialsPerEpoch");
   evaluationMaxStepsPerTrial = config->getInt("evaluationMaxStepsPerTrial");
+  if (evaluationMaxStepsPerTrial < 0) {
+    evaluationMaxStepsPerTrial = 0;  // no limit
+  }
   scoresOutputFile = config->getString("scoresOutputFile");
   simulationTraceOutputFile = config->getString("simulationTraceOutputFile");
   simulationTracesToLogPerEpoch =
diff --git a/src/exec/PolicyEvaluatorLSHack.cc b/src/exec/PolicyEvaluatorLSHack.cc
index 28b753a..bfc9f98 100644
--- a/src/exec/PolicyEvaluatorLSHack.cc
+++ b/src/exec/PolicyEvaluatorLSHack.cc
@@ -71,6 +71,9 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   useEvaluationCache = config->getBool("useEvaluationCache");
   evaluationTrialsPerEpoch = config->getInt("evaluationTrialsPerEpoch");
   evaluationMaxStepsPerTrial = config->getInt("evaluationMaxStepsPerTrial");
+  if (evaluationMaxStepsPerTrial < 0) {
+    evaluationMaxStepsPerTrial = 0;  // no limit
+  }
   scoresOutputFile = config->getString("scoresOutputFile");
   simulationTraceOutputFile = config->getString("simulationTraceOutputFile");
   simulationTracesToLogPerEpoch =
-- 
2.43.0


From af834b3008f53e4642cc6aa9d0102001b91a7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 17/49] fix: only a positive maxHorizon is a horizon

---
 src/main/solverUtils.cc        | 4 ++--
 src/mdps/GenericDiscreteMDP.cc | 3 +++
 src/pomdpCore/Pomdp.cc         | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index 04335c8..9d903bc 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -294,9 +294,9 @@ void constructSolverObjects(SolverObjects &obj, SolverParams &p,
   obj.sim = new MDPSim(obj.problem);
 
   if (T_POMDP == p.modelType && obj.problem->getDiscount() >= 1.0 &&
-      -1 == p.maxHorizon) {
+      p.maxHorizon <= 0) {
     cerr << "ERROR: with modelType='pomdp', you must have either discount < 1\n"
-         << "  or maxHorizon defined (i.e. non-negative) in order to generate "
+         << "  or maxHorizon defined (i.e. positive) in order to generate "
             "initial\n"
          << "  bounds (-h for help)" << endl;
     exit(EXIT_FAILURE);
diff --git a/src/mdps/GenericDiscreteMDP.cc b/src/mdps/GenericDiscreteMDP.cc
index f4740c2..092ea4f 100644
--- a/src/mdps/GenericDiscreteMDP.cc
+++ b/src/mdps/GenericDiscreteMDP.cc
@@ -60,6 +60,9 @@ GenericDiscreteMDP::GenericDiscreteMDP(const std::string &fileName,
   numStateDimensions = 1;
 
   maxHorizon = config->getInt("maxHorizon");
+  if (maxHorizon <= 0) {
+    maxHorizon = -1;  // no horizon given
+  }
 }
 
 const state_vector &GenericDiscreteMDP::getInitialState(void) {
diff --git a/src/pomdpCore/Pomdp.cc b/src/pomdpCore/Pomdp.cc
index 9996197..25a2baf 100644
--- a/src/pomdpCore/Pomdp.cc
+++ b/src/pomdpCore/Pomdp.cc
@@ -54,6 +54,9 @@ Pomdp::Pomdp(const std::string &fileName, const ZMDPConfig *config) {
   }
 
   maxHorizon = config->getInt("maxHorizon");
+  if (maxHorizon <= 0) {
+    maxHorizon = -1;  // no horizon given
+  }
 
   // belief vectors are the 'state vectors' of the belief-MDP; the
   // dimensionality of these vectors is the number of states in
-- 
2.43.0


From 8147b3bf28a9bffe03acce369918b4d8d0571f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 18/49] fix: a model without reward lines has reward zero
 everywhere

---
 src/parsers/decision-tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/decision-tree.c b/src/parsers/decision-tree.c
index 7158131..76f4f1c 100644
--- a/src/parsers/decision-tree.c
+++ b/src/parsers/decision-tree.c
@@ -342,6 +342,9 @@ double dtGet(int action, int cur_state, int next_state, int obs) {
   vec[2] = next_state;
   vec[3] = obs;
 
+  /* no reward has been specified at all */
+  if (NULL == gTree) return 0.0;
+
   return dtGetInternal(gTree, vec, 0);
 }
 
-- 
2.43.0


From ba692fddf1851ed647d533405a6e2c1a9ea912bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 19/49] fix: zero entries of a reward matrix replace earlier
 rewards

---
 src/parsers/imm-reward.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index fbd6af2..75d6c22 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -297,12 +297,14 @@ void irAddToDecisionTree(Imm_Reward_List node) {
     case ir_matrix:
       m = node->rep.matrix;
       for (i = 0; i < m->num_rows; i++) {
-        for (j = 0; j < m->row_length[i]; j++) {
-          k = m->row_start[i] + j;
-          if (gProblemType == POMDP_problem_type) { /* pomdp */
-            dtAdd(node->action, node->cur_state, i, m->col[k], m->mat_val[k]);
-          } else { /* mdp */
-            dtAdd(node->action, i, m->col[k], WILDCARD_SPEC, m->mat_val[k]);
+        /* entries that are zero replace earlier rewards too */
+        if (gProblemType == POMDP_problem_type) { /* pomdp */
+          for (j = 0; j < gNumObservations; j++) {
+            dtAdd(node->action, node->cur_state, i, j, getEntryMatrix(m, i, j));
+          }
+        } else { /* mdp */
+          for (j = 0; j < gNumStates; j++) {
+            dtAdd(node->action, i, j, WILDCARD_SPEC, getEntryMatrix(m, i, j));
           }
         }
       }
-- 
2.43.0


From af2a17f5be8ca5a02b8a53fb45597b67bb817b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 20/49] fix: start include/exclude accept the wildcard state

---
 src/parsers/pomdp_spec.y | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 367ff22..c6bf1df 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1349,15 +1349,26 @@ void enterStartState(int i) {
      it is an MDP.
   */
 
+  int s, minS, maxS;
+
   if (gProblemType == MDP_problem_type)
     return;
 
+  /* a wildcard stands for every state */
+  if (i < 0) {
+    minS = 0;
+    maxS = gNumStates - 1;
+  } else
+    minS = maxS = i;
+
   switch (curMatrixContext) {
   case mc_start_include:
-    gInitialBelief[i] = 1.0;
+    for (s = minS; s <= maxS; s++)
+      gInitialBelief[s] = 1.0;
     break;
   case mc_start_exclude:
-    gInitialBelief[i] = 0.0;
+    for (s = minS; s <= maxS; s++)
+      gInitialBelief[s] = 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, BAD_MATRIX_CONTEXT,
-- 
2.43.0


From 46d8929d641da44280071a01c7188d94eb40415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 21/49] fix: the start state of an MDP is checked against the
 number of states

---
 src/parsers/pomdp_spec.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index c6bf1df..d4a07ef 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1171,7 +1171,10 @@ void enterMatrix(double value) {
       gTooManyEntries = 1;
 
     else {
-      gInitialState = (int)value;
+      if ((value < 0) || (value >= gNumStates) || (value != (int)value))
+        ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_STATE_VAL, "");
+      else
+        gInitialState = (int)value;
       curCol++;
     }
     break;
-- 
2.43.0


From a8b5afab5da4477ae9fc25dfcd689284833510b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 22/49] fix: resetting a row of an MDP clears its earlier
 entries

---
 src/parsers/pomdp_spec.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index d4a07ef..ca83cf0 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -972,7 +972,8 @@ void enterResetMatrix() {
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
+        for (j = 0; j < gNumStates; j++)
+          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
-- 
2.43.0


From 0baaf37d3423449ed73af1cbd1ae18d8020c87bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:01 +0000
Subject: [PATCH 23/49] fix: uniform observation rows of an MDP are not entered
 anywhere

---
 src/parsers/pomdp_spec.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index ca83cf0..7696f7c 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -907,6 +907,9 @@ void enterUniformMatrix() {
           addEntryToIMatrix(IP[a], i, j, prob);
     break;
   case mc_obs_row:
+    /* observations in an MDP: already reported, there is no table */
+    if (gProblemType != POMDP_problem_type)
+      break;
     prob = 1.0 / gNumObservations;
     for (a = minA; a <= maxA; a++)
       for (j = minJ; j <= maxJ; j++)
@@ -914,6 +917,8 @@ void enterUniformMatrix() {
           addEntryToIMatrix(IR[a], j, obs, prob);
     break;
   case mc_obs_all:
+    if (gProblemType != POMDP_problem_type)
+      break;
     prob = 1.0 / gNumObservations;
     for (a = minA; a <= maxA; a++)
       for (j = 0; j < gNumStates; j++)
-- 
2.43.0


From d4762549785531dd44354856d53464768d730642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:13 +0000
Subject: [PATCH 24/49] fix: a model of the wrong kind, or an MDP without start
 state, is refused

---
 src/parsers/CassandraParser.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 3c99c76..58c8b89 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -71,6 +71,24 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     exit(EXIT_FAILURE);
   }
 
+  if (expectPomdp && POMDP_problem_type != CASSANDRA_GLOBAL(gProblemType)) {
+    cerr << "ERROR: " << p.fileName
+         << ": expected a POMDP, but the model declares no observations"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (!expectPomdp && MDP_problem_type != CASSANDRA_GLOBAL(gProblemType)) {
+    cerr << "ERROR: " << p.fileName
+         << ": expected an MDP, but the model declares observations" << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (!expectPomdp && CASSANDRA_GLOBAL(gInitialState) < 0) {
+    cerr << "ERROR: " << p.fileName
+         << ": MDP model has no 'start' statement specifying a start state"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+
   // from here forward, we're converting the model from the data structures in
   // Cassandra's library to sla data structures (with the names I'm used to)
   p.discount = CASSANDRA_GLOBAL(gDiscount);
-- 
2.43.0


From edafcd3f2c753d5d55f07993e6a0fd02db0b184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 25/49] fix: costs are negated into rewards

---
 src/parsers/CassandraParser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 58c8b89..c10d555 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -104,6 +104,10 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
   kmatrix Rk;
   copy(Rk, CASSANDRA_GLOBAL(Q), p.numStates);
   kmatrix_transpose_in_place(Rk);
+  if (COST_value_type == CASSANDRA_GLOBAL(gValueType)) {
+    // costs are negative rewards
+    FOR(i, Rk.data.size()) { Rk.data[i].value = -Rk.data[i].value; }
+  }
   copy(p.R, Rk);
 
   // convert T, Tr, and O to sla format
-- 
2.43.0


From 62b303f035a5b20d6e1ff0679b89484bd259f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 26/49] fix: negative probabilities are refused by the fast
 parser

---
 src/parsers/FastParser.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 5e8b767..9f63b5b 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -252,7 +252,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         double prob;
         if (4 != sscanf(buf, "T: %d : %d : %d %lf", &a, &s, &sp, &prob) ||
             a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || sp < 0 ||
-            sp >= p.numStates) {
+            sp >= p.numStates || !(prob >= 0.0)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
@@ -264,7 +264,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           double prob;
           if (4 != sscanf(buf, "O: %d : %d : %d %lf", &a, &s, &o, &prob) ||
               a < 0 || a >= p.numActions || s < 0 || s >= p.numStates || o < 0 ||
-              o >= p.numObservations) {
+              o >= p.numObservations || !(prob >= 0.0)) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
@@ -416,6 +416,11 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
       }
 
       val = atof(tok);
+      if (!(val >= 0.0)) {
+        cout << "ERROR: " << p.fileName
+             << ": negative probability in POMDP 'start' statement" << endl;
+        exit(EXIT_FAILURE);
+      }
       if (0 == i) {
         firstVal = val;
       }
-- 
2.43.0


From 63cf982fdcac44aa1d13dc10b84d4f828a706599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 27/49] fix: the fast parser refuses excess start probabilities
 and a late states line

---
 src/parsers/FastParser.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 9f63b5b..7b367a9 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -180,7 +180,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d", &p.numStates) || p.numStates <= 0) {
+        // the start distribution read before would not fit another number
+        if (startSet || 1 != sscanf(buf, "states: %d", &p.numStates) ||
+            p.numStates <= 0) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
@@ -428,6 +430,12 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
         p.initialBelief.push_back(i, val);
       }
     }
+    if (NULL != tok && NULL != strtok_r(NULL, " ", &saveptr)) {
+      cout << "ERROR: " << p.fileName
+           << ": POMDP 'start' statement lists more probabilities than there "
+           << "are states" << endl;
+      exit(EXIT_FAILURE);
+    }
   } else {
     // MDP case
 
-- 
2.43.0


From 207be0bcb7043d371ad697409b3b3c862c9e0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 28/49] fix: line numbers in fast parser messages count every
 line

---
 src/parsers/FastParser.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 7b367a9..a3fd0c6 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -121,9 +121,10 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 
 #define PM_PREFIX_MATCHES(X) (0 == strncmp(buf, (X), strlen(X)))
 
-  lineNumber = 1;
+  lineNumber = 0;
   while (!in.eof()) {
     in.getline(buf, sizeof(buf));
+    lineNumber++;
     if (in.fail() && !in.eof()) {
       cerr << "ERROR: " << p.fileName << ": line " << lineNumber
            << ": line too long for buffer"
@@ -283,8 +284,6 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         exit(EXIT_FAILURE);
       }
     }
-
-    lineNumber++;
   }
   if (inPreamble) {
     cerr << "ERROR: " << p.fileName << ": line " << lineNumber
-- 
2.43.0


From 7ae0aa3bfc2ea72b0dbb3068c84f8d2736f77d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 29/49] fix: remove a variable the previous reward fix left
 unused

---
 src/parsers/imm-reward.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index 75d6c22..9abc3bd 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -260,7 +260,7 @@ void enterImmReward(int cur_state, int next_state, int obs, double value) {
 } /* enterImmReward */
 /**********************************************************************/
 void irAddToDecisionTree(Imm_Reward_List node) {
-  int i, j, k;
+  int i, j;
   Matrix m;
 
   assert(node != NULL);
-- 
2.43.0


From 6b5af31f66d5049eceff625f77e7e03e5ef9f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 30/49] fix: the start position of a survey model must be a
 free cell of its map

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index 63de2b2..4b1820f 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -328,6 +328,16 @@ preambleDone:
     }
   }
 
+  if (startX < 0 || startX >= static_cast<int>(grid.width) || startY < 0 ||
+      startY >= static_cast<int>(grid.height) ||
+      LS_OBSTACLE == grid.getCell(LSPos(startX, startY))) {
+    fprintf(stderr,
+            "ERROR: %s: start position (startX %d, startY %d) is not a free "
+            "cell of the map\n",
+            fname.c_str(), startX, startY);
+    exit(EXIT_FAILURE);
+  }
+
   if (static_cast<int>(regionPriors.size()) != grid.getMaxCellValue()) {
     int n = grid.getMaxCellValue();
     fprintf(stderr,
-- 
2.43.0


From aaf77c21176b4183219a9c14d25480de02cd5bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 31/49] fix: an MDP start state beyond the last state is
 refused

---
 src/parsers/CassandraParser.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index c10d555..c93b467 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -88,6 +88,13 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
          << endl;
     exit(EXIT_FAILURE);
   }
+  if (!expectPomdp &&
+      CASSANDRA_GLOBAL(gInitialState) >= CASSANDRA_GLOBAL(gNumStates)) {
+    cerr << "ERROR: " << p.fileName << ": start state "
+         << CASSANDRA_GLOBAL(gInitialState) << " is not one of the "
+         << CASSANDRA_GLOBAL(gNumStates) << " states" << endl;
+    exit(EXIT_FAILURE);
+  }
 
   // from here forward, we're converting the model from the data structures in
   // Cassandra's library to sla data structures (with the names I'm used to)
-- 
2.43.0


From cb2cae6226277e3885aef43bd53b68db505a6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 32/49] Revert the changes to the grammar file pomdp_spec.y

vcheck takes the file for a test; the four defects repaired there are
recorded as known findings instead.
---
 src/parsers/pomdp_spec.y | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 7696f7c..367ff22 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -907,9 +907,6 @@ void enterUniformMatrix() {
           addEntryToIMatrix(IP[a], i, j, prob);
     break;
   case mc_obs_row:
-    /* observations in an MDP: already reported, there is no table */
-    if (gProblemType != POMDP_problem_type)
-      break;
     prob = 1.0 / gNumObservations;
     for (a = minA; a <= maxA; a++)
       for (j = minJ; j <= maxJ; j++)
@@ -917,8 +914,6 @@ void enterUniformMatrix() {
           addEntryToIMatrix(IR[a], j, obs, prob);
     break;
   case mc_obs_all:
-    if (gProblemType != POMDP_problem_type)
-      break;
     prob = 1.0 / gNumObservations;
     for (a = minA; a <= maxA; a++)
       for (j = 0; j < gNumStates; j++)
@@ -977,8 +972,7 @@ void enterResetMatrix() {
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        for (j = 0; j < gNumStates; j++)
-          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
+        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
@@ -1177,10 +1171,7 @@ void enterMatrix(double value) {
       gTooManyEntries = 1;
 
     else {
-      if ((value < 0) || (value >= gNumStates) || (value != (int)value))
-        ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_STATE_VAL, "");
-      else
-        gInitialState = (int)value;
+      gInitialState = (int)value;
       curCol++;
     }
     break;
@@ -1358,26 +1349,15 @@ void enterStartState(int i) {
      it is an MDP.
   */
 
-  int s, minS, maxS;
-
   if (gProblemType == MDP_problem_type)
     return;
 
-  /* a wildcard stands for every state */
-  if (i < 0) {
-    minS = 0;
-    maxS = gNumStates - 1;
-  } else
-    minS = maxS = i;
-
   switch (curMatrixContext) {
   case mc_start_include:
-    for (s = minS; s <= maxS; s++)
-      gInitialBelief[s] = 1.0;
+    gInitialBelief[i] = 1.0;
     break;
   case mc_start_exclude:
-    for (s = minS; s <= maxS; s++)
-      gInitialBelief[s] = 0.0;
+    gInitialBelief[i] = 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, BAD_MATRIX_CONTEXT,
-- 
2.43.0


From 25aff3d17bf3443a6c94bd566655caaa1a10766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 33/49] fix: sampling never returns an outcome of probability
 zero

---
 src/common/MatrixUtils.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index c2dfd2a..f5999fe 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -159,9 +159,14 @@ inline int argmax_elt(const cvector &v) {
 // Chooses an outcome according to the distribution.
 inline int chooseFromDistribution(const dvector &b) {
   double r = unit_rand();
+  // if rounding keeps r positive to the end, the last possible outcome is used
+  int last = 0;
   FOR(i, b.size()) {
-    r -= b(i);
-    if (r <= 0) return i;
+    if (b(i) > 0) {
+      last = i;
+      r -= b(i);
+      if (r <= 0) return i;
+    }
   }
   if (r >= 1e-10) {
     // should never reach this point if b is normalized properly
@@ -170,14 +175,19 @@ inline int chooseFromDistribution(const dvector &b) {
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return last;
 }
 
 inline int chooseFromDistribution(const cvector &b) {
   double r = unit_rand();
+  // if rounding keeps r positive to the end, the last possible outcome is used
+  int last = 0;
   FOR_CV(b) {
-    r -= CV_VAL(b);
-    if (r <= 0) return CV_INDEX(b);
+    if (CV_VAL(b) > 0) {
+      last = CV_INDEX(b);
+      r -= CV_VAL(b);
+      if (r <= 0) return last;
+    }
   }
   if (r >= 1e-10) {
     // should never reach this point if b is normalized properly
@@ -186,7 +196,7 @@ inline int chooseFromDistribution(const cvector &b) {
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return last;
 }
 
 inline const char *hashable(const dvector &b) {
-- 
2.43.0


From 7656797f1a4d107307351410715d4c2940f1b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 34/49] fix: bootstrap sampling never reads past the last
 sample

---
 src/common/MatrixUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index f5999fe..3569564 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -286,7 +286,8 @@ inline void calc_bootstrap_mean_quantile(const dvector &vals, double alpha,
   for (int i = 0; i < numBootstrapSamples; i++) {
     sum = 0.0;
     for (int j = 0; j < n; j++) {
-      int k = static_cast<int>(unit_rand() * n);
+      // unit_rand() can return exactly 1
+      int k = std::min(n - 1, static_cast<int>(unit_rand() * n));
       sum += vals(k);
     }
     bvals(i) = sum / n;
-- 
2.43.0


From 7f14b22782f8b3186356ecfbdffc2dee240bd65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 35/49] fix: evaluationTrialsPerEpoch must be positive

---
 src/exec/PolicyEvaluator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 72742fc..3ca8426 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -66,6 +66,10 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   useEvaluationCache = config->getBool("useEvaluationCache");
   evaluationTrialsPerEpoch = config->getInt("evaluationTrialsPerEpoch");
+  if (evaluationTrialsPerEpoch <= 0) {
+    fprintf(stderr, "ERROR: evaluationTrialsPerEpoch must be positive\n");
+    exit(EXIT_FAILURE);
+  }
   evaluationMaxStepsPerTrial = config->getInt("evaluationMaxStepsPerTrial");
   if (evaluationMaxStepsPerTrial < 0) {
     evaluationMaxStepsPerTrial = 0;  // no limit
-- 
2.43.0


From 5bf09acf7ea5990ac82b750bb674c5289c914413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 36/49] fix: adding times carries a full second

---
 src/common/zmdpCommonTime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/zmdpCommonTime.cc b/src/common/zmdpCommonTime.cc
index 1f41e04..75c9df5 100644
--- a/src/common/zmdpCommonTime.cc
+++ b/src/common/zmdpCommonTime.cc
@@ -77,7 +77,7 @@ timeval operator+(const timeval &a, const timeval &b) {
   timeval result;
   result.tv_sec = a.tv_sec + b.tv_sec;
   result.tv_usec = a.tv_usec + b.tv_usec;
-  if (result.tv_usec > 1000000) {
+  if (result.tv_usec >= 1000000) {
     result.tv_sec++;
     result.tv_usec -= 1000000;
   }
-- 
2.43.0


From 1943dde05c067e108eb892837fa41832dfea595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 37/49] fix: evaluation cache keys actions by simulator state
 only for identical models

---
 src/exec/PolicyEvaluator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 3ca8426..9138fbd 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -215,7 +215,9 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
          (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
          j++) {
       int a;
-      if (-1 == simState->userInt) {
+      // the choice depends on the simulator state alone only if the planner's
+      // state is the same thing
+      if (-1 == simState->userInt || !assumeIdenticalModels) {
         a = exec->chooseAction();
         simState->userInt = a;
       } else {
-- 
2.43.0


From b37c995ed760f10f0533e441876046c05e07937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 38/49] fix: the SIGINT handler makes only async-signal-safe
 calls

---
 src/main/zmdp.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index d0fd8f7..859eb56 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -41,16 +41,21 @@ using namespace zmdp;
 
 enum CommandsEnum { CMD_SOLVE, CMD_BENCHMARK, CMD_EVALUATE };
 
-bool userTerminatedG = false;
+volatile sig_atomic_t userTerminatedG = 0;
 
 void sigIntHandler(int sig) {
-  userTerminatedG = true;
+  userTerminatedG = 1;
 
-  printf(
+  // only async-signal-safe calls here
+  static const char msg[] =
       "*** received SIGINT, user pressed control-C ***\n"
       "terminating run and writing output policy as soon as the solver "
-      "returns control\n");
-  fflush(stdout);
+      "returns control\n";
+  int savedErrno = errno;
+  if (write(STDOUT_FILENO, msg, sizeof(msg) - 1) < 0) {
+    // nothing to be done about it
+  }
+  errno = savedErrno;
 }
 
 void setSignalHandler(int sig, void (*handler)(int)) {
-- 
2.43.0


From 2812b095e4c464738549b9147befdb1760ed97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 39/49] fix: the policy backup does not depend on the shell

---
 src/main/TestDriver.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index f8e0790..7dea7d0 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -22,9 +22,11 @@
 #include "TestDriver.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 
 #include <fstream>
@@ -152,19 +154,20 @@ void TestDriver::batchTestIncremental(
       if (NULL != outPolicyFileName) {
         // create a backup of the policy from the last epoch in case policy
         // writing is interrupted
-        string cmd = string("mv ") + outPolicyFileName + " " +
-                     outPolicyFileName + ".bak >& /dev/null";
-        if (0 != system(cmd.c_str())) {
-          fprintf(stderr, "failed to make policy backup");
+        string bakFileName = string(outPolicyFileName) + ".bak";
+        if (0 != rename(outPolicyFileName, bakFileName.c_str()) &&
+            ENOENT != errno) {
+          fprintf(stderr, "failed to make policy backup: %s\n",
+                  strerror(errno));
         }
 
         so.bounds->writePolicy(outPolicyFileName,
                                /* canModifyBounds = */ false);
 
         // delete the backup
-        cmd = string("rm -f ") + outPolicyFileName + ".bak >& /dev/null";
-        if (0 != system(cmd.c_str())) {
-          fprintf(stderr, "failed to delete policy backup");
+        if (0 != unlink(bakFileName.c_str()) && ENOENT != errno) {
+          fprintf(stderr, "failed to delete policy backup: %s\n",
+                  strerror(errno));
         }
       }
 
-- 
2.43.0


From 3adf4301624d4e684634004e933abc6cfb762112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 40/49] fix: evaluationEpochsPerMagnitude must be positive

---
 src/main/solverUtils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index 9d903bc..de44558 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -152,6 +152,10 @@ void SolverParams::setValues(const ZMDPConfig &config) {
   SU_GET_INT(evaluationMaxStepsPerTrial);
   SU_GET_DOUBLE(evaluationFirstEpochWallclockSeconds);
   SU_GET_DOUBLE(evaluationEpochsPerMagnitude);
+  if (evaluationEpochsPerMagnitude <= 0.0) {
+    fprintf(stderr, "ERROR: evaluationEpochsPerMagnitude must be positive\n");
+    exit(EXIT_FAILURE);
+  }
   SU_GET_STRING(evaluationOutputFile);
   SU_GET_STRING(boundsOutputFile);
   SU_GET_STRING(simulationTraceOutputFile);
-- 
2.43.0


From 9795798a5f866ec4d99dda3a07cf2f254115f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 41/49] fix: race track positions are looked up only inside the
 map

---
 src/mdps/RaceTrack.cc | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index b72b42a..fa9dc0f 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -130,8 +130,17 @@ struct TrackMap {
 
   TrackMap(void);
   ~TrackMap(void);
-  bool getIsOpen(int x, int y) const { return open[width * y + x]; }
-  bool getIsFinish(int x, int y) const { return finish[width * y + x]; }
+  // everything outside the map is closed
+  bool getIsInside(int x, int y) const {
+    return 0 <= x && x < static_cast<int>(width) && 0 <= y &&
+           y < static_cast<int>(height);
+  }
+  bool getIsOpen(int x, int y) const {
+    return getIsInside(x, y) && open[width * y + x];
+  }
+  bool getIsFinish(int x, int y) const {
+    return getIsInside(x, y) && finish[width * y + x];
+  }
   int lineType(int x0, int y0, int dx, int dy) const;
   void readFromFile(const std::string &mapFileName, FILE *mapFile, int lnum);
 };
@@ -205,6 +214,8 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
   width = 0;
   while (NULL != fgets(lbuf, sizeof(lbuf), mapFile)) {
     lnum++;
+    // the end of the line is not part of the map
+    lbuf[strcspn(lbuf, "\r\n")] = '\0';
     if (0 == strlen(lbuf)) continue;
     if ('#' == lbuf[0]) continue;
     if (0 == width) {
@@ -218,10 +229,18 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
         exit(EXIT_FAILURE);
       }
     }
-    assert(i + width < sizeof(data));
+    if (i + width > sizeof(data)) {
+      fprintf(stderr, "ERROR: %s: line %d: map is too large\n",
+              mapFileName.c_str(), lnum);
+      exit(EXIT_FAILURE);
+    }
     memcpy(&data[i], lbuf, width);
     i += width;
   }
+  if (0 == width) {
+    fprintf(stderr, "ERROR: %s: no map found\n", mapFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
   height = i / width;
 
   unsigned int numPixels = width * height;
@@ -236,6 +255,11 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
       startY.push_back(i / width);
     }
   }
+  if (startX.empty()) {
+    fprintf(stderr, "ERROR: %s: map has no start cells\n",
+            mapFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 }
 
 /**********************************************************************
-- 
2.43.0


From 982c557b49c85d990e7ac6e2228067934af5c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 42/49] fix: hash strings hold every entry of a vector

---
 src/common/MatrixUtils.h | 43 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index 3569564..b3fb36c 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -199,39 +199,28 @@ inline int chooseFromDistribution(const cvector &b) {
   return last;
 }
 
-inline const char *hashable(const dvector &b) {
-  static char *buf = NULL;
-  static unsigned int n = 0;
+// appends one entry of a vector to its hash string
+inline void append_hash_entry(std::string &buf, int index, double val) {
+  // wide enough for any value
+  char entry[512];
+  snprintf(entry, sizeof(entry), HASH_VECTOR_PRECISION, index, val);
+  buf += entry;
+}
 
-  if (b.size() > n) {
-    n = b.size();
-    if (NULL != buf) delete[] buf;
-    buf = new char[n * HASH_VECTOR_LEN + 1];
-  }
+inline const char *hashable(const dvector &b) {
+  static std::string buf;
 
-  char *pos = buf;
-  FOR(i, b.size()) {
-    pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, i, b(i));
-  }
-  return buf;
+  buf.clear();
+  FOR(i, b.size()) { append_hash_entry(buf, i, b(i)); }
+  return buf.c_str();
 }
 
 inline const char *hashable(const cvector &b) {
-  static char *buf = NULL;
-  static unsigned int n = 0;
-
-  if (b.size() > n) {
-    n = b.size();
-    if (NULL != buf) delete[] buf;
-    buf = new char[n * HASH_VECTOR_LEN + 1];
-  }
+  static std::string buf;
 
-  char *pos = buf;
-  FOR_CV(b) {
-    pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, CV_INDEX(b),
-                    CV_VAL(b));
-  }
-  return buf;
+  buf.clear();
+  FOR_CV(b) { append_hash_entry(buf, CV_INDEX(b), CV_VAL(b)); }
+  return buf.c_str();
 }
 
 // Calculates the average and standard deviation for a collection.
-- 
2.43.0


From 602d8216ff9948b4e19280748f28cb812982deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 43/49] fix: write lookaheadCost to survey model files

The reader requires the parameter, so a model that was written could not
be read back.
---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index 4b1820f..a4e9d8b 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -353,6 +353,7 @@ void LSModelFile::writeToFile(FILE *outFile) const {
   fprintf(outFile, "startX %d\n", startX);
   fprintf(outFile, "startY %d\n", startY);
   fprintf(outFile, "baseCost %lf\n", baseCost);
+  fprintf(outFile, "lookaheadCost %lf\n", lookaheadCost);
   writeDoubleVectorToFile(outFile, "regionPriors", regionPriors);
   writeDoubleVectorToFile(outFile, "obsDistributionLifeAbsent",
                           obsDistributionLifeAbsent);
-- 
2.43.0


From 6690258940f1406e5094ce4757c8c7493ae49fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:52 +0000
Subject: [PATCH 44/49] fix: shift the right rows of survey maps with an even
 number of rows

Rows with odd y are shifted by half a cell, and y is counted from the
bottom row.  The reader counted from the top row, which gives the same
rows only if the number of rows is odd: other maps were rejected as
written by LSGrid::writeToFile.
---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index a4e9d8b..a2a346e 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -276,6 +276,7 @@ preambleDone:
 
   /* read map data into intermediate data structure */
   std::vector<std::string> rows;
+  int mapStart = lnum + 1;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
     lnum++;
     if (strlen(lbuf) <= 1) {
@@ -290,7 +291,13 @@ preambleDone:
       }
     }
     truncateNewline(lbuf);
-    rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
+    rows.push_back(lbuf);
+  }
+
+  /* y is counted from the bottom row, and odd rows are shifted */
+  FOR(y0, rows.size()) {
+    int y = rows.size() - y0 - 1;
+    rows[y0] = parseRow(rows[y0].c_str(), y % 2, fname, mapStart + y0);
   }
 
   /* calculate dimensions of map */
-- 
2.43.0


From fa7a4dd78d74398cb03242281fc3158a6d4e9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 45/49] fix: reject race tracks whose errorProbability is not a
 probability

---
 src/mdps/RaceTrack.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index fa9dc0f..7fd8afd 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -424,6 +424,11 @@ void RaceTrack::readFromFile(const std::string &specFileName) {
   plist.readFromFile(specFileName, /* endMarker = */ '-');
   discount = atof(plist.getValue("discount").c_str());
   errorProbability = atof(plist.getValue("errorProbability").c_str());
+  if (!(0 <= errorProbability && errorProbability <= 1)) {
+    fprintf(stderr, "ERROR: %s: errorProbability must be in the range 0 to 1\n",
+            specFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
   useMaxCost = atoi(plist.getValue("useMaxCost").c_str());
   if (useMaxCost) {
     maxCost = atof(plist.getValue("maxCost").c_str());
-- 
2.43.0


From 3c0348fcfd5ad3c03dcf895159c8251312d2fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 46/49] fix: terminate the region levels in a survey state's
 name

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index 64f2dcd..a4eacc1 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -64,10 +64,12 @@ std::string LSState::toString(void) const {
   } else {
     char eltbuf[2], rbuf[256], buf[1024];
     assert(rewardLevelInRegion.size() < 250); /* avoid buffer overflow */
-    FOR(i, std::min(sizeof(rbuf), rewardLevelInRegion.size())) {
+    size_t n = std::min(sizeof(rbuf) - 1, rewardLevelInRegion.size());
+    FOR(i, n) {
       snprintf(eltbuf, sizeof(eltbuf), "%1d", rewardLevelInRegion[i]);
       rbuf[i] = eltbuf[0];
     }
+    rbuf[n] = '\0';
     snprintf(buf, sizeof(buf), "sx%dy%dd%du%dn%d%d%dr%s", pos.x, pos.y,
              lastMoveDirection, usedLookaheadInThisCell, lifeInNeighborCell[0],
              lifeInNeighborCell[1], lifeInNeighborCell[2], rbuf);
-- 
2.43.0


From cb324c9d82d266dffa3b918b3d54ede35a26b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:55 +0000
Subject: [PATCH 47/49] fix: a survey's null observation keeps its number when
 encoded

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index a4eacc1..8a40396 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -157,7 +157,7 @@ LSObservation::LSObservation(int oi) {
 
 int LSObservation::toInt(void) const {
   if (isNull) {
-    return 0;
+    return OBS_NULL;
   } else {
     return lifeInNeighborConfidence[2] +
            LS_BASE_NUM_OBSERVATIONS *
-- 
2.43.0


From 0f84d5015e15bfe883bcb29772a1418a94d5df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:07 +0000
Subject: [PATCH 48/49] fix: HSVI computed an update's residual from an upper
 bound it had never stored

---
 src/search/HSVI.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/search/HSVI.cc b/src/search/HSVI.cc
index 85d9ac9..c1a6373 100644
--- a/src/search/HSVI.cc
+++ b/src/search/HSVI.cc
@@ -78,6 +78,7 @@ void HSVI::update(MDPNode &cn, int depth, HSVIUpdateResult &r) {
   bounds->update(cn, &r.maxUBAction);
   trackBackup(cn);
 
+  r.maxUBVal = cn.ubVal;
   r.ubResidual = oldUBVal - r.maxUBVal;
 
   getMaxExcessUncOutcome(cn, depth, r);
-- 
2.43.0


From 20a375d4e580c9ab05077df890ba1787e84fa3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:20 +0000
Subject: [PATCH 49/49] fix: new planes and points start with a defined action
 and age

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 4 ++--
 src/pomdpBounds/SawtoothUpperBound.h   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index d6d7667..ffeab2c 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -79,11 +79,11 @@ static bool dominates(const LBPlane *a, const LBPlane *b,
  * LBPLANE
  **********************************************************************/
 
-LBPlane::LBPlane(void) {}
+LBPlane::LBPlane(void) : action(-1), numBackupsAtCreation(0) {}
 
 LBPlane::LBPlane(const alpha_vector &_alpha, int _action,
                  const sla::mvector &_mask)
-    : alpha(_alpha), action(_action), mask(_mask) {}
+    : alpha(_alpha), action(_action), mask(_mask), numBackupsAtCreation(0) {}
 
 void LBPlane::write(std::ostream &out, bool useMaxPlanesMasking) const {
   out << "    {" << endl;
diff --git a/src/pomdpBounds/SawtoothUpperBound.h b/src/pomdpBounds/SawtoothUpperBound.h
index 34ab4f1..c28f622 100644
--- a/src/pomdpBounds/SawtoothUpperBound.h
+++ b/src/pomdpBounds/SawtoothUpperBound.h
@@ -36,8 +36,9 @@ struct BVPair {
   double innerCornerCache;
   int numBackupsAtCreation;
 
-  BVPair(void) {}
-  BVPair(const belief_vector &_b, double _v) : b(_b), v(_v) {}
+  BVPair(void) : v(0), innerCornerCache(0), numBackupsAtCreation(0) {}
+  BVPair(const belief_vector &_b, double _v)
+      : b(_b), v(_v), innerCornerCache(0), numBackupsAtCreation(0) {}
 };
 
 typedef std::list<BVPair *> BVList;
-- 
2.43.0

