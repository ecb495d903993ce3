From 953b6d85d2bc612fa575d3fe05b2273b00642761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 01/47] fix: drop clauses deleted by preprocessing before
 search (they were re-attached, so eliminated variables got assigned and the
 trail overflowed)

---
 src/candy/core/Solver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 503e9af..19701a8 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -442,6 +442,7 @@ lbool Solver<TPropagate, TLearning, TBranching>::solve() {
     if (this->preprocessing_enabled) {
         std::cout << "c Preprocessing ... " << std::endl;
         processClauseDatabase();
+        clause_db.reorganize(); // drop clauses deleted during preprocessing
         propagator.reset();
     }
 
-- 
2.43.0


From bea57fb9ebe154c096ddb7f8ff9b935fcc7ebfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 02/47] fix: detach clauses of eliminated variables before
 propagating again during pre- and inprocessing

---
 src/candy/core/Solver.h                       | 3 +++
 src/candy/systems/propagate/Propagate.h       | 2 +-
 src/candy/systems/propagate/StaticPropagate.h | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 19701a8..f54f027 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -259,6 +259,9 @@ private:
 
             if (elimination.nTouched() > 0) {
                 augmented_database.cleanup();
+                // clauses of eliminated variables must not take part in propagation anymore
+                trail.reset();
+                propagator.reset();
                 if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Eliminiated " << elimination.nTouched() << " variables" << std::endl;
             }
 
diff --git a/src/candy/systems/propagate/Propagate.h b/src/candy/systems/propagate/Propagate.h
index ebdeb94..9e2ebd5 100644
--- a/src/candy/systems/propagate/Propagate.h
+++ b/src/candy/systems/propagate/Propagate.h
@@ -78,7 +78,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
diff --git a/src/candy/systems/propagate/StaticPropagate.h b/src/candy/systems/propagate/StaticPropagate.h
index a53808a..6d5e16f 100644
--- a/src/candy/systems/propagate/StaticPropagate.h
+++ b/src/candy/systems/propagate/StaticPropagate.h
@@ -65,7 +65,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
-- 
2.43.0


From 22528af10b766c420b2848a8b76228c20380f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 03/47] fix: extra bump of the last decision level read one
 level beyond the trail limits

---
 src/candy/systems/branching/VSIDS.h  | 2 +-
 src/candy/systems/branching/VSIDSC.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index bb27656..e587279 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -235,7 +235,7 @@ public:
 
         if (glucose_style_extra_bump)
         {
-            for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+            for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
             {
                 Var v = it->var();
                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 8237ab4..ea70095 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -261,7 +261,7 @@ public:
 
                 if (glucose_style_extra_bump)
                 {
-                        for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+                        for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
                         {
                                 Var v = it->var();
                                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
-- 
2.43.0


From bf42e9be4e2779e35cc39b03043438356d303e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 04/47] fix: undoing a variable elimination also restores later
 eliminated variables in the restored clauses; new variables are not
 eliminated

---
 src/candy/simplification/VariableElimination.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c543404..5792172 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -125,6 +125,16 @@ public:
             }
         }
         eliminiated_variables.resize(j);
+        // the restored clauses can mention variables which have been eliminated later
+        for (size_t i = 0; i < correction_set.size(); i++) {
+            Cl clause = correction_set[i];
+            for (Lit lit : clause) {
+                if (is_eliminated(lit.var())) {
+                    std::vector<Cl> cor = undo_elimination(lit.var());
+                    correction_set.insert(correction_set.end(), cor.begin(), cor.end());
+                }
+            }
+        }
         return correction_set;
     }
 
@@ -133,7 +143,7 @@ public:
     }
 
     inline bool is_eliminated(Var v) const {
-        return eliminated_clauses[v].size() > 0;
+        return (size_t)v < eliminated_clauses.size() && eliminated_clauses[v].size() > 0;
     }
 
     void propagate_eliminated_variables() {
-- 
2.43.0


From 8185b25c936aa055d3553d769f946cf7fe22f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 05/47] fix: initialize all simulation vectors, not only the
 first one

---
 src/candy/randomsimulation/SimulationVector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/SimulationVector.cc b/src/candy/randomsimulation/SimulationVector.cc
index 5675578..ee8dd49 100644
--- a/src/candy/randomsimulation/SimulationVector.cc
+++ b/src/candy/randomsimulation/SimulationVector.cc
@@ -82,7 +82,7 @@ namespace Candy {
         m_simulationVectors = reinterpret_cast<AlignedSimVector*>(alignedMem);
         
         AlignedSimVector *toBeInitialized = m_simulationVectors;
-        for (size_t i = 0; i < m_size; ++i) {
+        for (size_t i = 0; i < m_size; ++i, ++toBeInitialized) {
             new(toBeInitialized) SimulationVector;
             toBeInitialized->initialize(0ull);
         }
-- 
2.43.0


From 6d3b052d52ff804f719b89d3459eb129c384bd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 06/47] fix: random simulation must not evaluate gate clauses
 with variables that are no inputs of the gate

---
 src/candy/randomsimulation/ClauseOrder.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index c0743f9..fcf34d7 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -165,7 +165,18 @@ namespace Candy {
         Candy::Lit usedOutput;
         const For *usedGateClauses;
         
+        // the inputs of a gate are the inputs of its fwd-clauses: if it is nested monotonically,
+        // the bwd-clauses can contain further variables (which are then unknown to the simulation)
+        bool bwdUsesOnlyInputs = std::all_of(gate.bwd.begin(), gate.bwd.end(), [&gate](const Cl* clause) {
+            return std::all_of(clause->begin(), clause->end(), [&gate](Lit lit) {
+                return lit.var() == gate.out.var()
+                    || std::binary_search(gate.inp.begin(), gate.inp.end(), lit)
+                    || std::binary_search(gate.inp.begin(), gate.inp.end(), ~lit);
+            });
+        });
+        
         if (gate.hasNonMonotonicParent()
+            || !bwdUsesOnlyInputs
             || gate.fwd.size() <= gate.bwd.size()) {
             usedOutput = ~gate.out;
             usedGateClauses = &gate.fwd;
-- 
2.43.0


From ba3d19f3049bd5b8694b63e175a426483e2c91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 07/47] fix: the input stream cut numbers and clauses at chunk
 boundaries, ended silently in long lines and in truncated or corrupt
 archives, and had undefined behaviour on non-numbers

---
 src/candy/utils/StreamBuffer.cc | 28 ++++++++++++++++++++--------
 src/candy/utils/StreamBuffer.h  |  9 ++++++++-
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 3cd244d..ac01420 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -47,13 +47,14 @@ namespace Candy {
     /** Skip given sequence of character (+throw exceptions if input deviates) */
     void StreamBuffer::skipString(const char* str) {
         for (; *str != '\0'; ++str, incPos(1)) {
-            if (*str != buffer[pos] || eof()) {
-                throw ParserException(std::string("PARSE ERROR! Expected '") + std::string(str) + std::string("' but found ") + std::string(1, buffer[pos]));
+            if (eof() || *str != buffer[pos]) {
+                throw ParserException(std::string("PARSE ERROR! Expected '") + std::string(str) + std::string("' but found ") + (eof() ? std::string("end of file") : std::string(1, buffer[pos])));
             }
         }
     }
 
     int StreamBuffer::readInteger() {
+        skipWhitespace(); // strtol() must not skip whitespace beyond the end of the current chunk
         if (eof()) throw ParserException(std::string("PARSE ERROR! Unexpected end of file"));
 
         char* str = buffer + pos;
@@ -70,10 +71,11 @@ namespace Candy {
             // Had ERRNO=29 ('Illegal seek') when reading from stdin
             throw ParserException(std::string("PARSE ERROR! In 'strtol()', errno ") + std::to_string(errno) + std::string(" while reading ") + std::string(1, buffer[pos]));
         }
-        else if (end > str) {
-            incPos(static_cast<intptr_t>(end - str));
-            return static_cast<int>(number);
+        else if (end == str) {
+            throw ParserException(std::string("PARSE ERROR! Expected a number but found ") + std::string(1, buffer[pos]));
         }
+        incPos(static_cast<intptr_t>(end - str));
+        return static_cast<int>(number);
     }
 
     void StreamBuffer::check_refill_buffer() {
@@ -82,15 +84,25 @@ namespace Candy {
             if (offset > 0) {
                 std::copy(&buffer[size - offset], &buffer[size], buffer);
             }
-            size = offset + gzread(in, buffer + offset, buffer_size - offset);
+            int count = gzread(in, buffer + offset, buffer_size - offset);
+            int error = Z_OK;
+            gzerror(in, &error);
+            if (count < 0 || (error != Z_OK && error != Z_STREAM_END)) {
+                throw ParserException(std::string("PARSE ERROR! Could not read input: it is truncated or corrupt"));
+            }
+            size = offset + count;
             offset = 0;
+            buffer[size] = '\0'; // stop number conversion at the end of the input
             if (size < buffer_size) {
                 return;
             }
-            // make sure buffer ends with newline (assert: does not cut a number)
-            while (buffer[size - offset - 1] != '\n' && offset < size) {
+            // make sure buffer ends with whitespace (assert: does not cut a number)
+            while (offset < size && !isspace(buffer[size - offset - 1])) {
                 offset++;
             }
+            if (offset == size) { // no whitespace at all
+                offset = 0;
+            }
         }
     }
 
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 96d9947..112fc5a 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -42,10 +42,17 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size];
+        buffer = new char[buffer_size + 1]; // one more for the terminating null
         check_refill_buffer();
     }
 
+    ~StreamBuffer() {
+        delete[] buffer;
+    }
+
+    StreamBuffer(const StreamBuffer& other) = delete;
+    StreamBuffer& operator=(const StreamBuffer& other) = delete;
+
     void skipLine();
     void skipWhitespace();
     void skipString(const char* str);
-- 
2.43.0


From 2215a71756715461960033c99b31972583ebf384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:38 +0000
Subject: [PATCH 08/47] fix: reject variables whose literals do not fit the
 literal encoding

---
 src/candy/utils/StreamBuffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index ac01420..d9ddf2e 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -63,7 +63,7 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) >= std::numeric_limits<uint32_t>::max()) {
+        if (errno == ERANGE || 2*abs(number) > std::numeric_limits<int32_t>::max()) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
-- 
2.43.0


From 40df0492d1414658d89b2bd99663f2e7712c5b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 09/47] fix: clauses with more than 65535 literals were
 truncated

---
 src/candy/core/Solver.h                       |  2 +-
 src/candy/core/Trail.h                        |  4 ++--
 src/candy/core/clauses/Clause.h               | 20 +++++++++----------
 src/candy/core/clauses/ClauseDatabase.h       |  4 ++--
 src/candy/simplification/SubsumptionClause.h  |  4 ++--
 .../simplification/VariableElimination.h      |  2 +-
 src/candy/systems/propagate/Propagate.h       |  2 +-
 7 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index f54f027..6012eee 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -273,7 +273,7 @@ private:
     }
 
     void ipasir_callback(Clause* clause) {
-        if (learntCallback != nullptr && clause->size() <= learntCallbackMaxLength) {
+        if (learntCallback != nullptr && (int)clause->size() <= learntCallbackMaxLength) {
             std::vector<int> to_send;
             to_send.reserve(clause->size() + 1);
             for (Lit lit : *clause) {
diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index 22c9e7d..f3abb40 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -297,9 +297,9 @@ public:
      * Count the number of decision levels in which the given list of literals was assigned
      */
     template <typename Iterator>
-    inline uint_fast16_t computeLBD(Iterator it, Iterator end) {
+    inline uint_fast32_t computeLBD(Iterator it, Iterator end) {
         // TODO: exclude selectors from lbd computation
-        uint_fast16_t nblevels = 0;
+        uint_fast32_t nblevels = 0;
         stamp.clear();
 
         for (; it != end; it++) {
diff --git a/src/candy/core/clauses/Clause.h b/src/candy/core/clauses/Clause.h
index 77ea505..b3aa183 100644
--- a/src/candy/core/clauses/Clause.h
+++ b/src/candy/core/clauses/Clause.h
@@ -37,12 +37,12 @@ class Clause {
     friend class Propagate;
 
 private:
-    uint16_t length;
-    uint16_t weight;
+    uint32_t length;
+    uint32_t weight;
 
     Lit literals[1];
 
-    inline void swap(uint16_t pos1, uint16_t pos2) {
+    inline void swap(uint32_t pos1, uint32_t pos2) {
         assert(pos1 < length && pos2 < length);
         Lit tmp = literals[pos1];
         literals[pos1] = literals[pos2];
@@ -50,27 +50,27 @@ private:
     }
 
     inline void setDeleted() {
-        weight = std::numeric_limits<uint16_t>::max();
+        weight = std::numeric_limits<uint32_t>::max();
     }
 
     inline void setPersistent() {
         weight = 0;
     }
 
-    inline void setLBD(uint16_t lbd) {
+    inline void setLBD(uint32_t lbd) {
         weight = lbd;
     }
 
 public:
     template<typename Iterator>
-    Clause(Iterator begin, Iterator end, uint16_t lbd) {
+    Clause(Iterator begin, Iterator end, uint32_t lbd) {
         copyLiterals(begin, end, literals);
         length = static_cast<decltype(length)>(std::distance(begin, end));
         weight = lbd; // not frozen, not deleted and not learnt; lbd=0
         assert(lbd <= length);
     }
     
-    Clause(std::initializer_list<Lit> list, uint16_t lbd = 0) : Clause(list.begin(), list.end(), lbd) { }
+    Clause(std::initializer_list<Lit> list, uint32_t lbd = 0) : Clause(list.begin(), list.end(), lbd) { }
 
     ~Clause() { }
 
@@ -90,7 +90,7 @@ public:
         return literals + length;
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         return length;
     }
 
@@ -139,10 +139,10 @@ public:
     }
 
     inline bool isDeleted() const {
-        return weight == std::numeric_limits<uint16_t>::max();
+        return weight == std::numeric_limits<uint32_t>::max();
     }
 
-    inline uint16_t getLBD() const {
+    inline uint32_t getLBD() const {
         return weight;
     }
 
diff --git a/src/candy/core/clauses/ClauseDatabase.h b/src/candy/core/clauses/ClauseDatabase.h
index c02afc3..b689f4c 100644
--- a/src/candy/core/clauses/ClauseDatabase.h
+++ b/src/candy/core/clauses/ClauseDatabase.h
@@ -131,7 +131,7 @@ public:
         if (recalculateLBD) {
             for (Clause* clause : involved_clauses) {
                 if (clause->isLearnt()) {
-                    uint_fast16_t lbd = trail.computeLBD(clause->begin(), clause->end());
+                    uint_fast32_t lbd = trail.computeLBD(clause->begin(), clause->end());
                     clause->setLBD(lbd);
                 }
             }
@@ -217,7 +217,7 @@ public:
         assert(clause->size() > 1);
         std::vector<Lit> literals;
         for (Lit literal : *clause) if (literal != lit) literals.push_back(literal);
-        Clause* new_clause = createClause(literals.begin(), literals.end(), std::min(clause->getLBD(), (uint16_t)literals.size()));
+        Clause* new_clause = createClause(literals.begin(), literals.end(), std::min(clause->getLBD(), (uint32_t)literals.size()));
         removeClause(clause);
         return new_clause;
     }
diff --git a/src/candy/simplification/SubsumptionClause.h b/src/candy/simplification/SubsumptionClause.h
index ac2a2b0..e54567e 100644
--- a/src/candy/simplification/SubsumptionClause.h
+++ b/src/candy/simplification/SubsumptionClause.h
@@ -68,12 +68,12 @@ public:
         return clause->end();
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         if (clause == nullptr) return 0;
         return clause->size();
     }
 
-    inline uint16_t lbd() const {
+    inline uint32_t lbd() const {
         return clause->getLBD();
     }
 
diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index 5792172..c76352f 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -244,7 +244,7 @@ private:
         
         for (SubsumptionClause* pc : pos) for (SubsumptionClause* nc : neg) {
             if (merge(*pc->get_clause(), *nc->get_clause(), variable, resolvent)) {
-                uint16_t lbd = std::min({ pc->lbd(), nc->lbd(), (uint16_t)(resolvent.size()-1) });
+                uint32_t lbd = std::min({ pc->lbd(), nc->lbd(), (uint32_t)(resolvent.size()-1) });
                 // std::cout << "c Creating resolvent " << resolvent << std::endl;
                 database.create(resolvent.begin(), resolvent.end(), lbd);
                 assert(resolvent.size() > 0);
diff --git a/src/candy/systems/propagate/Propagate.h b/src/candy/systems/propagate/Propagate.h
index 9e2ebd5..0410772 100644
--- a/src/candy/systems/propagate/Propagate.h
+++ b/src/candy/systems/propagate/Propagate.h
@@ -147,7 +147,7 @@ public:
                 }
 
                 if (val != l_True) {
-                    for (uint_fast16_t k = 2; k < clause->size(); k++) {
+                    for (uint_fast32_t k = 2; k < clause->size(); k++) {
                         if (trail.value((*clause)[k]) != l_False) {
                             clause->swap(1, k);
                             watchers[~clause->second()].emplace_back(clause, clause->first());
-- 
2.43.0


From d0a84d9e7f707dc723ed0cd2cdd81679b0b00e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 10/47] fix: count of blocked clauses wrapped for literals with
 more than 65534 occurrences

---
 src/candy/gates/BlockList.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/candy/gates/BlockList.h b/src/candy/gates/BlockList.h
index 3b54a9c..3e17194 100644
--- a/src/candy/gates/BlockList.h
+++ b/src/candy/gates/BlockList.h
@@ -35,9 +35,9 @@ private:
     const CNFProblem& problem;
 
     std::vector<For> index;
-    std::vector<uint16_t> num_blocked;
+    std::vector<uint32_t> num_blocked;
 
-    const uint16_t num_blocked_invalid = std::numeric_limits<uint16_t>::max();
+    const uint32_t num_blocked_invalid = std::numeric_limits<uint32_t>::max();
 
     bool isBlocked(Lit o, Cl& c1, Cl& c2) const { // assert o \in c1 and ~o \in c2
         for (Lit l1 : c1) if (l1 != o) for (Lit l2 : c2) if (l1 == ~l2) return true;
@@ -72,7 +72,7 @@ public:
 
     ~BlockList() { }
 
-    uint16_t getNumBlocked(Lit o) {
+    uint32_t getNumBlocked(Lit o) {
         if (num_blocked[o] == num_blocked_invalid) {
             countBlocked(o);
         }
@@ -104,13 +104,13 @@ public:
 
     Lit getMinimallyUnblockedLiteral() {
         Lit result = lit_Undef;
-        uint16_t min = std::numeric_limits<uint16_t>::max();
+        uint32_t min = std::numeric_limits<uint32_t>::max();
         for (int v = problem.nVars()-1; v >= 0 && min > 1; v--) {
             for (Lit lit : { Lit(v, true), Lit(v, false) }) {
                 size_t total = index[lit].size();
                 size_t diff = total - getNumBlocked(lit);
                 if (diff > 0 && diff < min) {
-                    min = (uint16_t)diff;
+                    min = (uint32_t)diff;
                     result = lit;
                 }
             }
-- 
2.43.0


From b8257f0d3cd6c1f2df491c251c947f6ade4f7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 11/47] fix: IPASIR: assuming, evaluating or querying variables
 that occur in no clause accessed memory out of bounds or gave contradicting
 values

---
 src/candy/ipasir/ipasircandy.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 8d36673..2ab55fb 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -80,6 +80,7 @@ public:
     void assume(int lit) {
         drop_analysis();
         nomodel = true;
+        while ((int)problem.nVars() < abs(lit)) problem.newVar(); // assumed variables need not occur in a clause
         assumptions.push_back(import(lit));
     }
 
@@ -97,13 +98,15 @@ public:
     int val(int lit) {
         if (nomodel) return 0;
         CandySolverResult& result = solver->getCandySolverResult();
-        return result.satisfies(import(lit)) ? lit : -lit;
+        if (result.satisfies(import(lit))) return lit;
+        if (result.satisfies(~import(lit))) return -lit;
+        return 0; // any value does
     }
 
     int failed(int lit) {
         if (!fmap) analyze();
-        int tmp = import(lit).var();
-        return fmap[tmp] != 0;
+        unsigned int tmp = import(lit).var();
+        return tmp < solver->nVars() && fmap[tmp] != 0;
     }
 
     void set_terminate(void* state, int(*callback)(void* state)) {
-- 
2.43.0


From e26404234d73eb956acc1a45bb90b86e1fbf2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 12/47] fix: proof checker rejected valid proofs (contradicting
 units, lemmas over pure literals, conflicts without decisions) and accessed
 memory out of bounds for new variables

---
 src/candy/core/DRATChecker.cc | 26 +++++++++++++++++++++++---
 src/candy/core/DRATChecker.h  |  3 +++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index dbbf25c..61949b0 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -46,8 +46,8 @@ DRATChecker::DRATChecker(CNFProblem& problem_)
         for (Lit lit : *clause) {
             occurences[lit].push_back(clause);
         }
-        if (clause->size() == 1) {
-            trail.fact(clause->first());
+        if (clause->size() == 1 && !trail.fact(clause->first())) {
+            clause_db.emptyClause();
         }
     }
 }
@@ -88,6 +88,7 @@ bool DRATChecker::check_proof(gzFile input_stream) {
             for (int plit = in.readInteger(); plit != 0; plit = in.readInteger()) {
                 lits.push_back(Lit(abs(plit)-1, plit < 0));
             }
+            grow(lits.begin(), lits.end());
             // std::cout << "c *** Checking Delete: " << lits << " *** " << std::endl;
             check_clause_remove(lits.begin(), lits.end());
         }
@@ -96,6 +97,7 @@ bool DRATChecker::check_proof(gzFile input_stream) {
             for (int plit = in.readInteger(); plit != 0; plit = in.readInteger()) {
                 lits.push_back(Lit(abs(plit)-1, plit < 0));
             }
+            grow(lits.begin(), lits.end());
             // std::cout << "c *** Checking Learned: " << lits << " *** " << std::endl;
             if (!check_clause_add(lits.begin(), lits.end())) {
                 return false;
@@ -106,6 +108,21 @@ bool DRATChecker::check_proof(gzFile input_stream) {
     return clause_db.hasEmptyClause();
 }
 
+// proofs can introduce new variables
+template <typename Iterator>
+void DRATChecker::grow(Iterator begin, Iterator end) {
+    CNFProblem extension;
+    for (auto it = begin; it != end; it++) {
+        while ((int)extension.nVars() <= it->var()) extension.newVar();
+    }
+    if (extension.nVars() > clause_db.nVars()) {
+        clause_db.init(extension);
+        trail.init(clause_db.nVars());
+        propagator.reset();
+        occurences.resize(2 * clause_db.nVars());
+    }
+}
+
 template <typename Iterator>
 bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
     if (clause_db.hasEmptyClause()) return true;
@@ -132,6 +149,7 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
     unsigned int level = trail.decisionLevel();
     for (auto it = begin; !conflict && it != end; it++) {
         Lit pivot = *it;
+        conflict = true; // holds for the empty set of resolution candidates
         for (Clause* clause : occurences[~pivot]) if (!clause->isDeleted()) {
             conflict = check_asymm(clause->begin(), clause->end(), ~pivot);
             trail.backtrack(level);
@@ -139,6 +157,7 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
         }
     }
     trail.backtrack(0);
+    trail.qhead = 0; // clauses of lemmas are not attached to unassigned literals: always propagate all facts
 
     if (conflict) {
         Clause* clause = clause_db.createClause(begin, end);
@@ -160,7 +179,7 @@ template <typename Iterator>
 bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
     size_t size = std::distance(begin, end);
     if (size > 1) {
-        for (Clause* clause : occurences[*begin]) {
+        for (Clause* clause : occurences[*begin]) if (!clause->isDeleted()) {
             if (size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
                 clause_db.removeClause(clause);
                 if (clause->size() > 2) {
@@ -175,6 +194,7 @@ bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
 }
 
 void DRATChecker::cleanup_deleted() {
+    num_deleted = 0;
     clause_db.reorganize();
     propagator.reset();
     occurences.clear();
diff --git a/src/candy/core/DRATChecker.h b/src/candy/core/DRATChecker.h
index 7ccde4e..6231c72 100644
--- a/src/candy/core/DRATChecker.h
+++ b/src/candy/core/DRATChecker.h
@@ -53,6 +53,9 @@ public:
 private:
     bool check_proof(gzFile input_stream);
 
+    template <typename Iterator>
+    void grow(Iterator begin, Iterator end);
+
     template <typename Iterator>
     bool check_clause_add(Iterator begin, Iterator end);
 
-- 
2.43.0


From 12647023eb67cc6e4821704a58f236128bfb7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:38 +0000
Subject: [PATCH 13/47] fix: VSIDSC read centralities out of bounds for
 variables added after the centrality computation

---
 src/candy/systems/branching/VSIDSC.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index ea70095..bdab4a6 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -212,7 +212,9 @@ public:
                 double bumpFactor = var_inc;
                 if (use_centrality_bump)
                 {
-                        bumpFactor = var_inc * (1 + (centrality[graph.mapNode(v.id)] * centralityFactor));
+                        size_t node = graph.mapNode(v.id);
+                        if (node < centrality.size()) // there is no centrality for variables added later
+                                bumpFactor = var_inc * (1 + (centrality[node] * centralityFactor));
                 }
                 varBumpActivity(v, bumpFactor);
         }
-- 
2.43.0


From 3dc4f3368c10d220e2d5c7c7205ab3a439aa5099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 14/47] fix: clearing a solver kept the eliminated variables,
 reduction counters and the result of the previous problem

---
 src/candy/core/Solver.h                        | 4 ++++
 src/candy/simplification/VariableElimination.h | 7 +++++++
 src/candy/systems/branching/VSIDSC.h           | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 6012eee..909cd36 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -325,6 +325,10 @@ void Solver<TPropagate, TLearning, TBranching>::clear() {
     trail.clear();
     propagator.clear();
     branch.clear();
+    elimination.clear();
+    reduce.clear();
+    result.clear();
+    lastRestartWithInprocessing = 0;
 }
 
 template<class TPropagate, class TLearning, class TBranching>
diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c76352f..8617915 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -92,6 +92,13 @@ public:
         nEliminated(0)
     { }
 
+    void clear() {
+        eliminiated_variables.clear();
+        eliminated_clauses.clear();
+        frozen.clear();
+        nEliminated = 0;
+    }
+
     std::vector<Cl> reset() {
         std::vector<Cl> correction_set;
 
diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index bdab4a6..4bdc0f0 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -147,6 +147,8 @@ public:
                 activity.clear();
                 polarity.clear();
                 order_heap.clear();
+                centrality.clear();
+                graph_init = false; // recalculate centrality upon next reduction
         }
 
         void init(const CNFProblem &problem)
-- 
2.43.0


From ca0fa677cc61ebb1127e209d93e436fc15f2176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:54 +0000
Subject: [PATCH 15/47] fix: removing the termination callback (NULL) crashed
 the next solve

---
 src/candy/core/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 909cd36..49db60a 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -144,7 +144,7 @@ public:
     //TODO: use std::function<int(void*)> as type here
     void setTermCallback(void* state, int (*termCallback)(void* state)) override {
         this->termCallbackState = state;
-        this->termCallback = termCallback;
+        this->termCallback = termCallback != nullptr ? termCallback : [](void*) -> int { return 0; };
     }
 
     void setLearntCallback(void* state, int max_length, void (*learntCallback)(void* state, int* clause)) override { 
-- 
2.43.0


From 4585fc4e24128107673d24a222d0ef60b1099757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 16/47] fix: numbers beyond 2^62 passed the range check of the
 parser (overflow)

---
 src/candy/utils/StreamBuffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index d9ddf2e..41c245d 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -63,7 +63,7 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) > std::numeric_limits<int32_t>::max()) {
+        if (errno == ERANGE || number > std::numeric_limits<int32_t>::max() / 2 || number < -(std::numeric_limits<int32_t>::max() / 2)) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
-- 
2.43.0


From 12ed37cf2162367d0268944849d498697b859103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:44 +0000
Subject: [PATCH 17/47] fix: option parser used an uninitialized variable to
 compute the number of remaining arguments

---
 src/candy/utils/Options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.cc b/src/candy/utils/Options.cc
index dc516be..c76831c 100644
--- a/src/candy/utils/Options.cc
+++ b/src/candy/utils/Options.cc
@@ -34,7 +34,7 @@ namespace Candy {
 
 void parseOptions(int& argc, char** argv, bool strict) {
     int i, j;
-    for (int i = j = 1; i < argc; i++){
+    for (i = j = 1; i < argc; i++){
         const char* str = argv[i];
         if (strstr(str, "--help") != nullptr) {
             printUsageAndExit(argc, argv, true);
-- 
2.43.0


From 96fb45b3425fece8e08f3da905ca4afcbfb922a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:01 +0000
Subject: [PATCH 18/47] fix: out-of-range and non-numeric option values were
 accepted

---
 src/candy/frontend/CLIOptions.cc |  2 +-
 src/candy/utils/Options.h        | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CLIOptions.cc b/src/candy/frontend/CLIOptions.cc
index cc598be..36dcad7 100644
--- a/src/candy/frontend/CLIOptions.cc
+++ b/src/candy/frontend/CLIOptions.cc
@@ -77,7 +77,7 @@ namespace SolverOptions {
     BoolOption opt_vsidsc_scope("BRANCHING", "vsidsc-lwcc", "VSIDSC uses LWCC graph scope (default: FULL)", false);
     DoubleOption opt_vsidsc_samplesize("BRANCHING", "vsidsc-sample-size", "VSIDSC sample size for centrality calculation (only for vsidsc-centralities 0, 1)", 1.0, DoubleRange(0.0, false, 1.0, true));
     DoubleOption opt_vsidsc_samplesize_decay("BRANCHING", "vsidsc-sample-size-decay", "VSIDSC decay sample size by factor for repeated centrality calculations (1=no decay)", 1.0, DoubleRange(0.0, false, 1.0, true));
-    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, false, 10.0, true));
+    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, true, 10.0, true));
     BoolOption opt_vsidsc_debug("BRANCHING", "vsidsc-debug", "Active Centrality debugging", false);
 
     BoolOption opt_use_lrb("BRANCHING", "use-lrb", "use LRB branching heuristic (default: use VSIDS)", false);
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index a3d9a9e..4f0cfbe 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -32,6 +32,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <stdlib.h>
 #include <stdio.h>
 #include <math.h>
+#include <errno.h>
 #include <string.h>
 #include <iostream>
 
@@ -150,8 +151,8 @@ class DoubleOption : public Option {
             char* end;
             double tmp = strtod(span + len, &end);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (!(range.end_inclusive ? tmp <= range.end : tmp < range.end) || !(range.begin_inclusive ? tmp >= range.begin : tmp > range.begin)) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -207,10 +208,11 @@ class IntOption : public Option {
 
         if (span == str) {
             char* end;
-            int32_t tmp = strtol(span + len, &end, 10);
+            errno = 0;
+            long tmp = strtol(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (errno == ERANGE || tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -277,10 +279,11 @@ class Int64Option : public Option {
 
         if (span == str) {
             char* end;
+            errno = 0;
             int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (errno == ERANGE || tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
-- 
2.43.0


From 96e8c302a87e5cfb981237f07f094514e66c0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:01 +0000
Subject: [PATCH 19/47] fix: string options with 256 or more characters were
 truncated without termination

---
 src/candy/utils/Options.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index 4f0cfbe..b163005 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -330,9 +330,8 @@ class StringOption : public Option {
 
  public:
     StringOption(const char* c, const char* n, const char* d, const char* def = "", const bool disabled_ = false) 
-        : Option(n, d, c, "<string>", disabled_) {
+        : Option(n, d, c, "<string>", disabled_), value(nullptr) {
             len = sprintf(pattern, "-%s=", name);
-            value = new char[256];
             set(def);
         }
 
@@ -351,8 +350,10 @@ class StringOption : public Option {
     }
 
     void set(const char* val) {
-        // memset(value, 0, 256);
-        strncpy(value, val, 256);
+        char* copy = new char[strlen(val) + 1];
+        strcpy(copy, val);
+        delete[] value;
+        value = copy;
     }
 
     char* get() {
-- 
2.43.0


From 7f764eaf84e1afb88d914505088febb5fedcf11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:48 +0000
Subject: [PATCH 20/47] fix: -rsar-enable crashed for formulas without enough
 gates or conjectures and without heuristic configuration

---
 src/candy/Main.cc                  | 2 +-
 src/candy/frontend/SolverFactory.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 52c5c86..778271e 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -228,7 +228,7 @@ int main(int argc, char** argv) {
         if (RSAROptions::opt_rsar_enable) {
             solver = createRSARSolver(problem);
         }
-        else {
+        if (solver == nullptr) {
             solver = createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb, SolverOptions::opt_use_vsidsc, RSILOptions::opt_rsil_enable, RSILOptions::opt_rsil_advice_size);
         }
         solvers.push_back(solver); 
diff --git a/src/candy/frontend/SolverFactory.h b/src/candy/frontend/SolverFactory.h
index 8d594b2..24fe4b1 100644
--- a/src/candy/frontend/SolverFactory.h
+++ b/src/candy/frontend/SolverFactory.h
@@ -60,15 +60,16 @@ CandySolverInterface* createRSARSolver(CNFProblem& problem) {
 	if (initializationComleted) {
 		std::unique_ptr<RefinementHeuristic> refinementHeuristics;
 
-		if (RSAROptions::opt_rsar_inputDepCountHeurConf > 0) {
+		if (strlen(RSAROptions::opt_rsar_inputDepCountHeurConf) > 0) {
 			std::vector<size_t> limits = tokenizeByWhitespace<size_t>(std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }); 
 			if (limits.size() == 0) {
 				throw std::invalid_argument("invalid limits");
 			}
 			refinementHeuristics = createInputDepCountRefinementHeuristic(analyzer, limits);
+			return new ARSolver(std::move(conjectures), std::move(refinementHeuristics)); 
 		}
 
-		return new ARSolver(std::move(conjectures), std::move(refinementHeuristics)); 
+		return new ARSolver(std::move(conjectures)); 
 	}
 	else {
 		return nullptr;
-- 
2.43.0


From 5178697c9b61df153a63e3944658162a78685447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:41 +0000
Subject: [PATCH 21/47] fix: portfolio published the result before its solver
 (missing model) and raced on the list of solvers

---
 src/candy/Main.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 778271e..40305df 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -47,6 +47,8 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <functional>
 #include <type_traits>
 #include <chrono>
+#include <mutex>
+#include <thread>
 
 #include "candy/utils/Memory.h"
 #include "candy/utils/Options.h"
@@ -155,6 +157,7 @@ static void printGateStatistics(CNFProblem& problem) {
     
 CandySolverInterface* solver = nullptr;
 lbool result = l_Undef;
+static std::mutex result_mutex;
 
 static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFProblem& problem, ClauseAllocator*& global_allocator) {
     std::cout << "c Sort Variables: " << SolverOptions::opt_sort_variables << std::endl;
@@ -169,14 +172,18 @@ static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFPro
         global_allocator = solver_->setupGlobalAllocator();
     }
 
-    solvers.push_back(solver_);
     solver_->setTermCallback(solver_, interrupted_callback);
+    {
+        std::lock_guard<std::mutex> lock(result_mutex);
+        solvers.push_back(solver_);
+    }
 
     lbool result_ = solver_->solve();
 
+    std::lock_guard<std::mutex> lock(result_mutex);
     if (result == l_Undef) {
+        solver = solver_; // must be set before the main thread sees the result
         result = result_;
-        solver = solver_;
     }
 }
 
@@ -310,6 +317,7 @@ int main(int argc, char** argv) {
         while (result == l_Undef && !interrupted) {
             std::this_thread::sleep_for(std::chrono::milliseconds(500));
         }
+        result_mutex.lock(); // keep the result of the first thread, wait until it is complete
         installSignalHandlers(false);
     }
 
-- 
2.43.0


From 805856a45409c99a8686f9d6d3be9559d5b5f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:48 +0000
Subject: [PATCH 22/47] fix: portfolio aborted when returning after model or
 proof tests (joinable threads)

---
 src/candy/Main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 40305df..308cfb3 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -319,6 +319,9 @@ int main(int argc, char** argv) {
         }
         result_mutex.lock(); // keep the result of the first thread, wait until it is complete
         installSignalHandlers(false);
+        for (std::thread& thread : threads) {
+            thread.detach(); // returning with joinable threads aborts the process
+        }
     }
 
     printf(result == l_True ? "s SATISFIABLE\n" : result == l_False ? "s UNSATISFIABLE\n" : "s INDETERMINATE\n");
-- 
2.43.0


From 3c9b1c4393b697026645d4851748d1a16b6da332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 23/47] fix: AIG output used the constant literals for the
 first variable, read out of bounds and mangled gates that are used in both
 polarities

---
 src/candy/gates/AIGProblem.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/candy/gates/AIGProblem.h b/src/candy/gates/AIGProblem.h
index 56831d8..ff2568b 100644
--- a/src/candy/gates/AIGProblem.h
+++ b/src/candy/gates/AIGProblem.h
@@ -87,18 +87,19 @@ public:
         if (lit == lit_Undef) {
             fprintf(out, "1");
         } else {
-            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit));
+            // literals 0 and 1 are the constants, so AIGER variables start with 1
+            fprintf(out, "%i", 2 + (int)(negate[lit.var()] ? ~lit : lit));
         }
     }
 
     void printAIG(FILE* out) {
         // As output may not be negative in AIG format we need to flip these globally:
-        std::vector<bool> negate(var_count, false);
+        std::vector<bool> negate(var_count + 1, false);
         for (BinaryAndGate a : ands) {
             if (a.output.sign()) negate[a.output.var()] = true;
         }
 
-        fprintf(out, "aag %i %zu %i %i %zu\n", var_count, inputs.size(), 0, 1, ands.size());
+        fprintf(out, "aag %i %zu %i %i %zu\n", var_count + 1, inputs.size(), 0, 1, ands.size());
         for (Var var : inputs) {
             printLit(out, Lit(var), negate);
             fprintf(out, "\n");
@@ -152,6 +153,10 @@ private:
             Lit lit = literals.back();
             literals.pop_back();
 
+            if (problem[lit.var()].isDefined()) {
+                lit = problem[lit.var()].out; // gates with non-monotonic parents are referenced in both polarities
+            }
+
             if (!visited[lit]) {
                 visited[lit] = true;
 
-- 
2.43.0


From 8069de9e7a36653189a60b02d13e6e681f1db4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 24/47] fix: normalizing the roots of a gate problem modified
 the clauses of the analyzed problem

---
 src/candy/gates/GateProblem.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/gates/GateProblem.h b/src/candy/gates/GateProblem.h
index 04cc133..7830017 100644
--- a/src/candy/gates/GateProblem.h
+++ b/src/candy/gates/GateProblem.h
@@ -279,8 +279,9 @@ public:
         remainder.clear();
         for (Cl* c : roots) {
             inp.insert(c->begin(), c->end());
-            c->push_back(Lit(root, true));
-            gates[root].fwd.push_back(new Cl(*c));
+            Cl* clause = new Cl(*c); // the clauses of the problem must not be modified
+            clause->push_back(Lit(root, true));
+            gates[root].fwd.push_back(clause);
         }
         gates[root].inp.insert(gates[root].inp.end(), inp.begin(), inp.end());
         this->roots.clear();
-- 
2.43.0


From 840f4d5d5f87e3c29a1079f34bce38c371c867a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 25/47] fix: gate patterns accepted full encodings with
 duplicate, missing or short clauses

---
 src/candy/gates/GateAnalyzer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index dc5b994..497be04 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -203,7 +203,13 @@ bool GateAnalyzer::patternCheck(Lit o, const For& fwd, const For& bwd) {
     if (fwd.size() == bwd.size() && 2*fwd.size() == pow(2, fwd_inp.size()/2)) {
         std::set<Var> vars;
         for (Lit l : fwd_inp) vars.insert(l.var());
-        return 2*vars.size() == fwd_inp.size();
+        if (2*vars.size() != fwd_inp.size() || !fixedClauseSize(fwd, vars.size() + 1) || !fixedClauseSize(bwd, vars.size() + 1)) {
+            return false;
+        }
+        // duplicate clauses must not stand in for missing ones
+        std::set<std::set<Lit>> clauses;
+        for (const For* f : { &fwd, &bwd }) for (Cl* c : *f) clauses.emplace(c->begin(), c->end());
+        return clauses.size() == fwd.size() + bwd.size();
     }
     return false;
 }
-- 
2.43.0


From 916f6e68ea9daf7533d45f44f933db7d90009d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 26/47] fix: cnf2aig aborted on unreadable input

---
 src/candy/cnf2aig.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/candy/cnf2aig.cc b/src/candy/cnf2aig.cc
index f66ac0a..ec7fc1f 100644
--- a/src/candy/cnf2aig.cc
+++ b/src/candy/cnf2aig.cc
@@ -33,6 +33,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include "candy/core/SolverTypes.h"
 #include "candy/gates/GateAnalyzer.h"
 #include "candy/gates/AIGProblem.h"
+#include "candy/utils/Exceptions.h"
 
 using namespace Candy;
 
@@ -46,7 +47,13 @@ int main(int argc, char** argv) {
     char* filename = argv[1];
 
 	CNFProblem problem;
-    problem.readDimacsFromFile(filename);
+	try {
+		problem.readDimacsFromFile(filename);
+	}
+	catch (ParserException& e) {
+		fprintf(stderr, "Caught Parser Exception:\n%s\n", e.what());
+		exit(1);
+	}
 
 	bool trivially_unsat = false;
 	for (Cl* clause : problem) {
-- 
2.43.0


From e946b804b9f5320b45f27ca5477f4fd27ede21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:04 +0000
Subject: [PATCH 27/47] fix: log messages preceded the header of generated AIG
 files

---
 src/candy/cnf2aig.cc      | 2 ++
 src/candy/utils/Options.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/cnf2aig.cc b/src/candy/cnf2aig.cc
index ec7fc1f..e9939b4 100644
--- a/src/candy/cnf2aig.cc
+++ b/src/candy/cnf2aig.cc
@@ -28,6 +28,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <utility>
 #include <vector>
 #include <algorithm>
+#include <iostream>
 
 #include "candy/core/CNFProblem.h"
 #include "candy/core/SolverTypes.h"
@@ -44,6 +45,7 @@ int main(int argc, char** argv) {
 	}
 
 	FILE* out = stdout;
+	std::cout.rdbuf(std::cerr.rdbuf()); // keep log messages out of the generated file
     char* filename = argv[1];
 
 	CNFProblem problem;
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index b163005..37719e7 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -84,7 +84,7 @@ class Option {
             getOptionList().push_back(this);
         }
         else {
-            std::cout << "c Option '" << name_ << "' has been disabled. You are not able to change the default setting." << std::endl;
+            std::cerr << "c Option '" << name_ << "' has been disabled. You are not able to change the default setting." << std::endl;
         }
     }
 
-- 
2.43.0


From 08302f94d12668e6c6f3a1766794659305678fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:04 +0000
Subject: [PATCH 28/47] fix: log line without comment prefix in the solver's
 output

---
 src/candy/frontend/CandyBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/frontend/CandyBuilder.cc b/src/candy/frontend/CandyBuilder.cc
index 4495156..956989a 100644
--- a/src/candy/frontend/CandyBuilder.cc
+++ b/src/candy/frontend/CandyBuilder.cc
@@ -63,7 +63,7 @@ CandySolverInterface* createSolver(bool staticPropagate, bool lrb, bool vsidsc,
             std::cout << "c Building Solver of Type Solver<StaticPropagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().propagateStaticClauses().build();
         } else {
-            std::cout << "Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
+            std::cout << "c Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().build();
         }
     } 
-- 
2.43.0


From 4a137ee6720abfef395518aedc7be33c956e2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:28 +0000
Subject: [PATCH 29/47] fix: minimal model computation never improved the model
 (stale assumptions, colliding and twice counted variables, non-strict bound)

---
 src/candy/minimizer/Minimizer.cc | 7 ++++---
 src/candy/minimizer/Minimizer.h  | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index a893837..eea59f0 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -140,14 +140,15 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
         CNFProblem counter, lessthan;
         Cl variables;
         for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
-            variables.push_back(Lit(v, false));
+            variables.push_back(Lit(counter.newVar(), false)); // reserve the names of the problem's variables
         }
         Cl outputs = genParCounter(counter, variables);
         solver->init(counter);
+        solver->getAssignment().setAssumptions({}); // fewer literals might need other literals
         satisfiable = l_True;
-        while (satisfiable == l_True) {
+        while (satisfiable == l_True && cardinality.size() > 0) {
             lessthan.clear();
-            genLessThanConstraint(lessthan, outputs, cardinality.size());
+            genLessThanConstraint(lessthan, outputs, cardinality.size() - 1);
             solver->init(lessthan);
 
             satisfiable = solver->solve();
diff --git a/src/candy/minimizer/Minimizer.h b/src/candy/minimizer/Minimizer.h
index 1e6666b..ba35caa 100644
--- a/src/candy/minimizer/Minimizer.h
+++ b/src/candy/minimizer/Minimizer.h
@@ -84,7 +84,7 @@ private:
         }
 
         Cl a_inputs { inputs.begin(), inputs.begin() + inputs.size() / 2 };
-        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() };
+        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() - 1 }; // the last input is the carry-in
         Lit carry = inputs.back();
         
         Cl a_outputs = genParCounter(out, a_inputs);
@@ -113,7 +113,7 @@ private:
     }
 
     /**
-     * Generate less-than constraint for the outputs of the parallel counter
+     * Generate less-than-or-equal constraint for the outputs of the parallel counter
      * */
     void genLessThanConstraint(CNFProblem& out, Cl outputs, int k) {
         For lessthan;
-- 
2.43.0


From b40c2efcc199ab0cb0beb2c306d45fb862b25663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:42 +0000
Subject: [PATCH 30/47] fix: more decision levels than variables (repeated
 assumptions) made the lbd computation access memory out of bounds

---
 src/candy/core/Trail.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index f3abb40..ac2d8cb 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -240,6 +240,8 @@ public:
     // Begins a new decision level
     inline void newDecisionLevel() {
         trail_lim.push_back(trail_size);
+        // satisfied assumptions open dummy levels: there can be more levels than variables
+        stamp.grow(trail_lim.size() + 1);
     }
 
     inline void set_value(Lit p) {
-- 
2.43.0


From 1eb5f4f5757aba54f889cd966a88832ae9d9ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:42 +0000
Subject: [PATCH 31/47] fix: the RSIL modes vanishing and implicationbudgeted
 were swapped

---
 src/candy/frontend/CandyBuilder.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CandyBuilder.h b/src/candy/frontend/CandyBuilder.h
index 5010cd1..65f25f8 100644
--- a/src/candy/frontend/CandyBuilder.h
+++ b/src/candy/frontend/CandyBuilder.h
@@ -53,24 +53,24 @@ public:
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
+    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
+    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
     }
 
     constexpr auto branchWithRSILUnrestricted2() const -> CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2> {
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
+    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
+    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
     }
 
     constexpr auto propagateStaticClauses() const -> CandyBuilder<StaticPropagate, TLearning, TBranching> { 
-- 
2.43.0


From 53741317fe5b780e2dfe4f1bf4f11eeba03a98fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:02 +0000
Subject: [PATCH 32/47] fix: random simulation: hashing with the generator of
 the values made distinct gates look equivalent

---
 src/candy/randomsimulation/Partition.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/candy/randomsimulation/Partition.cc b/src/candy/randomsimulation/Partition.cc
index bbd828a..4904f7f 100644
--- a/src/candy/randomsimulation/Partition.cc
+++ b/src/candy/randomsimulation/Partition.cc
@@ -32,7 +32,6 @@
 #include <unordered_map>
 #include <cstdint>
 
-#include <candy/utils/FastRand.h>
 #include <candy/utils/MemUtils.h>
 
 #include "SimulationVector.h"
@@ -42,6 +41,16 @@
 #define FASTVARIABLEPARTITIONING_VARID_SIZE_BITS 28
 
 namespace Candy {
+    /* Simulation vectors are produced by fastNextRand(), which is linear: hashing them
+     * with fastNextRand() makes the values of an input cancel each other out. Therefore,
+     * group IDs are computed with an unrelated nonlinear bijection. */
+    static inline std::uint64_t nextGroupId(std::uint64_t x) noexcept {
+        x += 0x9e3779b97f4a7c15ull;
+        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
+        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
+        return x ^ (x >> 31);
+    }
+    
     Partition::Partition() {
         
     }
@@ -235,7 +244,7 @@ namespace Candy {
     void DefaultPartition::initializePartitionEntry(size_t index, const SimulationVectors &varAssignments) {
         
         PartitionEntry partitionEntry;
-        partitionEntry.groupId = fastNextRand(varAssignments.getConst(index).vars[0]);
+        partitionEntry.groupId = nextGroupId(varAssignments.getConst(index).vars[0]);
         partitionEntry.varId = index;
         partitionEntry.backbone = 1;
         partitionEntry.polarity = 1;
@@ -246,7 +255,7 @@ namespace Candy {
         partitionEntry.backbone = 0;
         partitionEntry.polarity = 0;
         partitionEntry.groupId =
-          fastNextRand(~(varAssignments.getConst(index).vars[0]));
+          nextGroupId(~(varAssignments.getConst(index).vars[0]));
         m_partitioningNeg.push_back(partitionEntry);
     }
     
@@ -260,7 +269,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ simVec.vars[svIdx]);
+                  nextGroupId(partitionEntry.groupId ^ simVec.vars[svIdx]);
             }
             
             if (partitionEntry.backbone) {
@@ -284,7 +293,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ ~(simVec.vars[svIdx]));
+                  nextGroupId(partitionEntry.groupId ^ ~(simVec.vars[svIdx]));
             }
         }
     }
-- 
2.43.0


From 6fec998050642cf0fca71552ba711131dbd805ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:02 +0000
Subject: [PATCH 33/47] fix: random simulation: recursive clause order listed
 gates repeatedly that occur in several root clauses

---
 src/candy/randomsimulation/ClauseOrder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index fcf34d7..a6484ac 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -247,7 +247,8 @@ namespace Candy {
         for (const Cl* rootClause : analyzer.getResult().getRoots()) {
             for (Lit rootLit : *rootClause) {
                 m_maxVar = std::max(m_maxVar, rootLit.var());
-                if (analyzer.getResult().getGate(rootLit).isDefined()) {
+                if (analyzer.getResult().getGate(rootLit).isDefined()
+                    && seenOutputs.find(rootLit.var()) == seenOutputs.end()) {
                     readGatesRecursive(analyzer, rootLit, seenInputs, seenOutputs);
                 }
             }
-- 
2.43.0


From 0d78ac83755a6177e8d27b7c350ab5083e42affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:02 +0000
Subject: [PATCH 34/47] fix: random simulation: -rs-only-nonmono-gates disabled
 every gate in the default clause order

---
 src/candy/randomsimulation/ClauseOrder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index a6484ac..3a8c0b5 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -348,6 +348,8 @@ namespace Candy {
     };
     
     void NonrecursiveClauseOrder::readGates(const GateAnalyzer& analyzer) {
+        ClauseOrderImplBase::readGates(analyzer);
+        
         DFSGateCollector orderedGates = traverseDFS<DFSGateCollector>(analyzer.getGateProblem());
         m_inputVariables = std::move(orderedGates.inputs);
         m_maxVar = orderedGates.maxVar;
-- 
2.43.0


From cb1d77fb569d11af6f4cf64a5f618006d956d5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 35/47] fix: random simulation evaluated monotonically nested
 gates by their (possibly missing) backward clauses

---
 src/candy/randomsimulation/ClauseOrder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index 3a8c0b5..67c91ca 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -175,7 +175,7 @@ namespace Candy {
             });
         });
         
-        if (gate.hasNonMonotonicParent()
+        if (!gate.hasNonMonotonicParent()
             || !bwdUsesOnlyInputs
             || gate.fwd.size() <= gate.bwd.size()) {
             usedOutput = ~gate.out;
-- 
2.43.0


From 2cc14550553499b854a75aded9d14cfbf92dc46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:38 +0000
Subject: [PATCH 36/47] fix: assertion failed for the documented value 0 of
 -rs-rrat

---
 src/candy/randomsimulation/RandomSimulator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/RandomSimulator.cc b/src/candy/randomsimulation/RandomSimulator.cc
index ef88a24..ba8e041 100644
--- a/src/candy/randomsimulation/RandomSimulator.cc
+++ b/src/candy/randomsimulation/RandomSimulator.cc
@@ -180,7 +180,7 @@ namespace Candy {
     }
     
     BitparallelRandomSimulatorBuilder& BitparallelRandomSimulatorBuilder::withReductionRateAbortThreshold(float threshold) {
-        assert (threshold > 0);
+        assert (threshold >= 0);
         m_reductionRateAbortThreshold = threshold;
         return *this;
     }
-- 
2.43.0


From d9df564e691c4db6c545a8f22093abff2853168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:29 +0000
Subject: [PATCH 37/47] fix: gate filters omit gates that transitively depend
 on disabled outputs, as documented

---
 src/candy/randomsimulation/ClauseOrder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index 67c91ca..960c2dd 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -157,6 +157,8 @@ namespace Candy {
             for (auto inputLit : gate.inp) {
                 if (analyzer.getResult().getGate(inputLit).isDefined()
                     && m_enabledOutputs.find(inputLit.var()) == m_enabledOutputs.end()) {
+                    // gates depending on this one are to be omitted, too
+                    m_enabledOutputs.erase(outputVar);
                     return; // no backtracking
                 }
             }
-- 
2.43.0


From f46359cad505655a724f051ae16289d922da12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 38/47] fix: minimized models kept literals and constraints of
 earlier minimizations

---
 src/candy/core/CandySolverResult.h | 5 +++++
 src/candy/minimizer/Minimizer.cc   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/candy/core/CandySolverResult.h b/src/candy/core/CandySolverResult.h
index 6dc896a..ad3db69 100644
--- a/src/candy/core/CandySolverResult.h
+++ b/src/candy/core/CandySolverResult.h
@@ -49,6 +49,7 @@ public:
     void clear() {
         status = l_Undef;
         model.clear();
+        minimizedModel.clear();
         conflict.clear();
     }
 
@@ -108,6 +109,10 @@ public:
     }
 
     /** support for minimized models */
+    void clearMinimizedModel() {
+        minimizedModel.clear();
+    }
+
     void setMinimizedModelValue(Lit lit) {
         if (lit.var() >= (Var)minimizedModel.size()) {
             minimizedModel.resize(lit.var()+1, l_Undef);
diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index eea59f0..892213a 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -93,6 +93,7 @@ void Minimizer::mimimizeModel(bool pruningActivated, bool computeMinimalModel, b
     }
 
     // translate back to original polarity
+    model.clearMinimizedModel(); // drop the literals of an earlier minimization
     for (Lit lit : minimizedModel) {
         if (model.satisfies(lit)) {
             model.setMinimizedModelValue(lit);
@@ -107,6 +108,7 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
     Cl cardinality;
     Cl assumptions;
 
+    solver->clear(); // drop the constraints of an earlier minimization
     solver->init(CNFProblem { hittingSetProblem });
 
     for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
-- 
2.43.0


From e4b5603640f6cfff7b90a6f79c8487a8089756ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:13 +0000
Subject: [PATCH 39/47] fix: proof checker did not recognize lemmas and
 deletions with repeated literals

---
 src/candy/core/DRATChecker.cc | 9 +++++++++
 src/candy/core/DRATChecker.h  | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index 61949b0..f87b93e 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -29,6 +29,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <string.h>
 
 #include <sys/stat.h>
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 
@@ -88,6 +89,7 @@ bool DRATChecker::check_proof(gzFile input_stream) {
             for (int plit = in.readInteger(); plit != 0; plit = in.readInteger()) {
                 lits.push_back(Lit(abs(plit)-1, plit < 0));
             }
+            remove_repeated(lits);
             grow(lits.begin(), lits.end());
             // std::cout << "c *** Checking Delete: " << lits << " *** " << std::endl;
             check_clause_remove(lits.begin(), lits.end());
@@ -97,6 +99,7 @@ bool DRATChecker::check_proof(gzFile input_stream) {
             for (int plit = in.readInteger(); plit != 0; plit = in.readInteger()) {
                 lits.push_back(Lit(abs(plit)-1, plit < 0));
             }
+            remove_repeated(lits);
             grow(lits.begin(), lits.end());
             // std::cout << "c *** Checking Learned: " << lits << " *** " << std::endl;
             if (!check_clause_add(lits.begin(), lits.end())) {
@@ -108,6 +111,12 @@ bool DRATChecker::check_proof(gzFile input_stream) {
     return clause_db.hasEmptyClause();
 }
 
+// clauses are sets of literals
+void DRATChecker::remove_repeated(Cl& lits) {
+    std::sort(lits.begin(), lits.end());
+    lits.erase(std::unique(lits.begin(), lits.end()), lits.end());
+}
+
 // proofs can introduce new variables
 template <typename Iterator>
 void DRATChecker::grow(Iterator begin, Iterator end) {
diff --git a/src/candy/core/DRATChecker.h b/src/candy/core/DRATChecker.h
index 6231c72..5ded524 100644
--- a/src/candy/core/DRATChecker.h
+++ b/src/candy/core/DRATChecker.h
@@ -53,6 +53,8 @@ public:
 private:
     bool check_proof(gzFile input_stream);
 
+    void remove_repeated(Cl& lits);
+
     template <typename Iterator>
     void grow(Iterator begin, Iterator end);
 
-- 
2.43.0


From bc0091a61364bb58557447bcdc9c3a1485ad12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:16 +0000
Subject: [PATCH 40/47] fix: clauses larger than a page of the clause allocator
 (32 MB) were written out of bounds

---
 src/candy/core/clauses/ClauseAllocatorMemory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/clauses/ClauseAllocatorMemory.h b/src/candy/core/clauses/ClauseAllocatorMemory.h
index 0db4d43..e6e3564 100644
--- a/src/candy/core/clauses/ClauseAllocatorMemory.h
+++ b/src/candy/core/clauses/ClauseAllocatorMemory.h
@@ -20,6 +20,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #ifndef SRC_CANDY_CORE_CLAUSEALLOCATORPAGE_H_
 #define SRC_CANDY_CORE_CLAUSEALLOCATORPAGE_H_
 
+#include <algorithm>
 #include <cstdlib> 
 #include <cstring> 
 #include <assert.h>
@@ -219,7 +220,8 @@ public:
 
     inline void* allocate(size_t length) {
         if (pages.size() == 0 || !pages.back().hasMemory(length)) { 
-            pages.emplace_back(default_page_size); 
+            // a single clause can be larger than the default page
+            pages.emplace_back(std::max((size_t)default_page_size, sizeof(Clause) + sizeof(Lit) * length)); 
         }
         return pages.back().allocate(length);
     }
-- 
2.43.0


From 299abc6a81bc6851caa7d59c63743b4d901155a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:04 +0000
Subject: [PATCH 41/47] fix: portfolio threads and main thread raced on the
 result, the interruption flags and the list of solvers

---
 src/candy/Main.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 308cfb3..c243eaf 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -47,6 +47,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <functional>
 #include <type_traits>
 #include <chrono>
+#include <atomic>
 #include <mutex>
 #include <thread>
 
@@ -73,8 +74,8 @@ using namespace Candy;
 
 static std::vector<CandySolverInterface*> solvers;
 
-static bool interrupted = false;
-static unsigned int start_time = 0;
+static std::atomic<bool> interrupted(false);
+static std::atomic<unsigned int> start_time(0);
 static int interrupted_callback(void* state) {
     if (SolverOptions::time_limit > 0) {
         if (start_time == 0) {
@@ -157,7 +158,17 @@ static void printGateStatistics(CNFProblem& problem) {
     
 CandySolverInterface* solver = nullptr;
 lbool result = l_Undef;
-static std::mutex result_mutex;
+static std::mutex result_mutex; // protects result, solver and solvers
+
+static bool hasResult() {
+    std::lock_guard<std::mutex> lock(result_mutex);
+    return result != l_Undef;
+}
+
+static size_t numSolvers() {
+    std::lock_guard<std::mutex> lock(result_mutex);
+    return solvers.size();
+}
 
 static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFProblem& problem, ClauseAllocator*& global_allocator) {
     std::cout << "c Sort Variables: " << SolverOptions::opt_sort_variables << std::endl;
@@ -252,7 +263,7 @@ int main(int argc, char** argv) {
             std::cout << "Parallel mode with static database is disabled in this version due to a bug. If you want to test it, please checkout the branch 'release_sat_2019'." << std::endl;
             exit(0);
         }
-        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && result == l_Undef; count++) {
+        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && !hasResult(); count++) {
             std::cout << "c Initializing Solver " << count << std::endl;
             ClauseDatabaseOptions::opt_recalculate_lbd = false;
             SolverOptions::opt_sort_variables = ((count % 2) == 0);
@@ -309,12 +320,12 @@ int main(int argc, char** argv) {
             do { 
                 // wait till solver is initialized (and wait a bit longer)
                 std::this_thread::sleep_for(std::chrono::milliseconds(ParallelOptions::opt_thread_initialization_delay)); 
-            } while (solvers.size() <= count);
+            } while (numSolvers() <= count);
         }
 
         installSignalHandlers(true);
         // problem.clear();
-        while (result == l_Undef && !interrupted) {
+        while (!hasResult() && !interrupted) {
             std::this_thread::sleep_for(std::chrono::milliseconds(500));
         }
         result_mutex.lock(); // keep the result of the first thread, wait until it is complete
-- 
2.43.0


From 0937f0977ece31ce0189eeffe9c5af50ad3f0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:29 +0000
Subject: [PATCH 42/47] fix: gate analysis never released its solver and gate
 structure

---
 src/candy/Main.cc                | 2 +-
 src/candy/gates/GateAnalyzer.cc  | 7 +++++--
 src/candy/gates/GateAnalyzer.h   | 3 +++
 src/candy/gates/GateProblem.h    | 6 ++++++
 src/candy/minimizer/Minimizer.cc | 2 +-
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index c243eaf..065eb1a 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -132,7 +132,7 @@ static void printGateStatistics(CNFProblem& problem) {
     analyzer.analyze();
     runtime.stop();
     
-    GateProblem gates = analyzer.getResult();
+    GateProblem& gates = analyzer.getResult();
 
     std::cout << "c Variables: " << problem.nVars() << std::endl;
     std::cout << "c Clauses: " << problem.nClauses() << std::endl;
diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index 497be04..2c901af 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -32,7 +32,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 namespace Candy {
 
 GateAnalyzer::GateAnalyzer(const CNFProblem& problem_, GateRecognitionMethod method, int tries, double timeout) :
-        problem(problem_), gate_problem(*new GateProblem { problem_ }), runtime(timeout), index(problem_), 
+        problem(problem_), gate_problem(*new GateProblem { problem_ }), runtime(timeout), solver(nullptr), index(problem_), 
         maxTries (tries), usePatterns (false), useSemantic (false), useHolistic (false)
 {
     switch (method) {
@@ -51,7 +51,10 @@ GateAnalyzer::GateAnalyzer(const CNFProblem& problem_, GateRecognitionMethod met
     }
 }
 
-GateAnalyzer::~GateAnalyzer() { }
+GateAnalyzer::~GateAnalyzer() {
+    delete solver;
+    delete &gate_problem;
+}
 
 
 /**
diff --git a/src/candy/gates/GateAnalyzer.h b/src/candy/gates/GateAnalyzer.h
index d839ee0..fedb5a6 100644
--- a/src/candy/gates/GateAnalyzer.h
+++ b/src/candy/gates/GateAnalyzer.h
@@ -60,6 +60,9 @@ public:
 
     ~GateAnalyzer();
 
+    GateAnalyzer(const GateAnalyzer&) = delete;
+    GateAnalyzer& operator=(const GateAnalyzer&) = delete;
+
     GateProblem& getResult() const {
         return gate_problem;
     }
diff --git a/src/candy/gates/GateProblem.h b/src/candy/gates/GateProblem.h
index 7830017..43d9d42 100644
--- a/src/candy/gates/GateProblem.h
+++ b/src/candy/gates/GateProblem.h
@@ -54,6 +54,7 @@ public:
     unsigned int gate_count = 0;
     unsigned int monoton_gate_count = 0;
     Cl* artificialRoot; // top-level unit-clause that can be generated by normalizeRoots()
+    For rootClauses; // clauses generated by normalizeRoots()
 
     unsigned int stat_patterns = 0;
     unsigned int stat_semantic = 0;
@@ -69,8 +70,12 @@ public:
         inputs.resize(2 * problem.nVars(), false);
     }
 
+    GateProblem(const GateProblem&) = delete;
+    GateProblem& operator=(const GateProblem&) = delete;
+
     ~GateProblem() {
         delete artificialRoot;
+        for (Cl* clause : rootClauses) delete clause;
     }
 
     inline void setUsedAsInput(Lit lit) {
@@ -282,6 +287,7 @@ public:
             Cl* clause = new Cl(*c); // the clauses of the problem must not be modified
             clause->push_back(Lit(root, true));
             gates[root].fwd.push_back(clause);
+            rootClauses.push_back(clause);
         }
         gates[root].inp.insert(gates[root].inp.end(), inp.begin(), inp.end());
         this->roots.clear();
diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index 892213a..c114e66 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -81,7 +81,7 @@ void Minimizer::mimimizeModel(bool pruningActivated, bool computeMinimalModel, b
 
         if (projectToInputs) {
             auto end = remove_if(minimizedModel.begin(), minimizedModel.end(), 
-                [gateAnalyzer](Lit lit) { 
+                [&gateAnalyzer](Lit lit) { 
                     return gateAnalyzer.getGateProblem().isGateOutput(lit); 
                 });
             minimizedModel.erase(end, minimizedModel.end());
-- 
2.43.0


From 0aee53058301104ce1d0e2b055b434fe6b402181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:29 +0000
Subject: [PATCH 43/47] fix: model minimization leaked the clauses of its
 auxiliary problems

---
 src/candy/minimizer/Minimizer.cc | 2 ++
 src/candy/minimizer/Minimizer.h  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index c114e66..bef3009 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -92,6 +92,8 @@ void Minimizer::mimimizeModel(bool pruningActivated, bool computeMinimalModel, b
         minimizedModel = iterativeMinimization(hittingSetProblem, computeMinimalModel);
     }
 
+    for (Cl* clause : hittingSetProblem) delete clause;
+
     // translate back to original polarity
     model.clearMinimizedModel(); // drop the literals of an earlier minimization
     for (Lit lit : minimizedModel) {
diff --git a/src/candy/minimizer/Minimizer.h b/src/candy/minimizer/Minimizer.h
index ba35caa..cb732df 100644
--- a/src/candy/minimizer/Minimizer.h
+++ b/src/candy/minimizer/Minimizer.h
@@ -133,6 +133,7 @@ private:
         }
 
         out.readClauses(lessthan);
+        for (Cl* clause : lessthan) delete clause;
     }
 
 public:
-- 
2.43.0


From 9f41ca647ad66cd3346fbd1b3bb4c5b2b83ef7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:29 +0000
Subject: [PATCH 44/47] fix: malformed input leaked the file, the decompression
 state and the read buffer

---
 src/candy/core/CNFProblem.cc   | 15 +++++++--------
 src/candy/core/DRATChecker.cc  |  8 ++++----
 src/candy/utils/StreamBuffer.h |  9 +++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/candy/core/CNFProblem.cc b/src/candy/core/CNFProblem.cc
index 34f5b01..575a2f7 100644
--- a/src/candy/core/CNFProblem.cc
+++ b/src/candy/core/CNFProblem.cc
@@ -23,6 +23,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include "candy/core/SolverTypes.h"
 #include "candy/utils/Exceptions.h"
 
+#include <memory>
 #include <unordered_map>
 
 #include <stdio.h>
@@ -41,21 +42,19 @@ void CNFProblem::printDIMACS() const {
 }
 
 void CNFProblem::readDimacsFromStdin() {
-    gzFile in = gzdopen(0, "rb");
-    if (in == NULL) {
+    std::unique_ptr<gzFile_s, int(*)(gzFile)> in(gzdopen(0, "rb"), gzclose); // closed also if parsing throws
+    if (in == nullptr) {
         throw ParserException("ERROR! Could not open file: <stdin>");
     }
-    readDimacs(in);
-    gzclose(in);
+    readDimacs(in.get());
 }
 
 void CNFProblem::readDimacsFromFile(const char* filename) {
-    gzFile in = gzopen(filename, "rb");
-    if (in == NULL) {
+    std::unique_ptr<gzFile_s, int(*)(gzFile)> in(gzopen(filename, "rb"), gzclose); // closed also if parsing throws
+    if (in == nullptr) {
         throw ParserException(std::string("ERROR! Could not open file"));
     }
-    readDimacs(in);
-    gzclose(in);
+    readDimacs(in.get());
 }
 
 void CNFProblem::readDimacs(gzFile input_stream) {
diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index f87b93e..b3b1884 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -32,6 +32,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <algorithm>
 #include <fstream>
 #include <iostream>
+#include <memory>
 
 namespace Candy {
 
@@ -60,12 +61,11 @@ DRATChecker::~DRATChecker() {
 }
 
 bool DRATChecker::check_proof(const char* filename) {
-    gzFile in = gzopen(filename, "rb");
-    if (in == NULL) {
+    std::unique_ptr<gzFile_s, int(*)(gzFile)> in(gzopen(filename, "rb"), gzclose); // closed also if parsing throws
+    if (in == nullptr) {
         throw ParserException("ERROR! Could not open file");
     }
-    bool result = clause_db.hasEmptyClause() || check_proof(in);
-    gzclose(in);
+    bool result = clause_db.hasEmptyClause() || check_proof(in.get());
     return result;
 }
 
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 112fc5a..ebb1d18 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -26,6 +26,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <errno.h>
 #include <string.h>
 #include <iostream>
+#include <memory>
 
 namespace Candy {
 
@@ -33,6 +34,7 @@ static const int buffer_size = 1024*1024;
 
 class StreamBuffer {
     gzFile in;
+    std::unique_ptr<char[]> storage; // released also if the first refill throws
     char* buffer;
     int pos;
     int size;
@@ -42,13 +44,12 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size + 1]; // one more for the terminating null
+        storage.reset(new char[buffer_size + 1]); // one more for the terminating null
+        buffer = storage.get();
         check_refill_buffer();
     }
 
-    ~StreamBuffer() {
-        delete[] buffer;
-    }
+    ~StreamBuffer() { }
 
     StreamBuffer(const StreamBuffer& other) = delete;
     StreamBuffer& operator=(const StreamBuffer& other) = delete;
-- 
2.43.0


From 62f8bc7068ec0a9ce4a056532a118872996eb6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:29 +0000
Subject: [PATCH 45/47] fix: abstraction-refinement solver leaked the solver it
 creates itself

---
 src/candy/rsar/ARSolver.cc | 3 ++-
 src/candy/rsar/ARSolver.h  | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/rsar/ARSolver.cc b/src/candy/rsar/ARSolver.cc
index ea9bf84..5e2cec4 100644
--- a/src/candy/rsar/ARSolver.cc
+++ b/src/candy/rsar/ARSolver.cc
@@ -174,7 +174,8 @@ namespace Candy {
         if (solver != nullptr) {
             m_solver = solver;
         } else {
-            m_solver = createSolver();
+            m_ownSolver.reset(createSolver());
+            m_solver = m_ownSolver.get();
         }
     }
     
diff --git a/src/candy/rsar/ARSolver.h b/src/candy/rsar/ARSolver.h
index 56fdaa0..d5623d5 100644
--- a/src/candy/rsar/ARSolver.h
+++ b/src/candy/rsar/ARSolver.h
@@ -148,6 +148,7 @@ namespace Candy {
         std::function<std::unique_ptr<std::unordered_set<Var>>()> createConflictGetter();
 
         std::unique_ptr<Conjectures> m_conjectures;
+        std::unique_ptr<CandySolverInterface> m_ownSolver; // the underlying solver, unless it was passed by the client
         CandySolverInterface* m_solver;
         int m_maxRefinementSteps;
         std::vector<std::unique_ptr<RefinementHeuristic>> m_heuristics;
-- 
2.43.0


From bd46a2c4642c446871f7bd84e66933e480bfbef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:36 +0000
Subject: [PATCH 46/47] fix: clearing a solver with implicit learning kept the
 conjectures of the previous problem (memory accesses out of bounds)

---
 src/candy/systems/branching/rsil/BranchingHeuristics.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/candy/systems/branching/rsil/BranchingHeuristics.h b/src/candy/systems/branching/rsil/BranchingHeuristics.h
index 655a2bb..8f5fff1 100644
--- a/src/candy/systems/branching/rsil/BranchingHeuristics.h
+++ b/src/candy/systems/branching/rsil/BranchingHeuristics.h
@@ -93,6 +93,11 @@ namespace Candy {
 
         void clear() {
             defaultBranchingHeuristic.clear();
+            // the conjectures and the advice belong to the previous problem
+            conjectures.reset();
+            m_advice = ImplicitLearningAdvice<AdviceType>();
+            initializationCompleted = false;
+            blockInitialization = false;
         }
 
     	virtual void init(const CNFProblem& problem) {
-- 
2.43.0


From 338526b588a80cfa1452bd786a15365eef6e6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 47/47] fix: unknown implicit-learning modes and malformed
 refinement limits aborted the process instead of being refused

---
 src/candy/Main.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 065eb1a..aff75da 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -119,6 +119,21 @@ static void installSignalHandlers(bool handleInterruptsBySolver) {
 #endif
 }
 
+// the values of string options are not checked by the parser
+static void checkStringOptions() {
+    const std::string mode { RSILOptions::opt_rsil_mode };
+    if (mode != "unrestricted" && mode != "vanishing" && mode != "implicationbudgeted") {
+        fprintf(stderr, "ERROR! value <%s> is invalid for option \"rsil-mode\".\n", mode.c_str());
+        exit(1);
+    }
+    const std::string limits { RSAROptions::opt_rsar_inputDepCountHeurConf };
+    const size_t count = tokenizeByWhitespace<std::string>(limits).size();
+    if (limits.find_first_not_of("0123456789 ") != std::string::npos || (count == 0 && !limits.empty()) || count != tokenizeByWhitespace<size_t>(limits).size()) {
+        fprintf(stderr, "ERROR! value <%s> is invalid for option \"rsar-heur-idc\".\n", limits.c_str());
+        exit(1);
+    }
+}
+
 static void printProblemStatistics(CNFProblem& problem) {
     std::cout << "c Variables: " << problem.nVars() << std::endl;
     std::cout << "c Clauses: " << problem.nClauses() << std::endl;
@@ -203,6 +218,7 @@ int main(int argc, char** argv) {
 
     setUsageHelp("c USAGE: %s [options] <input-file>\n\nc where input may be either in plain or gzipped DIMACS.\n");
     parseOptions(argc, argv, true);
+    checkStringOptions();
 
     CNFProblem problem{};
     const char* inputFilename = nullptr;
-- 
2.43.0

