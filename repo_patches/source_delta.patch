From 5682f6ecdd931c599d5a00abaa6a6d96132f06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 01/14] fix: identify a top node by its false parameter too

Two top nodes with the same variable, flag and true parameter but different
false parameters were unified, so a manager returned a node that did not carry
the requested parameters (e.g. a true node (1,1) for literal weights (1,0)).
---
 src/psdd_node.cpp         | 4 +++-
 src/psdd_unique_table.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 612736e..0a3b946 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -983,7 +983,8 @@ PsddTopNode::PsddTopNode(uintmax_t *node_index, Vtree *vtree_node,
 bool PsddTopNode::operator==(const PsddTopNode &other) const {
   return variable_index_ == other.variable_index_ &&
          flag_index() == other.flag_index() &&
-         true_parameter_ == other.true_parameter_;
+         true_parameter_ == other.true_parameter_ &&
+         false_parameter_ == other.false_parameter_;
 }
 
 int PsddTopNode::node_type() const { return 3; }
@@ -999,6 +1000,7 @@ void PsddTopNode::CalculateHashValue() {
   std::size_t hash_value = std::hash<uint32_t>{}(variable_index_);
   hash_value ^= true_parameter_.hash_value() << 1;
   hash_value ^= std::hash<uintmax_t>{}(flag_index()) << 2;
+  hash_value ^= false_parameter_.hash_value() << 3;
   set_hash_value(hash_value);
 }
 
diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 9a19e80..95c25b0 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -31,9 +31,13 @@ struct PsddUniqueTableSetFunctional {
           node_b->psdd_top_node()->variable_index()) {
         return node_a->psdd_top_node()->variable_index() <
                node_b->psdd_top_node()->variable_index();
-      } else {
+      } else if (node_a->psdd_top_node()->true_parameter() !=
+                 node_b->psdd_top_node()->true_parameter()) {
         return node_a->psdd_top_node()->true_parameter() <
                node_b->psdd_top_node()->true_parameter();
+      } else {
+        return node_a->psdd_top_node()->false_parameter() <
+               node_b->psdd_top_node()->false_parameter();
       }
     } else {
       if (node_b->node_type() != DECISION_NODE_TYPE) {
-- 
2.43.0


From ba02661247303f55fe389ae6c418d5619d198764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:31 +0000
Subject: [PATCH 02/14] fix: keep a parameter's comparison key in step in the
 compound operators

+=, *= and /= changed the value but not the key ==, < and > compare, so an
updated parameter still compared as the old one.
---
 src/psdd_parameter.cpp | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 20c3cd9..7f12d5c 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -76,28 +76,13 @@ bool PsddParameter::operator>(const PsddParameter &other) const {
 }
 
 PsddParameter &PsddParameter::operator+=(const PsddParameter &other) {
-  if (parameter_ == -std::numeric_limits<double>::infinity()) {
-    // if this is zero
-    parameter_ = other.parameter_;
-  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
-    // No change on the paramter_
-  } else {
-    if (parameter_ > other.parameter_) {
-      parameter_ += std::log1p(std::exp(other.parameter_ - parameter_));
-    } else {
-      parameter_ = other.parameter_ +
-                   std::log1p(std::exp(parameter_ - other.parameter_));
-    }
-  }
-  return *this;
+  return *this = *this + other;
 }
 
 PsddParameter &PsddParameter::operator/=(const PsddParameter &other) {
-  parameter_ -= other.parameter_;
-  return *this;
+  return *this = *this / other;
 }
 
 PsddParameter &PsddParameter::operator*=(const PsddParameter &other) {
-  parameter_ += other.parameter_;
-  return *this;
+  return *this = *this * other;
 }
-- 
2.43.0


From 6a96ee92839d51ce3c50b8a893243d207b182ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 03/14] fix: always select an element with positive weight when
 sampling

DirectSample compared the draw with the cumulative weight on the truncated
comparison key, so a draw close to one selected nothing and ran into
assert(false), and weights below the key's resolution were skipped.
---
 src/psdd_node.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 0a3b946..52c8e7c 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -9,6 +9,7 @@
 #include <functional>
 #include <gmp.h>
 #include <iostream>
+#include <limits>
 #include <psdd/psdd_node.h>
 #include <queue>
 #include <random>
@@ -942,17 +943,23 @@ void PsddDecisionNode::DirectSample(
       (generator->max() - generator->min()));
   PsddParameter acc = PsddParameter::CreateFromDecimal(0);
   auto element_size = primes_.size();
+  // the last element with a positive weight, if rounding leaves acc too small
+  auto selected = element_size;
   for (size_t i = 0; i < element_size; ++i) {
     PsddParameter cur_parameter = parameters_[i];
     acc = acc + cur_parameter;
-    if (uniform_rand < acc) {
-      // Use this partition
-      primes_[i]->DirectSample(instantiation, generator);
-      subs_[i]->DirectSample(instantiation, generator);
-      return;
+    if (cur_parameter.parameter() !=
+        -std::numeric_limits<double>::infinity()) {
+      selected = i;
+    }
+    if (uniform_rand.parameter() < acc.parameter()) {
+      break;
     }
   }
-  assert(false);
+  // Use this partition
+  assert(selected != element_size);
+  primes_[selected]->DirectSample(instantiation, generator);
+  subs_[selected]->DirectSample(instantiation, generator);
 }
 const std::vector<uintmax_t> &PsddDecisionNode::data_counts() const {
   return data_counts_;
@@ -1024,7 +1031,7 @@ void PsddTopNode::DirectSample(std::bitset<MAX_VAR> *instantiation,
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  if (uniform_rand < true_parameter_) {
+  if (uniform_rand.parameter() < true_parameter_.parameter()) {
     instantiation->set(variable_index_);
   }
 }
-- 
2.43.0


From d28f6feb9d4d7d58209728630642820c86741718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 04/14] fix: serialize several roots with every node before its
 children

When a root was a descendant of another root (or lay at another vtree depth),
the breadth-first order put it before its ancestors and the callers that walk
the list in reverse met a parent before its child.
---
 src/psdd_node.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 52c8e7c..e9f4b5c 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -289,6 +289,24 @@ SerializePsddNodes(const std::vector<PsddNode *> &root_nodes) {
     }
     ++explore_index;
   }
+  if (root_nodes.size() > 1) {
+    // A root may lie below another one: order by the depth of the vtree node,
+    // so that every node still precedes its children.
+    std::unordered_map<Vtree *, size_t> depth;
+    for (const auto cur_node : result) {
+      size_t cur_depth = 0;
+      for (Vtree *parent = sdd_vtree_parent(cur_node->vtree_node());
+           parent != nullptr; parent = sdd_vtree_parent(parent)) {
+        ++cur_depth;
+      }
+      depth[cur_node->vtree_node()] = cur_depth;
+    }
+    std::stable_sort(result.begin(), result.end(),
+                     [&depth](PsddNode *lhs, PsddNode *rhs) {
+                       return depth[lhs->vtree_node()] <
+                              depth[rhs->vtree_node()];
+                     });
+  }
   return result;
 }
 
-- 
2.43.0


From 2141a34500a742a643130a8b0c92ff5f5b5189e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 05/14] fix: read zero weights from a psdd file

A zero weight is written as -inf, which operator>> into a double rejects: the
value became 0 (weight one) and the rest of the line was lost.
---
 src/psdd_manager.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 26e4627..b091961 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -2,6 +2,7 @@
 // Created by Yujia Shen on 3/20/18.
 //
 
+#include <cstdlib>
 #include <psdd/psdd_manager.h>
 #include <psdd/psdd_unique_table.h>
 
@@ -612,10 +613,13 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uintmax_t node_index;
       uint32_t vtree_index;
       uint32_t variable_index;
-      double neg_log_pr;
-      double pos_log_pr;
-      iss >> node_index >> vtree_index >> variable_index >> neg_log_pr >>
-          pos_log_pr;
+      // read as text: operator>> does not accept the "-inf" of a zero weight
+      std::string neg_log_pr_text;
+      std::string pos_log_pr_text;
+      iss >> node_index >> vtree_index >> variable_index >> neg_log_pr_text >>
+          pos_log_pr_text;
+      double neg_log_pr = std::strtod(neg_log_pr_text.c_str(), nullptr);
+      double pos_log_pr = std::strtod(pos_log_pr_text.c_str(), nullptr);
       PsddNode *cur_node = GetPsddTopNode(
           variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
           PsddParameter::CreateFromLog(neg_log_pr));
@@ -634,8 +638,9 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       for (size_t j = 0; j < element_size; j++) {
         uintmax_t prime_index;
         uintmax_t sub_index;
-        double weight_in_log;
-        iss >> prime_index >> sub_index >> weight_in_log;
+        std::string weight_text;
+        iss >> prime_index >> sub_index >> weight_text;
+        double weight_in_log = std::strtod(weight_text.c_str(), nullptr);
         assert(construct_cache.find(prime_index) != construct_cache.end());
         assert(construct_cache.find(sub_index) != construct_cache.end());
         PsddNode *prime_node = construct_cache[prime_index];
-- 
2.43.0


From e61843f3ebb99e206eebb220ad2cfa03b48e9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 06/14] fix: ignore blank lines in a DIMACS file

A blank line was read as the empty clause, which made the formula false.
---
 src/cnf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 349bfb1..e33e208 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -50,6 +50,9 @@ CNF::CNF(const char *filename) {
     if (line[0] == 'c'){
       continue;
     }
+    if (line.find_first_not_of(" \t\r") == std::string::npos) {
+      continue;
+    }
     std::vector<SddLiteral> clause;
     std::stringstream ss(line);
     SddLiteral token;
-- 
2.43.0


From b451ccc7f579841af85fa78a56cc4791e637d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:11 +0000
Subject: [PATCH 07/14] fix: forget the previous records when reading a data
 file

ReadFile reset the counts but kept the records.
---
 src/binary_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3342a4a..9218d15 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -18,6 +18,7 @@ void BinaryData::ReadFile(const char *data_file) {
     exit(1);
   }
   CsvRow *row;
+  data_.clear();
   data_size_ = 0;
   variable_size_ = 0;
   while ((row = CsvParser_getRow(csvparser))) {
-- 
2.43.0


From e296c29863d1b8be9a84b1ac9f64c39749cf471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:20 +0000
Subject: [PATCH 08/14] fix: start a dataset with no records and no variables

variable_size_ and data_size_ were left uninitialised, so AddRecord and
ReadSparseDataJsonFile counted up from an indeterminate value.
---
 include/psdd/binary_data.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/psdd/binary_data.h b/include/psdd/binary_data.h
index d4822fd..82b6ff8 100644
--- a/include/psdd/binary_data.h
+++ b/include/psdd/binary_data.h
@@ -27,8 +27,8 @@ class BinaryData {
   double CalculateEntropy() const;
  private:
   std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> data_;
-  uint32_t variable_size_;
-  uintmax_t data_size_;
+  uint32_t variable_size_ = 0;
+  uintmax_t data_size_ = 0;
 };
 
 #endif //STRUCTURED_BAYESIAN_NETWORK_BINARY_DATA_H
-- 
2.43.0


From 3c2b3030570de237ccbe6bf756b2df4c026c7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 09/14] fix: skip a sparse example that names a variable below
 one

A negative index made bitset::set throw and zero set a bit no variable owns.
---
 src/binary_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 9218d15..cd34085 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -130,7 +130,7 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
          positive_variable_it != cur_example.end(); ++positive_variable_it) {
       const auto &cur_variable = *positive_variable_it;
       if (cur_variable.is_number()) {
-        if (cur_variable <= variable_size) {
+        if (cur_variable > 0 && cur_variable <= variable_size) {
           cur_example_bitset.set(cur_variable);
         } else {
           legal_data = false;
-- 
2.43.0


From 98dd0b84edc41ef1266b3b1cdbc4e747d2b1f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 10/14] fix: report unsatisfiable evidence instead of
 multiplying a null node

CNF::Compile returns nullptr for an unsatisfiable formula; psdd_inference passed
it to Multiply and crashed instead of printing UNSATISFIED.
---
 psdd_inference_main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/psdd_inference_main.cpp b/psdd_inference_main.cpp
index cb6ccac..84be2f2 100644
--- a/psdd_inference_main.cpp
+++ b/psdd_inference_main.cpp
@@ -75,8 +75,12 @@ int main(int argc, const char *argv[]) {
   PsddNode *result_node = psdd_manager->ReadPsddFile(psdd_filename, 0);
   if (cnf != nullptr) {
     PsddNode *evid = cnf->Compile(psdd_manager, 0);
-    auto new_node_result = psdd_manager->Multiply(evid, result_node, 0);
-    result_node = new_node_result.first;
+    if (evid == nullptr) {
+      result_node = nullptr;
+    } else {
+      auto new_node_result = psdd_manager->Multiply(evid, result_node, 0);
+      result_node = new_node_result.first;
+    }
   }
   if (result_node == nullptr) {
     std::cout << "UNSATISFIED" << std::endl;
-- 
2.43.0


From c48adc75438e4f9d07f7ecd906f41ee967e9287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:20 +0000
Subject: [PATCH 11/14] fix: do not read past the end of a CSV string

When the last row of a string has no newline, the parser moved past the
terminating NUL and the next call returned rows read from beyond the string.
---
 src/csvparser.c | 484 ++++++++++++++++++++++++------------------------
 1 file changed, 244 insertions(+), 240 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 7e62b4a..eb25621 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,240 +1,244 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
-    }
-    if (endOfFileIndicator) {
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    csvParser->csvStringIter_++;
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+      if (endOfFileIndicator) {
+        // stay on the terminator: the next call must find it again
+        csvParser->csvStringIter_--;
+      }
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_);
+    }
+    if (endOfFileIndicator) {
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0


From e2ffdb31af9b29ba6feff8efd50ca1e2153cfb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 12/14] fix: give variables without a factor a leaf in the
 hypergraph vtree

---
 src/hypergraph_decomposition_vtree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index 648b254..eb34a0e 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -7,6 +7,7 @@
 #include <fstream>
 #include <iostream>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 #include "kahypar/libkahypar.h"
@@ -261,6 +262,16 @@ Vtree* HypergraphDecompositionVtree::ConstructVtree() {
     std::vector<SddLiteral> t(cur_factor_scope.begin(), cur_factor_scope.end());
     factor_scope_cpy.emplace_back(std::move(t));
   }
+  // variables without a factor need a leaf as well
+  std::unordered_set<SddLiteral> covered_variables;
+  for (const auto& cur_factor_scope : factor_scope_cpy) {
+    covered_variables.insert(cur_factor_scope.begin(), cur_factor_scope.end());
+  }
+  for (SddLiteral v = 1; v <= (SddLiteral)network_->var_size(); ++v) {
+    if (covered_variables.find(v) == covered_variables.end()) {
+      factor_scope_cpy.push_back({v});
+    }
+  }
   Vtree* v = BaseCase(factor_scope_cpy);
   auto start = std::chrono::steady_clock::now();
   if (v == nullptr) {
-- 
2.43.0


From da458d2746fb7484003a1277f768fd01b435c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:16 +0000
Subject: [PATCH 13/14] fix: network files with Windows line ends or
 blank-looking lines between tables

---
 src/uai_network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index a7b7dd1..d76cc3c 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -55,7 +55,7 @@ void UaiNetwork::read_file(const char* uai_file) {
   }
   for (int i = 0; i < m_factor_size; i++) {
     getline(uaifs, string_buf);
-    while (string_buf == "") {
+    while (string_buf.find_first_not_of(" \t\r") == std::string::npos) {
       getline(uaifs, string_buf);
     }
     size_t entry_cnt;
-- 
2.43.0


From 3ba6323007e743ea8ea08ead97337c045a63627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:09 +0000
Subject: [PATCH 14/14] fix: keep the original line ends of csvparser.c, which
 the repair of the string reader had changed

---
 src/csvparser.c | 488 ++++++++++++++++++++++++------------------------
 1 file changed, 244 insertions(+), 244 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index eb25621..561678a 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,244 +1,244 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-      if (endOfFileIndicator) {
-        // stay on the terminator: the next call must find it again
-        csvParser->csvStringIter_--;
-      }
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
-    }
-    if (endOfFileIndicator) {
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    csvParser->csvStringIter_++;
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+      if (endOfFileIndicator) {
+        // stay on the terminator: the next call must find it again
+        csvParser->csvStringIter_--;
+      }
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_);
+    }
+    if (endOfFileIndicator) {
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0

