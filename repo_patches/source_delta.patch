From 768941ddca73d6b0998c55dc672b472f0521c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 01/52] fix: include every registered operator in FactoryOp.cpp

ConstantResampler and Function are registered but their headers were not
included, so the api library did not compile. Message.h uses std::string.
---
 libs/api/src/FactoryOp.cpp        | 2 ++
 libs/core/include/rtbot/Message.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index cb51796..32b1184 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -15,6 +15,7 @@
 #include "rtbot/std/And.h"
 #include "rtbot/std/AutoRegressive.h"
 #include "rtbot/std/Constant.h"
+#include "rtbot/std/ConstantResampler.h"
 #include "rtbot/std/CosineResampler.h"
 #include "rtbot/std/Count.h"
 #include "rtbot/std/CumulativeSum.h"
@@ -22,6 +23,7 @@
 #include "rtbot/std/Division.h"
 #include "rtbot/std/EqualTo.h"
 #include "rtbot/std/FiniteImpulseResponse.h"
+#include "rtbot/std/Function.h"
 #include "rtbot/std/GreaterThan.h"
 #include "rtbot/std/GreaterThanStream.h"
 #include "rtbot/std/HermiteResampler.h"
diff --git a/libs/core/include/rtbot/Message.h b/libs/core/include/rtbot/Message.h
index c38b594..334f193 100644
--- a/libs/core/include/rtbot/Message.h
+++ b/libs/core/include/rtbot/Message.h
@@ -2,6 +2,7 @@
 #define MESSAGE_H
 
 #include <map>
+#include <string>
 #include <vector>
 
 namespace rtbot {
-- 
2.43.0


From 884ad7abcfefc824f785c2d1061ffa708788b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 02/52] fix: save and restore the averages of
 RelativeStrengthIndex

A restored program forgot the running averages and recomputed them from the
window, so it diverged from the uninterrupted one.
---
 .../rtbot/finance/RelativeStrengthIndex.h     | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 8f2b857..64a482f 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -18,6 +18,35 @@ struct RelativeStrengthIndex : public Operator<T, V> {
     this->addOutput("o1");
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize the running averages
+    for (const V& value : {averageGain, averageLoss, prevAverageGain, prevAverageLoss})
+      bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&value),
+                   reinterpret_cast<const unsigned char*>(&value) + sizeof(value));
+
+    // Serialize initialized
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&initialized),
+                 reinterpret_cast<const unsigned char*>(&initialized) + sizeof(initialized));
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize the running averages
+    for (V* value : {&averageGain, &averageLoss, &prevAverageGain, &prevAverageLoss}) {
+      *value = *reinterpret_cast<const V*>(&(*it));
+      it += sizeof(*value);
+    }
+
+    // Deserialize initialized
+    initialized = *reinterpret_cast<const bool*>(&(*it));
+    it += sizeof(initialized);
+  }
+
   string typeName() const override { return "RelativeStrengthIndex"; }
 
   OperatorMessage<T, V> processData() override {
@@ -82,10 +111,10 @@ struct RelativeStrengthIndex : public Operator<T, V> {
   }
 
  private:
-  V averageGain;
-  V averageLoss;
-  V prevAverageGain;
-  V prevAverageLoss;
+  V averageGain = 0;
+  V averageLoss = 0;
+  V prevAverageGain = 0;
+  V prevAverageLoss = 0;
   bool initialized = false;
 };
 
-- 
2.43.0


From 62ed86f0383bf804728bceff0f5be9e211660ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 03/52] fix: include the inner operators in the saved state of
 a Pipeline

---
 libs/api/include/rtbot/Pipeline.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index bae4a10..3bf1d22 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -36,6 +36,21 @@ struct Pipeline : public Operator<T, V> {
 
   string typeName() const override { return "Pipeline"; }
 
+  Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // the state of a pipeline includes the state of its operators
+    for (auto& [_, op] : all_op) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+    for (auto& [_, op] : all_op) op->restore(it);
+  }
+
   void receiveData(Message<T, V> msg, string inputPort = "") override {
     if (inputPort.empty() && inputs.size() == 1)
       inputPort = inputs.begin()->first;
-- 
2.43.0


From a5d5ae23b8f9e8be75b0d520e023c65822d8a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 04/52] fix: include the inner operators in the saved state of
 a Composite

---
 libs/core/include/rtbot/Composite.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/core/include/rtbot/Composite.h b/libs/core/include/rtbot/Composite.h
index 486ac2d..f07965d 100644
--- a/libs/core/include/rtbot/Composite.h
+++ b/libs/core/include/rtbot/Composite.h
@@ -49,6 +49,21 @@ struct Composite : public Operator<T, V>  // TODO: improve from chain to graph
 
   virtual ~Composite() = default;
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // the state of a composite includes the state of its operators
+    for (auto &[_, op] : this->ops) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator &it) override {
+    Operator<T, V>::restore(it);
+    for (auto &[_, op] : this->ops) op->restore(it);
+  }
+
   string createInput(string id, size_t numPorts = 1) {
     if (this->ops.count(id) == 0 && this->input == nullptr) {
       this->input = make_shared<Input<T, V>>(id, numPorts);
-- 
2.43.0


From 6db73b004eefc3dbb0a816e03136009953772d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 05/52] fix: drop the pending messages of a deleted program

They were fed to the next program created with the same id.
---
 libs/api/include/rtbot/FactoryOp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 9449778..8153857 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -63,7 +63,10 @@ class FactoryOp {
 
   string createProgram(string const& id, string const& json_program);
 
-  bool deleteProgram(string const& id) { return (programs.erase(id) == 1) ? true : false; }
+  bool deleteProgram(string const& id) {
+    messageBuffer.erase(id);
+    return (programs.erase(id) == 1) ? true : false;
+  }
 
   bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
-- 
2.43.0


From f07b11d0e8e31b71811af936c0be256f1477c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 06/52] fix: do not keep a batch in the message buffer when
 processing it throws

The batch stayed buffered, so one bad message made every later call fail and
the messages before it were processed again and again.
---
 libs/api/include/rtbot/FactoryOp.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 8153857..650acfb 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -78,9 +78,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMap(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // take the messages out first, so that they are not processed again if something throws
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMap(apId, messages);
         if (!result.empty()) return result;
       }
     }
@@ -91,9 +92,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMapDebug(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // take the messages out first, so that they are not processed again if something throws
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMapDebug(apId, messages);
         if (!result.empty()) return result;
       }
     }
-- 
2.43.0


From 91f425fbba291a23d663df8bc65f8507cfbdd532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 07/52] fix: report an unusable entry operator instead of
 creating an empty program

The exceptions were built but never thrown.
---
 libs/api/src/Program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 09443ce..a761c5f 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -65,14 +65,14 @@ void Program::init() {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator was not found");
+    throw runtime_error("Entry operator was not found");
   }
 
   if (this->all_op.at(this->entryOperator)->hasControlInputs()) {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator can not have control inputs");
+    throw runtime_error("Entry operator can not have control inputs");
   }
 }
 
-- 
2.43.0


From 555b1cca7fc72044390c4e8ebdcbce4c49eecfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 08/52] fix: reject a program in which two operators share an
 id

The second operator was silently ignored.
---
 libs/api/src/Pipeline.cpp | 1 +
 libs/api/src/Program.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index dccf6ea..9382226 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -42,6 +42,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
       it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      if (!it.second) throw runtime_error("Operator id " + it.first->first + " is duplicated");
     }
 
     // make connections, save the used in/out ports
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index a761c5f..50540e9 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -52,6 +52,7 @@ void Program::init() {
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
     it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    if (!it.second) throw runtime_error("Operator id " + it.first->first + " is duplicated");
   }
 
   // connections
-- 
2.43.0


From 9c37b3ea8c92011b1c3d01dd589dd2101b545ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 09/52] fix: report the creation of a program whose id is in
 use

It was reported as a success while the old program stayed in place.
---
 libs/api/src/FactoryOp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 32b1184..447b7a6 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -443,6 +443,7 @@ string FactoryOp::createProgram(string const& id, Bytes const& bytes) {
 }
 
 string FactoryOp::createProgram(string const& id, string const& json_program) {
+  if (this->programs.count(id) > 0) return "Program " + id + " already exists";
   try {
     programs.emplace(id, Program(json_program));
     return "";
-- 
2.43.0


From 7ac0b3b80e206021efdf3f15fb76fc7146c15723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 10/52] fix: report missing operator parameters instead of
 aborting

Reading a missing key of a const json object is an assertion failure, so a
definition without a required parameter took the process down. Join.numPorts
is optional and takes its documented default.
---
 libs/api/src/FactoryOp.cpp | 76 +++++++++++++++++++-------------------
 libs/api/src/Pipeline.cpp  |  4 +-
 libs/api/src/Program.cpp   |  4 +-
 3 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 447b7a6..9eb77f4 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -58,7 +58,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -68,7 +68,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -78,7 +78,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -88,7 +88,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -98,7 +98,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -108,7 +108,7 @@ void to_json(json& j, const FiniteImpulseResponse<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, FiniteImpulseResponse<T, V>& p) {
-  p = FiniteImpulseResponse<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = FiniteImpulseResponse<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j["numPorts"].get<size_t>());
+  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", size_t(2)));
 }
 
 template <class T, class V>
@@ -128,7 +128,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -138,7 +138,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -148,7 +148,7 @@ void to_json(json& j, const Minus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Minus<T, V>& p) {
-  p = Minus<T, V>(j["id"].get<string>());
+  p = Minus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -158,7 +158,7 @@ void to_json(json& j, const And<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, And<T, V>& p) {
-  p = And<T, V>(j["id"].get<string>());
+  p = And<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -168,7 +168,7 @@ void to_json(json& j, const Or<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Or<T, V>& p) {
-  p = Or<T, V>(j["id"].get<string>());
+  p = Or<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -178,7 +178,7 @@ void to_json(json& j, const GreaterThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThanStream<T, V>& p) {
-  p = GreaterThanStream<T, V>(j["id"].get<string>());
+  p = GreaterThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -188,7 +188,7 @@ void to_json(json& j, const LessThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThanStream<T, V>& p) {
-  p = LessThanStream<T, V>(j["id"].get<string>());
+  p = LessThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -198,7 +198,7 @@ void to_json(json& j, const Division<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Division<T, V>& p) {
-  p = Division<T, V>(j["id"].get<string>());
+  p = Division<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -208,7 +208,7 @@ void to_json(json& j, const Multiplication<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Multiplication<T, V>& p) {
-  p = Multiplication<T, V>(j["id"].get<string>());
+  p = Multiplication<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -218,7 +218,7 @@ void to_json(json& j, const Plus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Plus<T, V>& p) {
-  p = Plus<T, V>(j["id"].get<string>());
+  p = Plus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -228,7 +228,7 @@ void to_json(json& j, const Linear<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Linear<T, V>& p) {
-  p = Linear<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = Linear<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -238,7 +238,7 @@ void to_json(json& j, const AutoRegressive<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, AutoRegressive<T, V>& p) {
-  p = AutoRegressive<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = AutoRegressive<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -248,7 +248,7 @@ void to_json(json& j, const GreaterThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThan<T, V>& p) {
-  p = GreaterThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = GreaterThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -258,7 +258,7 @@ void to_json(json& j, const Constant<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Constant<T, V>& p) {
-  p = Constant<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Constant<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -268,7 +268,7 @@ void to_json(json& j, const Add<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Add<T, V>& p) {
-  p = Add<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Add<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -278,7 +278,7 @@ void to_json(json& j, const LessThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThan<T, V>& p) {
-  p = LessThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = LessThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -288,7 +288,7 @@ void to_json(json& j, const EqualTo<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, EqualTo<T, V>& p) {
-  p = EqualTo<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = EqualTo<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j.at("id").get<string>(), j.value("value", 0));
 }
 
 template <class T, class V>
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", 1), j.value("times", 1));
 }
 
 template <class T, class V>
@@ -318,7 +318,7 @@ void to_json(json& j, const CumulativeSum<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CumulativeSum<T, V>& p) {
-  p = CumulativeSum<T, V>(j["id"].get<string>());
+  p = CumulativeSum<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -328,7 +328,7 @@ void to_json(json& j, const Count<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Count<T, V>& p) {
-  p = Count<T, V>(j["id"].get<string>());
+  p = Count<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -338,7 +338,7 @@ void to_json(json& j, const Scale<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Scale<T, V>& p) {
-  p = Scale<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Scale<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -348,7 +348,7 @@ void to_json(json& j, const Power<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Power<T, V>& p) {
-  p = Power<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Power<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -358,7 +358,7 @@ void to_json(json& j, const Difference<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>());
+  p = Difference<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -368,7 +368,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -378,7 +378,7 @@ void to_json(json& j, const Identity<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Identity<T, V>& p) {
-  p = Identity<T, V>(j["id"].get<string>());
+  p = Identity<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -388,7 +388,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -408,7 +408,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j["id"].get<string>(), j["interval"].get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
 }
 
 template <class T, class V>
@@ -423,10 +423,10 @@ void to_json(json& j, const Function<T, V>& p) {
 template <class T, class V>
 void from_json(const json& j, Function<T, V>& p) {
   vector<pair<V, V>> points;
-  for (const auto& point : j["points"]) {
-    points.push_back({point[0].get<V>(), point[1].get<V>()});
+  for (const auto& point : j.at("points")) {
+    points.push_back({point.at(0).get<V>(), point.at(1).get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j.at("id").get<string>(), points, j.value("type", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index 9382226..55586d8 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -28,7 +28,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 template<class T, class V>
@@ -41,7 +41,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
 
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-      it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
       if (!it.second) throw runtime_error("Operator id " + it.first->first + " is duplicated");
     }
 
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 50540e9..62bd398 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -30,7 +30,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 Program::Program(const string& json_string) {
@@ -51,7 +51,7 @@ void Program::init() {
 
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-    it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
     if (!it.second) throw runtime_error("Operator id " + it.first->first + " is duplicated");
   }
 
-- 
2.43.0


From f5eccc74aae9d1f11d1bcfaae150462a695fe5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 11/52] fix: the coefficients of Linear are required in its
 schema

---
 libs/std/include/rtbot/std/Linear.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Linear.md b/libs/std/include/rtbot/std/Linear.md
index 3652d7c..6ed2f90 100644
--- a/libs/std/include/rtbot/std/Linear.md
+++ b/libs/std/include/rtbot/std/Linear.md
@@ -21,7 +21,7 @@ jsonschema:
       minItems: 2
       items:
         type: number
-  required: ["id"]
+  required: ["id", "coeff"]
 ---
 
 # Linear
-- 
2.43.0


From e0b5cc9f031913ece3dbb1fcdc82a78dc5d12f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 12/52] fix: apply the n-th coefficient of Linear to the n-th
 input

With ten or more inputs the ports were visited in lexicographic order.
---
 libs/std/include/rtbot/std/Linear.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/std/include/rtbot/std/Linear.h b/libs/std/include/rtbot/std/Linear.h
index 70b59a9..016db98 100644
--- a/libs/std/include/rtbot/std/Linear.h
+++ b/libs/std/include/rtbot/std/Linear.h
@@ -26,14 +26,14 @@ struct Linear : public Join<T, V> {
 
   OperatorMessage<T, V> processData() override {
     OperatorMessage<T, V> outputMsgs;
-    int i = 0;
     Message<T, V> out;
     out.value = 0;
     out.time = 0;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+    for (size_t i = 0; i < this->coeff.size(); i++) {
+      // look the port up by name: the order of the map is i1, i10, i11, ..., i2
+      auto it = this->dataInputs.find("i" + to_string(i + 1));
       out.value = out.value + it->second.front().value * this->coeff.at(i);
       out.time = it->second.front().time;
-      i++;
     }
 
     PortMessage<T, V> v;
-- 
2.43.0


From bfb7868cce0248c03b17c06bbc5a9d8070e7fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 13/52] fix: give the interpolation type of Function its own
 key

It was read from "type", which holds the operator type, so a Function could
not be created from a program definition at all.
---
 libs/api/src/FactoryOp.cpp             | 4 ++--
 libs/std/include/rtbot/std/Function.md | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 9eb77f4..d6ce2f9 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -417,7 +417,7 @@ void to_json(json& j, const Function<T, V>& p) {
   for (const auto& point : p.getPoints()) {
     points_array.push_back({point.first, point.second});
   }
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"type", p.getInterpolationType()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"interpolationType", p.getInterpolationType()}};
 }
 
 template <class T, class V>
@@ -426,7 +426,7 @@ void from_json(const json& j, Function<T, V>& p) {
   for (const auto& point : j.at("points")) {
     points.push_back({point.at(0).get<V>(), point.at(1).get<V>()});
   }
-  p = Function<T, V>(j.at("id").get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j.at("id").get<string>(), points, j.value("interpolationType", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 233e237..698f06b 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -23,7 +23,7 @@ jsonschema:
         maxItems: 2
         items:
           type: number
-    type:
+    interpolationType:
       type: string
       enum: ["linear", "hermite"]
       default: "linear"
-- 
2.43.0


From 3aff5e800e938b43cb189786feec84b7e1adb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 14/52] fix: export the configured window of
 RelativeStrengthIndex

The buffer size n + 1 was exported as n.
---
 libs/api/src/FactoryOp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index d6ce2f9..40f1f9b 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -383,7 +383,8 @@ void from_json(const json& j, Identity<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize()}};
+  // the operator buffers one message more than its window
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize() - 1}};
 }
 
 template <class T, class V>
-- 
2.43.0


From 419eda3b2925487dc9bdcb203f3b8922e91ccadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 15/52] fix: do not truncate the default value of Variable to
 an integer

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 40f1f9b..ea8d1ff 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j.at("id").get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j.at("id").get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
-- 
2.43.0


From 044664bf2dc2b02d15e892b70aadae48d51b9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 16/52] fix: do not truncate the dt of TimeShift to 32 bits

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index ea8d1ff..349b8bd 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", int64_t(1)), j.value("times", 1));
 }
 
 template <class T, class V>
-- 
2.43.0


From 4cd792443d8584c6559efa1e47ff6213a567e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 17/52] fix: let TimeShift stop at zero and leave times alone
 for a zero shift

With an unsigned time type the shift never compared less than zero, so shifting
back beyond zero wrapped around, and a zero shift reset every time to zero.
---
 libs/std/include/rtbot/std/TimeShift.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.h b/libs/std/include/rtbot/std/TimeShift.h
index 587d0bc..1dbd0b6 100644
--- a/libs/std/include/rtbot/std/TimeShift.h
+++ b/libs/std/include/rtbot/std/TimeShift.h
@@ -32,10 +32,9 @@ struct TimeShift : public Operator<T, V> {
     OperatorMessage<T, V> outputMsgs;
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
 
-    out.time = ((this->dt * this->times < 0) && (out.time > abs((double)(this->dt * this->times))) ||
-                (this->dt * this->times > 0))
-                   ? out.time + this->dt * this->times
-                   : 0;
+    // T can be unsigned, the shift can be negative
+    int64_t shift = static_cast<int64_t>(this->dt) * this->times;
+    out.time = (shift < 0 && out.time <= static_cast<T>(-shift)) ? 0 : out.time + static_cast<T>(shift);
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 4c8a57f61e0ffa499983b355965111e1936d2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 18/52] fix: use a time, not a value, as the time of Difference

---
 libs/std/include/rtbot/std/Difference.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Difference.h b/libs/std/include/rtbot/std/Difference.h
index 35c133d..6c3b75c 100644
--- a/libs/std/include/rtbot/std/Difference.h
+++ b/libs/std/include/rtbot/std/Difference.h
@@ -31,7 +31,7 @@ struct Difference : public Operator<T, V> {
     Message<T, V> m0 = this->getDataInputMessage(inputPort, 0);
     Message<T, V> out;
     out.value = m1.value - m0.value;
-    out.time = (this->useOldestTime) ? m1.time : m0.value;
+    out.time = (this->useOldestTime) ? m1.time : m0.time;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 96ee07959be607e5972f264a959f0d4f83859954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 19/52] fix: initialise the state of ConstantResampler

A snapshot taken before the first message contained indeterminate bytes.
---
 libs/std/include/rtbot/std/ConstantResampler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/ConstantResampler.h b/libs/std/include/rtbot/std/ConstantResampler.h
index 03dc75e..a81b772 100644
--- a/libs/std/include/rtbot/std/ConstantResampler.h
+++ b/libs/std/include/rtbot/std/ConstantResampler.h
@@ -20,6 +20,8 @@ struct ConstantResampler : public Operator<T, V> {
     if (interval <= 0) throw runtime_error(typeName() + ": time interval must be positive");
 
     this->dt = interval;
+    this->nextEmit = 0;
+    this->lastValue = 0;
     this->initiated = false;
     this->addDataInput("i1", 1);
     this->addOutput("o1");
-- 
2.43.0


From 59e520b71f24fa18f11e6a74f6bb9fe4bee182aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 20/52] fix: compute the leading point of HermiteResampler
 without overflow

The least squares sums were held in the integer time type: squares of realistic
timestamps overflow it, and the time left of the first message wraps around
when it is negative, so the first emitted values were arbitrary.
---
 libs/std/include/rtbot/std/HermiteResampler.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 2d0c84d..1c9a12c 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -142,12 +142,13 @@ struct HermiteResampler : public Operator<T, V> {
     if (index >= 0)
       return this->getDataInputMessage(inputPort, index);
     else if (before.get() == nullptr) {
-      vector<T> x;
+      // times are taken relative to the first one, otherwise the sums of squares overflow
+      vector<V> x;
       vector<V> y;
       V average = 0;
       size_t n = this->getDataInputSize(inputPort);
       for (int i = 0; i < n; i++) {
-        x.push_back(this->getDataInputMessage(inputPort, i).time);
+        x.push_back(this->getDataInputMessage(inputPort, i).time - this->getDataInputMessage(inputPort, 0).time);
         y.push_back(this->getDataInputMessage(inputPort, i).value);
       }
       for (size_t i = 1; i < n; i++) {
@@ -157,7 +158,7 @@ struct HermiteResampler : public Operator<T, V> {
       average = average / (n - 1);
       pair<V, V> pair = this->getLineLeastSquares(x, y);
       T time = this->getDataInputMessage(inputPort, 0).time + (index * ((T)average));
-      V value = pair.second * time + pair.first;
+      V value = pair.second * (index * (V)((T)average)) + pair.first;
       before = make_unique<Message<T, V>>(Message<T, V>(time, value));
     }
     return *(before.get());
@@ -171,9 +172,9 @@ struct HermiteResampler : public Operator<T, V> {
       y is the vector of the y-axis
       the coordinates of a point are (x_i;y_i)
   */
-  pair<V, V> getLineLeastSquares(vector<T> x, vector<V> y) {
+  pair<V, V> getLineLeastSquares(vector<V> x, vector<V> y) {
     V sumY = 0, sumXY = 0, n, m;
-    T sumX = 0, sumX2 = 0;
+    V sumX = 0, sumX2 = 0;
     for (size_t i = 0; i < x.size(); i++) {
       sumX = sumX + x.at(i);
       sumY = sumY + y.at(i);
@@ -181,7 +182,7 @@ struct HermiteResampler : public Operator<T, V> {
       sumX2 = sumX2 + pow(x.at(i), 2);
     }
 
-    T denominator = (x.size() * sumX2 - pow(sumX, 2));
+    V denominator = (x.size() * sumX2 - pow(sumX, 2));
 
     if (denominator == 0) {
       m = (V)(y.at(1) - y.at(0)) / (V)(x.at(1) - x.at(0));
-- 
2.43.0


From 67839c0dc6ee8a112c9b24e8c87142df524d7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 21/52] fix: let Join emit a match uncovered by discarding
 older messages

After discarding, the remaining messages were not compared again until the next
message arrived, so a match could be emitted late, or never at the end of the
stream, depending on how the inputs interleave.
---
 libs/core/include/rtbot/Join.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/core/include/rtbot/Join.h b/libs/core/include/rtbot/Join.h
index 1488335..c37fafc 100644
--- a/libs/core/include/rtbot/Join.h
+++ b/libs/core/include/rtbot/Join.h
@@ -82,7 +82,8 @@ class Join : public Operator<T, V> {
       }
       return this->emit(toEmit);
     }
-    return {};
+    // discarding may have uncovered later messages that match: look again, unless a port ran empty
+    return this->executeData();
   }
 
   virtual OperatorMessage<T, V> processData() {
-- 
2.43.0


From 8cd924601c11145c1816d30d4b8d44348d550fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 22/52] fix: let HermiteResampler visit the first interval only
 once

The message at the left of the first one was only created when a grid point
fell into the first interval. Otherwise the next call took the window as the
first one again, starting from the carry over of the previous call: grid
points came late, duplicated or out of order.
---
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 1c9a12c..d98c9e9 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -83,6 +83,8 @@ struct HermiteResampler : public Operator<T, V> {
     PortMessage<T, V> toEmit;
 
     if (before.get() == nullptr) {
+      // creates the message at the left, also when no grid point falls into the interval [0,1]
+      this->get(-1, inputPort);
       toEmit = this->lookAt(0, 1, inputPort);
       auto toAdd = this->lookAt(1, 2, inputPort);
       toEmit.insert(toEmit.end(), toAdd.begin(), toAdd.end());
-- 
2.43.0


From ca9beb3e29178f243e3a5734c8cf9999328cafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 23/52] fix: accept any number as the value of LessThan in its
 schema

---
 libs/std/include/rtbot/std/LessThan.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/LessThan.md b/libs/std/include/rtbot/std/LessThan.md
index ab8c8ee..a01c8ee 100644
--- a/libs/std/include/rtbot/std/LessThan.md
+++ b/libs/std/include/rtbot/std/LessThan.md
@@ -14,7 +14,7 @@ jsonschema:
       type: string
       description: The id of the operator
     value:
-      type: integer
+      type: number
       description: The reference value
   required: ["id", "value"]
 ---
-- 
2.43.0


From aa8ef86271c9643011968ac5ba26d96cbf255a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 24/52] fix: do not HTML-escape the constructor parameters of
 generated TypeScript classes

---
 tools/generator/templates/typescript.hbs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/templates/typescript.hbs b/tools/generator/templates/typescript.hbs
index dc7e0d3..a13be55 100644
--- a/tools/generator/templates/typescript.hbs
+++ b/tools/generator/templates/typescript.hbs
@@ -33,7 +33,7 @@ export type {{ name }} = {
 export class {{ type }} extends Operator {
   readonly type = "{{ type}}";
   constructor(
-{{ parametersBlock }}
+{{{ parametersBlock }}}
   ) {
     super(id);
     const schema = {{{ schema }}}
-- 
2.43.0


From 349c4e950425f3c185a6b222a4dbda98a46e78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 25/52] fix: process a JavaScript call without giving way to
 other calls between buffering and processing

---
 libs/wrappers/javascript/src/api.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index a1866f0..7aadfe1 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -38,16 +38,20 @@ export class RtBot {
     programId: string,
     messages: { [portId: string]: { time: number; value: number }[] }
   ): Promise<RtBotIterationOutput> {
-    this.prepareInternalMessageBuffer(programId, messages, await this.rtbot);
-    return JSON.parse((await this.rtbot).processMessageBufferDebug(programId));
+    const rtbot = await this.rtbot;
+    // nothing else may run in between, the buffer is shared by all the calls for the same program
+    this.prepareInternalMessageBuffer(programId, messages, rtbot);
+    return JSON.parse(rtbot.processMessageBufferDebug(programId));
   }
 
   async process(
     programId: string,
     messages: { [portId: string]: { time: number; value: number }[] }
   ): Promise<RtBotIterationOutput> {
-    this.prepareInternalMessageBuffer(programId, messages, await this.rtbot);
-    return JSON.parse((await this.rtbot).processMessageBuffer(programId));
+    const rtbot = await this.rtbot;
+    // nothing else may run in between, the buffer is shared by all the calls for the same program
+    this.prepareInternalMessageBuffer(programId, messages, rtbot);
+    return JSON.parse(rtbot.processMessageBuffer(programId));
   }
 
   prepareInternalMessageBuffer(
-- 
2.43.0


From 401c6cb6c18112502fa5d22ba81f8f2981079780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 26/52] fix: let deleteConnection remove exactly the given
 connection

---
 libs/wrappers/javascript/src/program.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/javascript/src/program.ts b/libs/wrappers/javascript/src/program.ts
index 235cf55..10a0e17 100644
--- a/libs/wrappers/javascript/src/program.ts
+++ b/libs/wrappers/javascript/src/program.ts
@@ -62,7 +62,7 @@ export class Program {
   deleteConnection(opFrom: OperatorId, opTo: OperatorId, opFromPort: PortId = "o1", opToPort: PortId = "i1") {
     this.connections = this.connections.filter(
       ({ from, to, fromPort, toPort }) =>
-        !(from !== opFrom && to !== opTo && fromPort !== opFromPort && toPort !== opToPort)
+        !(from === opFrom && to === opTo && fromPort === opFromPort && toPort === opToPort)
     );
   }
 
-- 
2.43.0


From d9e470e9d73fa95b0671b6b19da94855d889deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 27/52] fix: report the reason why a program could not be
 created in the JavaScript client

---
 libs/wrappers/javascript/src/api.ts     | 16 +++++++++++-----
 libs/wrappers/javascript/src/program.ts |  7 ++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index 7aadfe1..297b448 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -30,6 +30,15 @@ export class RtBot {
     return (await this.rtbot).createProgram(programId, programStr);
   }
 
+  /** The reason in a non-empty answer of `createProgram`, which is either a validation result or plain text */
+  static getCreationError(response: string): string {
+    try {
+      return JSON.parse(response).error ?? response;
+    } catch {
+      return response;
+    }
+  }
+
   async deleteProgram(programId: string): Promise<string> {
     return (await this.rtbot).deleteProgram(programId);
   }
@@ -107,11 +116,8 @@ export class RtBotRun {
     if (this.verbose) console.log("Sending", programStr);
     const createProgramResponseStr = await RtBot.getInstance().createProgram(this.program.programId, programStr);
 
-    if (createProgramResponseStr) {
-      const createProgramResponse = JSON.parse(createProgramResponseStr);
-      // if program fails validation, throw an error
-      if (createProgramResponse.error) throw new Error(createProgramResponse.error);
-    }
+    // if the program could not be created, throw an error
+    if (createProgramResponseStr) throw new Error(RtBot.getCreationError(createProgramResponseStr));
 
     if (this.verbose) console.log("Sending data...");
     const entryPorts: string[] = JSON.parse(await RtBot.getInstance().getProgramEntryPorts(this.program.programId));
diff --git a/libs/wrappers/javascript/src/program.ts b/libs/wrappers/javascript/src/program.ts
index 10a0e17..d7e9205 100644
--- a/libs/wrappers/javascript/src/program.ts
+++ b/libs/wrappers/javascript/src/program.ts
@@ -90,11 +90,8 @@ export class Program {
     const programStr = JSON.stringify(plain, null, 2);
     const createProgramResponseStr = await RtBot.getInstance().createProgram(this.programId, programStr);
 
-    if (createProgramResponseStr) {
-      const createProgramResponse = JSON.parse(createProgramResponseStr);
-      // if program fails validation, throw an error
-      if (createProgramResponse.error) throw new Error(createProgramResponse.error);
-    }
+    // if the program could not be created, throw an error
+    if (createProgramResponseStr) throw new Error(RtBot.getCreationError(createProgramResponseStr));
     // set the default port
     this.defaultPort = JSON.parse(await RtBot.getInstance().getProgramEntryPorts(this.programId))[0];
   }
-- 
2.43.0


From 888b20829b02c4048eec454359a7962e58963f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 28/52] fix: delete the program of a JavaScript run also when
 the run fails

---
 libs/wrappers/javascript/src/api.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index 297b448..2430b83 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -119,6 +119,15 @@ export class RtBotRun {
     // if the program could not be created, throw an error
     if (createProgramResponseStr) throw new Error(RtBot.getCreationError(createProgramResponseStr));
 
+    try {
+      await this.sendData();
+    } finally {
+      await RtBot.getInstance().deleteProgram(this.program.programId);
+    }
+    if (this.verbose) console.log("Done!", this.outputs);
+  }
+
+  private async sendData() {
     if (this.verbose) console.log("Sending data...");
     const entryPorts: string[] = JSON.parse(await RtBot.getInstance().getProgramEntryPorts(this.program.programId));
     // iterate over the data passed and send it to the rtbot program
@@ -156,9 +165,6 @@ export class RtBotRun {
         }
       }
     }
-
-    await RtBot.getInstance().deleteProgram(this.program.programId);
-    if (this.verbose) console.log("Done!", this.outputs);
   }
 
   getOutputs() {
-- 
2.43.0


From 65df0720debea8c6b7fd8faf0bba6bab8cb72406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 29/52] fix: export the entry operator of a Python program
 whether or not it has a date

---
 libs/wrappers/python/rtbot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 0aa8100..75f21fb 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -107,7 +107,7 @@ class Program:
         if self.date:
             obj["date"] = self.date
 
-        if self.date:
+        if self.entryOperator:
             obj["entryOperator"] = self.entryOperator
 
         return json.dumps(obj)
-- 
2.43.0


From 5bd6f0520794ccf7cdf87657ed4542398d268928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 30/52] fix: let Python programs carry the output selection of
 a definition

---
 libs/wrappers/python/rtbot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 75f21fb..1a3cf64 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -73,6 +73,7 @@ class Program:
         date: Optional[str] = None,
         author: Optional[str] = None,
         license: Optional[str] = None,
+        output=None,
     ):
         # print(f"Ininitializing program with operators {operators}, connections {connections}")
         self.title = title
@@ -84,6 +85,7 @@ class Program:
         self.operators = operators if operators is not None else []
         self.connections = connections if connections is not None else []
         self.entryOperator = entryOperator
+        self.output = output
         self.id = f"{random.randrange(16**4):04x}"
 
     def toJson(self):
@@ -110,6 +112,9 @@ class Program:
         if self.entryOperator:
             obj["entryOperator"] = self.entryOperator
 
+        if self.output is not None:
+            obj["output"] = self.output
+
         return json.dumps(obj)
 
     def validate(self):
-- 
2.43.0


From 60aaa63edb9e46dc8b7d864aa987afdecdb5f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 31/52] fix: give every Python program an id of its own

---
 libs/wrappers/python/rtbot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 1a3cf64..c67e1d8 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -1,6 +1,6 @@
 from rtbot import rtbotapi as api
 import json
-import random
+import uuid
 
 from typing import Optional
 
@@ -86,7 +86,7 @@ class Program:
         self.connections = connections if connections is not None else []
         self.entryOperator = entryOperator
         self.output = output
-        self.id = f"{random.randrange(16**4):04x}"
+        self.id = uuid.uuid4().hex
 
     def toJson(self):
         obj = {
-- 
2.43.0


From 38c2ea6a61063be24befcd06b994d618df708237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 32/52] fix: let a failed Python run report its reason and
 delete its program

---
 libs/wrappers/python/rtbot.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index c67e1d8..ef7fcc0 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -5,6 +5,14 @@ import uuid
 from typing import Optional
 
 
+def creationError(response):
+    # the answer is either the result of the validation or a plain text
+    try:
+        return json.loads(response)["error"]
+    except ValueError:
+        return response
+
+
 class Run(object):
     def __init__(self, program, data):
         program.validate()
@@ -18,6 +26,16 @@ class Run(object):
 
     def exec(self):
         result = api.createProgram(self.program.id, self.program.toJson())
+
+        if result != "":
+            raise Exception(creationError(result))
+
+        try:
+            return self.sendData()
+        finally:
+            api.deleteProgram(self.program.id)
+
+    def sendData(self):
         # TODO: here we assume that the data is a list of rows, which are a list
         # of numbers, where the first element of the row is the time and the remaining
         # ones correspond to the values passed to the ports and they have the order according
@@ -25,9 +43,6 @@ class Run(object):
         # Move this to receive a pandas dataframe instead
         ports = json.loads(api.getProgramEntryPorts(self.program.id))
 
-        if result != "":
-            raise Exception(json.loads(result)["error"])
-
         result = {}
 
         for row in self.data:
@@ -46,7 +61,6 @@ class Run(object):
                         result[key]["time"].append(int(msg.get("time")))
                         result[key]["value"].append(float(msg.get("value")))
 
-        api.deleteProgram(self.program.id)
         return result
 
 
-- 
2.43.0


From 2174a30ad2ff23b8711783289ab5536d32f98e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 33/52] fix: let a Python run report values that are not finite

---
 libs/wrappers/python/rtbot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index ef7fcc0..1feccd8 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -59,7 +59,11 @@ class Run(object):
                         result[key] = {"time": [], "value": []}
                     for msg in msgs:
                         result[key]["time"].append(int(msg.get("time")))
-                        result[key]["value"].append(float(msg.get("value")))
+                        # a value which is not finite is null in json
+                        value = msg.get("value")
+                        result[key]["value"].append(
+                            float("nan") if value is None else float(value)
+                        )
 
         return result
 
-- 
2.43.0


From abcd9d4e2c7a398a17bbb21e4e5985337483fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 34/52] fix: quote string defaults in generated Python code

---
 tools/generator/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 62b1033..1ff8035 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -160,7 +160,7 @@ program
             .filter((p) => p !== "type")
             .map((k) => ({
               name: k,
-              init: s.required.indexOf(k) > -1 ? "" : ` = ${s.properties[k].default ?? "None"}`,
+              init: s.required.indexOf(k) > -1 ? "" : ` = ${s.properties[k].default === undefined ? "None" : JSON.stringify(s.properties[k].default)}`,
             })),
         })),
       });
-- 
2.43.0


From 7c239170adbd16de789f1cbb06eaacfd7d00963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 35/52] fix: show an output port once even if the selection
 lists it twice

---
 libs/api/include/rtbot/Program.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index d3d2f61..35606e9 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -78,14 +78,9 @@ struct Program {
       if (opResults.count(op->first) > 0) {
         auto outResults = opResults.at(op->first);
         for (int i = 0; i < op->second.size(); i++) {
-          if (outResults.count(op->second.at(i)) > 0) {
-            OperatorMessage<uint64_t, double> opReturn;
-            opReturn.emplace(op->second.at(i), outResults.at(op->second.at(i)));
-            if (toReturn.count(op->first) == 0)
-              toReturn.emplace(op->first, opReturn);
-            else
-              Operator<uint64_t, double>::mergeOutput(toReturn[op->first], opReturn);
-          }
+          // emplace ignores a port that is listed more than once
+          if (outResults.count(op->second.at(i)) > 0)
+            toReturn[op->first].emplace(op->second.at(i), outResults.at(op->second.at(i)));
         }
       }
     }
-- 
2.43.0


From 22ac154651566be7c5cf642aca226546a1f83c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 36/52] fix: make the fields of RtBotMessage visible to the
 Redis module

---
 apps/rtbot-rs/src/cxx_bindings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/rtbot-rs/src/cxx_bindings.rs b/apps/rtbot-rs/src/cxx_bindings.rs
index bf17867..17edc9c 100644
--- a/apps/rtbot-rs/src/cxx_bindings.rs
+++ b/apps/rtbot-rs/src/cxx_bindings.rs
@@ -2,8 +2,8 @@
 pub mod ffi {
     #[derive(Debug)]
     pub struct RtBotMessage {
-        pub(crate) timestamp: u64,
-        pub(crate) values: Vec<f64>
+        pub timestamp: u64,
+        pub values: Vec<f64>
     }
 
     unsafe extern "C++" {
-- 
2.43.0


From 5d5a912a428416f556719747cd27b141f2a423b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 37/52] fix: subscribe to the outputs before the first sample
 is sent

---
 apps/rtbot-server/src/main.rs               | 5 ++++-
 apps/rtbot-server/src/pull_redis_service.rs | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/rtbot-server/src/main.rs b/apps/rtbot-server/src/main.rs
index 5e99164..0da1ee5 100644
--- a/apps/rtbot-server/src/main.rs
+++ b/apps/rtbot-server/src/main.rs
@@ -89,16 +89,19 @@ async fn main() -> Result<(), Box<dyn std::error::Error>> {
             // subscribe to output messages coming from redis
             // we will create a second
             let url = redis_config.url.to_string();
+            let (subscribed_tx, subscribed_rx) = tokio::sync::oneshot::channel::<()>();
             tokio::spawn(async move {
                 let pull_redis_service = PullRedisService::new(url, output_pubsub_key);
                 pull_redis_service
-                    .subscribe_to_redis_rtbot_messages(tx)
+                    .subscribe_to_redis_rtbot_messages(tx, subscribed_tx)
                     .await
                     .expect("Unable to read pubsub data coming from redis");
             });
 
             // connect to the input websocket and stream data to redis
             tokio::spawn(async move {
+                // the outputs published before we are subscribed are lost
+                let _ = subscribed_rx.await;
                 connect_to_input_ws_redis(&input_ws, &mut push_redis_service).await;
             });
         }
diff --git a/apps/rtbot-server/src/pull_redis_service.rs b/apps/rtbot-server/src/pull_redis_service.rs
index 6c0c466..2527b53 100644
--- a/apps/rtbot-server/src/pull_redis_service.rs
+++ b/apps/rtbot-server/src/pull_redis_service.rs
@@ -2,6 +2,7 @@ extern crate redis;
 
 use futures_util::StreamExt as _;
 use tokio::sync::mpsc::UnboundedSender;
+use tokio::sync::oneshot;
 
 pub struct PullRedisService {
     url: String,
@@ -19,6 +20,7 @@ impl PullRedisService {
     pub async fn subscribe_to_redis_rtbot_messages(
         &self,
         tx: UnboundedSender<Vec<String>>,
+        subscribed: oneshot::Sender<()>,
     ) -> redis::RedisResult<()> {
         info!("Subscribing to pubsub channel {}", self.output_pubsub_key);
         let client = redis::Client::open(self.url.as_str()).unwrap();
@@ -26,6 +28,7 @@ impl PullRedisService {
         pubsub_conn
             .subscribe(self.output_pubsub_key.as_str())
             .await?;
+        let _ = subscribed.send(());
         let mut pubsub_stream = pubsub_conn.on_message();
 
         while let Some(msg) = pubsub_stream.next().await {
-- 
2.43.0


From 0f2f4b8a37937b2fde7164f45c1ff805d30169fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 38/52] fix: skip unusable feed messages instead of ending
 ingestion

---
 apps/rtbot-server/src/main.rs | 38 +++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/apps/rtbot-server/src/main.rs b/apps/rtbot-server/src/main.rs
index 0da1ee5..a995ad4 100644
--- a/apps/rtbot-server/src/main.rs
+++ b/apps/rtbot-server/src/main.rs
@@ -145,14 +145,16 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
             trace!("Message {:#?}", payload);
             // compute the timestamp
             let timestamp: u64 = if let Some(mapping) = &input_ws.json_remap.timestamp {
-                let timestamp_finder = JsonPathFinder::from_str(&payload, mapping).unwrap().find();
-                timestamp_finder
-                    .as_array()
-                    .unwrap()
-                    .first()
-                    .unwrap()
-                    .as_u64()
-                    .unwrap()
+                match find_first(&payload, mapping).and_then(|t| t.as_u64()) {
+                    Some(timestamp) => timestamp,
+                    None => {
+                        warn!(
+                            "No timestamp in message {:#?}, mapping {}",
+                            payload, mapping
+                        );
+                        continue;
+                    }
+                }
             } else {
                 SystemTime::now()
                     .duration_since(UNIX_EPOCH)
@@ -168,10 +170,7 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
                 .values
                 .iter()
                 .map(|mapping| {
-                    let value_finder = JsonPathFinder::from_str(&payload, mapping).unwrap().find();
-                    if let Value::String(value_str) =
-                        value_finder.as_array().unwrap().first().unwrap()
-                    {
+                    if let Some(Value::String(value_str)) = find_first(&payload, mapping) {
                         match value_str.parse::<f64>() {
                             Ok(v) => Some(v),
                             Err(_) => {
@@ -191,9 +190,22 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
             debug!("timestamp {:?}, values {:?}", timestamp, values);
 
             // Notice we are sending here only the first parsed value
-            if let Err(e) = redis_service.add(timestamp, vec![values[0].unwrap()]).await {
+            let value = match values.first() {
+                Some(Some(value)) => *value,
+                _ => {
+                    warn!("No value in message {:#?}", payload);
+                    continue;
+                }
+            };
+            if let Err(e) = redis_service.add(timestamp, vec![value]).await {
                 warn!("Unable to store the data in redis: {:#?}", e);
             };
         }
     }
 }
+
+// what the mapping selects in the message, if it is there
+fn find_first(payload: &str, mapping: &str) -> Option<Value> {
+    let found = JsonPathFinder::from_str(payload, mapping).ok()?.find();
+    found.as_array()?.first().cloned()
+}
-- 
2.43.0


From 8444772b94968ce12aa19587ea1048f6c06e70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 39/52] fix: accept numbers as values of feed messages

---
 apps/rtbot-server/src/main.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/apps/rtbot-server/src/main.rs b/apps/rtbot-server/src/main.rs
index a995ad4..997ea75 100644
--- a/apps/rtbot-server/src/main.rs
+++ b/apps/rtbot-server/src/main.rs
@@ -170,20 +170,18 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
                 .values
                 .iter()
                 .map(|mapping| {
-                    if let Some(Value::String(value_str)) = find_first(&payload, mapping) {
-                        match value_str.parse::<f64>() {
-                            Ok(v) => Some(v),
-                            Err(_) => {
-                                warn!(
-                                    "Unable to parse float from message {:#?}, mapping {}",
-                                    payload, mapping
-                                );
-                                None
-                            }
-                        }
-                    } else {
-                        None
+                    let value = match find_first(&payload, mapping) {
+                        Some(Value::String(value_str)) => value_str.parse::<f64>().ok(),
+                        Some(Value::Number(value)) => value.as_f64(),
+                        _ => None,
+                    };
+                    if value.is_none() {
+                        warn!(
+                            "Unable to parse float from message {:#?}, mapping {}",
+                            payload, mapping
+                        );
                     }
+                    value
                 })
                 .collect();
 
-- 
2.43.0


From 1449efce94c18e306235405c6d86c3bf5a6352ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 40/52] fix: skip messages in the output channel that are not
 outputs

---
 apps/rtbot-server/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/rtbot-server/src/main.rs b/apps/rtbot-server/src/main.rs
index 997ea75..1feec64 100644
--- a/apps/rtbot-server/src/main.rs
+++ b/apps/rtbot-server/src/main.rs
@@ -51,6 +51,13 @@ async fn main() -> Result<(), Box<dyn std::error::Error>> {
     // every time we receive a message from redis
     tokio::spawn(async move {
         while let Some(msg) = rx.recv().await {
+            let timestamp: u64 = match msg[0].parse() {
+                Ok(timestamp) => timestamp,
+                Err(_) => {
+                    warn!("Unexpected message in the output channel {:?}", msg);
+                    continue;
+                }
+            };
             let mut clients = clients.write().await;
             let mut disconnected_clients: Vec<String> = vec![];
             for (id, client_handle) in clients.iter() {
@@ -62,7 +69,7 @@ async fn main() -> Result<(), Box<dyn std::error::Error>> {
                     .collect::<Vec<String>>();
 
                 if let Err(SendError(_)) = client_handle.send(ClientMessage::Data {
-                    timestamp: msg[0].parse().unwrap(),
+                    timestamp,
                     values,
                 }) {
                     info!("Disconnecting client {}", id);
-- 
2.43.0


From c944a7001d14ccea9d673578109846fcd49da4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 41/52] fix: let samples pass before any pipeline was run

---
 apps/redis-module/src/commands/rtbot_xrun.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/redis-module/src/commands/rtbot_xrun.rs b/apps/redis-module/src/commands/rtbot_xrun.rs
index d8dff59..ad2f603 100644
--- a/apps/redis-module/src/commands/rtbot_xrun.rs
+++ b/apps/redis-module/src/commands/rtbot_xrun.rs
@@ -31,7 +31,11 @@ pub fn on_generic_event(
         };
         // and send it to the pipelines registered for the key
         let binding = PIPELINES_REGISTRY.read().unwrap();
-        let registry = binding.as_ref().unwrap();
+        let registry = match binding.as_ref() {
+            Some(registry) => registry,
+            // no pipeline was ever run
+            None => return Ok(RedisValue::from(())),
+        };
         let result = registry
             .receive(_key, *timestamp as u64, vec![value])
             .unwrap();
-- 
2.43.0


From 8437e74ad005e57c03f4a80918c17a2147d09400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 42/52] fix: leave no pipeline behind when its history cannot
 be loaded

---
 apps/redis-module/src/commands/rtbot_run.rs | 44 ++++++++++++++-------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index ac9db75..711358f 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -1,7 +1,7 @@
 use crate::pipelines_registry::{PipelinesRegistry, PIPELINES_REGISTRY};
 use crate::program_validator::ProgramJsonSchemaValidator;
 use redis_module::RedisError::{Str, String};
-use redis_module::{Context, RedisResult, RedisString, RedisValue};
+use redis_module::{Context, RedisError, RedisResult, RedisString, RedisValue};
 use serde_json::Value;
 use std::ffi::CString;
 
@@ -45,16 +45,38 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
 
     // create the pipeline
     let pipeline_id = registry.create(&get_program_result, &input_key, &output_key)?;
+    if let Err(err) = load_history(ctx, registry, &input_key, &output_key) {
+        // do not leave the pipeline behind
+        registry.delete(&input_key, &output_key)?;
+        return Err(err);
+    }
+
+    if persist_pipeline {
+        return Ok(pipeline_id.into());
+    } else {
+        // delete the pipeline
+        registry.delete(&input_key, &output_key)?;
+        Ok("OK".into())
+    }
+}
+
+/// Sends the data existing at the input key to the pipeline and stores its output at the output key.
+fn load_history(
+    ctx: &Context,
+    registry: &PipelinesRegistry,
+    input_key: &str,
+    output_key: &str,
+) -> Result<(), RedisError> {
     // get the data from the input key
-    let input_ts = match ctx.call("ts.range", &[input_key.to_string().as_str(), "-", "+"])? {
+    let input_ts = match ctx.call("ts.range", &[input_key, "-", "+"])? {
         RedisValue::Array(s) => Ok(s),
         result => Err(String(format!(
-            "Response from 'json.get' is not an array: {} -> {:?}",
-            program_key, result
+            "Response from 'ts.range' is not an array: {} -> {:?}",
+            input_key, result
         ))),
     }?;
     // delete whatever is in the output key, if something
-    ctx.call("del", &[output_key.as_str()])?;
+    ctx.call("del", &[output_key])?;
     // create a new timeseries key
     // Notice that here we are using a policy that will replace the existing
     // value with the latest send in case of having two values with the same
@@ -62,7 +84,7 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
     // will be needed on this
     ctx.call(
         "ts.create",
-        &[output_key.as_str(), "DUPLICATE_POLICY", "LAST"],
+        &[output_key, "DUPLICATE_POLICY", "LAST"],
     )?;
     // send it to the pipeline
     for entry in input_ts {
@@ -83,7 +105,7 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         .unwrap()
         .parse::<f64>()
         .unwrap();
-        let result = registry.receive(&input_key, *timestamp as u64, vec![value])?;
+        let result = registry.receive(input_key, *timestamp as u64, vec![value])?;
         // now for each of the registered outputs send the result
         for (registered_output_key, message) in result {
             if !message.is_empty() {
@@ -105,11 +127,5 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         }
     }
 
-    if persist_pipeline {
-        return Ok(pipeline_id.into());
-    } else {
-        // delete the pipeline
-        registry.delete(&input_key, &output_key)?;
-        Ok("OK".into())
-    }
+    Ok(())
 }
-- 
2.43.0


From bb685eebbe2ad71fd4f2c48a4114eb2ba7ee51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 43/52] fix: do not lock the pipelines twice when deleting by
 input key

---
 apps/rtbot-rs/src/pipelines_registry.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 7eadfd7..992b500 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -120,13 +120,15 @@ impl PipelinesRegistry {
     ///
     /// returns: Result<String, Err(String)>
     pub fn delete_by_input_key(&self, input_key: &str) -> Result<String, PipelineError> {
-        let pipeline = self.pipelines.lock().unwrap();
+        // delete takes the lock itself
+        let output_keys: Vec<String> = match self.pipelines.lock().unwrap().get(input_key) {
+            Some(outputs) => outputs.keys().cloned().collect(),
+            None => vec![],
+        };
         let mut counter = 0;
-        if let Some(outputs) = pipeline.get(input_key) {
-            for (output_key, _) in outputs {
-                self.delete(input_key, output_key)?;
-                counter += 1;
-            }
+        for output_key in output_keys {
+            self.delete(input_key, &output_key)?;
+            counter += 1;
         }
         Ok(format!(
             "Deleted {} pipeline(s) associated with the input key {}",
-- 
2.43.0


From 42dd70bbef90e5f7652a6d855fee8b3ea58b5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 44/52] fix: replay the history to the new pipeline only

---
 apps/redis-module/src/commands/rtbot_run.rs | 38 +++++++++++----------
 apps/rtbot-rs/src/pipelines_registry.rs     | 31 +++++++++++++++++
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index 711358f..7a77d0d 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -105,25 +105,27 @@ fn load_history(
         .unwrap()
         .parse::<f64>()
         .unwrap();
-        let result = registry.receive(input_key, *timestamp as u64, vec![value])?;
-        // now for each of the registered outputs send the result
-        for (registered_output_key, message) in result {
-            if !message.is_empty() {
-                // println!("Sending message {:?} to {}", message, registered_output_key);
-                // notice that here we just consider the first element in the values as
-                // the value to consider as the output to store in the output timeseries
-                let timestamp = message[0].timestamp;
-                let value = message[0].values[0];
+        // the other pipelines which start at this key know the history already
+        let message = registry.receive_in_pipeline(
+            input_key,
+            output_key,
+            *timestamp as u64,
+            vec![value],
+        )?;
+        if !message.is_empty() {
+            // notice that here we just consider the first element in the values as
+            // the value to consider as the output to store in the output timeseries
+            let timestamp = message[0].timestamp;
+            let value = message[0].values[0];
 
-                ctx.call(
-                    "ts.add",
-                    &[
-                        registered_output_key.as_str(),
-                        timestamp.to_string().as_str(),
-                        value.to_string().as_str(),
-                    ],
-                )?;
-            }
+            ctx.call(
+                "ts.add",
+                &[
+                    output_key,
+                    timestamp.to_string().as_str(),
+                    value.to_string().as_str(),
+                ],
+            )?;
         }
     }
 
diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 992b500..74ec65b 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -173,4 +173,35 @@ impl PipelinesRegistry {
         }
         Ok(result)
     }
+
+    /// Sends a message to the pipeline registered between the input and output keys
+    /// specified only.
+    ///
+    /// # Arguments
+    ///
+    /// * `input_key`: The input key
+    /// * `output_key`: The output key
+    /// * `timestamp`: The timestamp of the message
+    /// * `values`: The values of the message.
+    ///
+    /// returns: Result<Vec<RtBotMessage>, PipelineError>
+    pub fn receive_in_pipeline(
+        &self,
+        input_key: &str,
+        output_key: &str,
+        timestamp: u64,
+        values: Vec<f64>,
+    ) -> Result<Vec<RtBotMessage>, PipelineError> {
+        let pipeline = self.pipelines.lock().unwrap();
+        match pipeline.get(input_key).and_then(|o| o.get(output_key)) {
+            Some(pipeline_id) => Ok(cxx_bindings::ffi::receive_message_in_pipeline(
+                pipeline_id.to_string(),
+                RtBotMessage { timestamp, values },
+            )),
+            None => Err(PipelineError::Generic(format!(
+                "There is no pipeline from key {} to key {}",
+                input_key, output_key
+            ))),
+        }
+    }
 }
-- 
2.43.0


From 2eea109e0825b4598c95f4e784e344cf4af2999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 45/52] fix: pass the verbose flag of the debug command as
 such, not as its progress callback

---
 apps/cli/src/commands/debug.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/commands/debug.ts b/apps/cli/src/commands/debug.ts
index 226b27a..8944d91 100644
--- a/apps/cli/src/commands/debug.ts
+++ b/apps/cli/src/commands/debug.ts
@@ -94,7 +94,7 @@ export const registerDebug = (program: Command) => {
           }
         })
         .filter((r) => r.length === 2);
-      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, verbose);
+      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, undefined, verbose);
       try {
         await rtbotRun.run();
       } catch (e: any) {
-- 
2.43.0


From c1f6428d7c766097d137e9118211ce4b7a9edd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 46/52] fix: create the checkbox of an operator once, not at
 every step of the debugger

---
 apps/cli/src/tui/select-operators-form.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/cli/src/tui/select-operators-form.ts b/apps/cli/src/tui/select-operators-form.ts
index 3172d4c..b2d02dd 100644
--- a/apps/cli/src/tui/select-operators-form.ts
+++ b/apps/cli/src/tui/select-operators-form.ts
@@ -17,8 +17,12 @@ export const selectOperatorsForm = () => {
     parent: box,
   });
 
+  // the store changes at every step, each operator gets its checkbox only once
+  const opIds = new Set<string>();
   debuggerStore.subscribe((state) => {
     state.operators.forEach((opDef, i: number) => {
+      if (opIds.has(opDef.id)) return;
+      opIds.add(opDef.id);
       const checkbox = blessed.checkbox({
         parent: selectOperatorsForm,
         text: `${opDef.id} [${opDef.type}]`,
-- 
2.43.0


From 287dd889a5644c6d5b6c53dd3e8c4a754fd30019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 47/52] fix: end the output table of the debugger at the last
 iteration

---
 apps/cli/src/tui/store.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 21eed9d..344c5c8 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -81,7 +81,7 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
           columns: [headers],
         };
 
-      for (let i = iteration - 1; i < Math.min(iteration, maxIteration) + 10; i++) {
+      for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-- 
2.43.0


From 93ae09af8f39cd275c41f1b888202a39e991867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 48/52] fix: show silent ports of an operator in the debugger
 instead of failing

---
 apps/cli/src/tui/store.ts | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 344c5c8..18da9d9 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -85,13 +85,10 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-          if (opId && r.out[opId]) {
-            const opOutput = r.out[opId]!;
-            return opOutput[port ?? "o1"]!.map(
-              ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
-            ).join(", ");
-          }
-          return "-";
+          // a port that stays silent in an iteration is not part of its output
+          const msgs = opId ? r.out[opId]?.[port ?? "o1"] ?? [] : [];
+          if (msgs.length === 0) return "-";
+          return msgs.map(({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`).join(", ");
         });
         rows.push([`${i}`, ...row]);
       }
-- 
2.43.0


From 061695d95e3386e5ea41390f16b999f24a9c9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 49/52] fix: show every port an operator emits on in the
 debugger

---
 apps/cli/src/tui/store.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 18da9d9..a638296 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -28,6 +28,15 @@ export type DebuggerState = {
   columns: string[][];
 };
 
+// the declared ports, and those that emit something without being declared, e.g. by default
+const computePorts = (op: any, result: ExtendedFormat) => {
+  const emitting = result.flatMap(({ out }) => Object.keys(out[op.id] ?? {}));
+  const declared = Array(op.numPorts ?? 1)
+    .fill(1)
+    .map((_, i) => `o${i + 1}`);
+  return Array.from(new Set([...declared, ...emitting])).sort((a, b) => Number(a.slice(1)) - Number(b.slice(1)));
+};
+
 export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((set, get) => ({
   timeCursor: -1,
   iteration: 0,
@@ -49,11 +58,7 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
         id: op.id,
         type: op.type,
         selected: true,
-        ports: op.numPorts
-          ? Array(op.numPorts)
-              .fill(1)
-              .map((_, i) => `o${i + 1}`)
-          : ["o1"],
+        ports: computePorts(op, state.result!),
       })),
     })),
   updateOperator: (id: string, selected: boolean) =>
-- 
2.43.0


From d1003d266368f3f0a377066e765c97e1c7131610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 50/52] fix: show the output of operators with a colon in their
 id in the debugger

---
 apps/cli/src/tui/store.ts | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index a638296..0a6408d 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -74,12 +74,10 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
       const rows = [];
       const { iteration, maxIteration } = state;
 
-      const opHeaders = operators.reduce(
-        (acc: string[], op: DebuggerOperatorDef) =>
-          op.ports.length > 1 ? [...acc, ...op.ports.map((p) => `${op.id}:${p}`)] : [...acc, op.id],
-        []
+      const opPorts = operators.flatMap((op: DebuggerOperatorDef) =>
+        op.ports.map((port) => ({ opId: op.id, port, header: op.ports.length > 1 ? `${op.id}:${port}` : op.id }))
       );
-      const headers = ["iter", ...opHeaders];
+      const headers = ["iter", ...opPorts.map(({ header }) => header)];
 
       if (iteration === 0)
         return {
@@ -88,10 +86,9 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
 
       for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
-        const row = opHeaders.map((h) => {
-          const [opId, port] = h.split(":");
+        const row = opPorts.map(({ opId, port }) => {
           // a port that stays silent in an iteration is not part of its output
-          const msgs = opId ? r.out[opId]?.[port ?? "o1"] ?? [] : [];
+          const msgs = r.out[opId]?.[port] ?? [];
           if (msgs.length === 0) return "-";
           return msgs.map(({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`).join(", ");
         });
-- 
2.43.0


From e616a84afadcb5b964dfe26276fe0c1bb8bd75de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:50 +0000
Subject: [PATCH 51/52] fix: operators within a pipeline may have a colon in
 their id

---
 libs/api/include/rtbot/Pipeline.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index 3bf1d22..09824db 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -83,11 +83,9 @@ struct Pipeline : public Operator<T, V> {
 
  private:
   static auto split2(string const& s, char delim = ':') {
-    std::istringstream is(s);
-    string word1, word2;
-    getline(is, word1, delim);
-    getline(is, word2, char(0));
-    return make_pair(word1, word2);
+    // an operator id may contain the delimiter, a port never does
+    size_t pos = s.rfind(delim);
+    return make_pair(s.substr(0, pos), s.substr(pos + 1));
   }
 };
 
-- 
2.43.0


From 3c906f914724374808b7a4d51a883820fbe3fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 52/52] fix: the Python and WebAssembly modules name which
 createProgram they export

Since the engine can create programs from bytes too, &createProgram is ambiguous and neither module compiles.
---
 libs/api/wasm/emscripten-bindings.cpp | 3 ++-
 libs/wrappers/python/rtbot.cpp        | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/api/wasm/emscripten-bindings.cpp b/libs/api/wasm/emscripten-bindings.cpp
index 8326827..d5f1a89 100644
--- a/libs/api/wasm/emscripten-bindings.cpp
+++ b/libs/api/wasm/emscripten-bindings.cpp
@@ -56,7 +56,8 @@ EMSCRIPTEN_BINDINGS(RtBot) {
   emscripten::function("validate", &validate);
   emscripten::function("validateOperator", &validateOperator);
 
-  emscripten::function("createProgram", &createProgram);
+  // the engine also creates programs from bytes
+  emscripten::function("createProgram", select_overload<string(string const&, string const&)>(&createProgram));
   emscripten::function("deleteProgram", &deleteProgram);
 
   emscripten::function("addToMessageBuffer", &addToMessageBuffer);
diff --git a/libs/wrappers/python/rtbot.cpp b/libs/wrappers/python/rtbot.cpp
index ba9dbb5..b1689d6 100644
--- a/libs/wrappers/python/rtbot.cpp
+++ b/libs/wrappers/python/rtbot.cpp
@@ -20,7 +20,9 @@ PYBIND11_MODULE(rtbotapi, m) {
   m.def("validate", &validate, "Validates json representation of an rtbot program");
   m.def("validateOperator", &validateOperator, "Validates a json representation of an rtbot operator");
 
-  m.def("createProgram", &createProgram, "Register an rtbot program in memory");
+  // the engine also creates programs from bytes
+  m.def("createProgram", py::overload_cast<string const&, string const&>(&createProgram),
+        "Register an rtbot program in memory");
   m.def("deleteProgram", &deleteProgram, "Deletes and frees the memory of a previsouly created rtbot program");
   
   m.def("addToMessageBuffer", &addToMessageBuffer);
-- 
2.43.0

