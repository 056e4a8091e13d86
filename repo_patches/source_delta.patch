From 2c53a74287a663de21974941dc02b88327ce81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 01/24] fix: do not restart the timing sequence counter at each
 grant

A late response to an earlier request was mistaken for a response to the current
one, so a federate could be granted a time past data it had not received.
---
 src/helics/core/BaseTimeCoordinator.hpp |  2 +-
 src/helics/core/TimeCoordinator.cpp     | 12 ++----------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/helics/core/BaseTimeCoordinator.hpp b/src/helics/core/BaseTimeCoordinator.hpp
index c12c891..8653409 100644
--- a/src/helics/core/BaseTimeCoordinator.hpp
+++ b/src/helics/core/BaseTimeCoordinator.hpp
@@ -64,7 +64,7 @@ class BaseTimeCoordinator {
     static void normalizeSequenceCounter(std::int32_t& counter)
     {
         if (counter > maxTimingSequenceCounter) {
-            counter = 1;
+            counter -= maxTimingSequenceCounter;
         }
     }
 
diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 9efa92d..4e99f29 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -261,7 +261,7 @@ void TimeCoordinator::timeRequest(Time nextTime,
         }
     }
     dependencies.resetDependentEvents(time_granted);
-    ++sequenceCounter;
+    incrementSequenceCounter(sequenceCounter);
     updateTimeFactors();
 
     if (!dependencies.empty()) {
@@ -677,7 +677,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
         case IterationRequest::NO_ITERATIONS:
             if (time_allow > time_exec) {
                 iteration = 0;
-                sequenceCounter = 0;
                 hasIterationData = false;
                 updateTimeGrant();
                 return MessageProcessingResult::NEXT_STEP;
@@ -687,7 +686,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     if (time_requested <= time_exec) {
                         // this is the non interrupted case
                         iteration = 0;
-                        sequenceCounter = 0;
                         hasIterationData = false;
                         updateTimeGrant();
                         return MessageProcessingResult::NEXT_STEP;
@@ -698,7 +696,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     getDelayMode(info.wait_for_current_time_updates, (time_requested > time_exec));
                 if (dependencies.checkIfReadyForTimeGrant(false, time_exec, delayMode)) {
                     iteration = 0;
-                    sequenceCounter = 0;
                     hasIterationData = false;
                     updateTimeGrant();
                     return MessageProcessingResult::NEXT_STEP;
@@ -721,7 +718,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     ++iteration;
                 } else {
                     iteration = 0;
-                    sequenceCounter = 0;
                 }
 
                 updateTimeGrant();
@@ -806,7 +802,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                 ret = MessageProcessingResult::ITERATING;
             } else {
                 iteration = 0;
-                sequenceCounter = 0;
                 hasIterationData = false;
                 updateTimeGrant();
             }
@@ -940,14 +935,11 @@ void TimeCoordinator::updateTimeGrant()
         time_granted = time_exec;
         time_grantBase = time_granted;
     }
-    ++sequenceCounter;
+    incrementSequenceCounter(sequenceCounter);
     ActionMessage treq(CMD_TIME_GRANT);
     treq.source_id = mSourceId;
     treq.actionTime = time_granted;
     treq.counter = sequenceCounter;
-    if (std::cmp_not_equal(treq.counter, sequenceCounter)) {
-        sequenceCounter = 0;
-    }
     if (iterating != IterationRequest::NO_ITERATIONS) {
         dependencies.resetIteratingTimeRequests(time_exec);
     }
-- 
2.43.0


From 81b67b66f642504bf82af0e5fc70bd1a0027e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 02/24] fix: tell a disconnected dependency's waiting partner
 the updated request

After a dependency disconnected, the updated time request was not propagated and
the remaining federates could wait for each other forever.
---
 src/helics/core/TimeCoordinator.cpp           | 2 +-
 src/helics/core/TimeCoordinatorProcessing.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 4e99f29..ea5f596 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -919,7 +919,7 @@ void TimeCoordinator::sendTimeRequest(GlobalFederateId triggerFed) const
     } else if (triggerFed.isValid()) {
         upd.dest_id = triggerFed;
         const auto* dep = dependencies.getDependencyInfo(triggerFed);
-        if (dep->dependent) {
+        if (dep != nullptr && dep->dependent) {
             upd.setExtraDestData(dep->sequenceCounter);
             sendMessageFunction(upd);
         }
diff --git a/src/helics/core/TimeCoordinatorProcessing.cpp b/src/helics/core/TimeCoordinatorProcessing.cpp
index b88ab43..5862de5 100644
--- a/src/helics/core/TimeCoordinatorProcessing.cpp
+++ b/src/helics/core/TimeCoordinatorProcessing.cpp
@@ -189,7 +189,7 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     break;
                 }
                 if (!timeGranted_mode) {
-                    proc = timeCoord->checkTimeGrant();
+                    proc = timeCoord->checkTimeGrant(GlobalFederateId(cmd.source_id));
                     if (returnableResult(proc)) {
                         newMode = true;
                     }
@@ -219,7 +219,7 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                 break;
             }
             if (!timeGranted_mode) {
-                proc = timeCoord->checkTimeGrant();
+                proc = timeCoord->checkTimeGrant(GlobalFederateId(cmd.source_id));
                 if (returnableResult(proc)) {
                     newMode = true;
                 }
@@ -305,7 +305,7 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     break;
                 }
                 if (!timeGranted_mode) {
-                    proc = timeCoord->checkTimeGrant();
+                    proc = timeCoord->checkTimeGrant(GlobalFederateId(cmd.source_id));
                     if (returnableResult(proc)) {
                         newMode = true;
                     }
-- 
2.43.0


From ec0c526c4e60ce193a5a8355a3a38fa15acec979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 03/24] fix: keep the event times promised by one-way
 dependencies across a grant

---
 src/helics/core/TimeDependencies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 14cae14..5fe7fb3 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -700,7 +700,7 @@ void TimeDependencies::resetIteratingTimeRequests(helics::Time requestTime)
 void TimeDependencies::resetDependentEvents(helics::Time grantTime)
 {
     for (auto& dep : dependencies) {
-        if (dep.dependency) {
+        if (dep.dependency && dep.dependent) {
             dep.Te = (std::max)(dep.next, grantTime);
             dep.minDe = dep.Te;
         }
-- 
2.43.0


From 340d5e83d5af1c3298bcd745789c7bc42f9db752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 04/24] fix: a federate must not wait for what it reported to
 itself

---
 src/helics/core/TimeDependencies.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 5fe7fb3..0ad1d74 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -775,6 +775,12 @@ static void generateMinTimeImplementation(TimeData& mTime,
         return;
     }
 
+    if (dep.connection == ConnectionType::SELF) {
+        // while its own request is pending a federate cannot generate any event, so what it last
+        // reported to itself must not limit the time it is granted
+        return;
+    }
+
     if (dep.fedID == ignore) {
         if (dep.fedID.isBroker()) {
             if (dep.Te < mTime.minDe) {
-- 
2.43.0


From 6afecb7b43f74b9fd90a8bb6892618a59ba97187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 05/24] fix: do not trust a next event time sent before the
 current request was seen

---
 src/helics/core/TimeDependencies.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 0ad1d74..99b2401 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -839,10 +839,14 @@ static void generateMinTimeImplementation(TimeData& mTime,
             mTime.interrupted = false;
         }
     }
-    // if (dep.connection != ConnectionType::self) {
-    if (dep.Te < mTime.Te) {
+    // a next event time sent before the dependency saw the current request cannot be trusted
+    const Time depTe = (sequenceCode == 0 || dep.responseSequenceCounter == sequenceCode ||
+                        dep.timingVersion == 0 || !dep.dependent) ?
+        dep.Te :
+        (std::min)(dep.Te, dep.next);
+    if (depTe < mTime.Te) {
         mTime.TeAlt = mTime.Te;
-        mTime.Te = dep.Te;
+        mTime.Te = depTe;
         mTime.minFed = dep.fedID;
         mTime.sequenceCounter = dep.sequenceCounter;
         mTime.responseSequenceCounter = dep.sequenceCounter;
@@ -852,11 +856,10 @@ static void generateMinTimeImplementation(TimeData& mTime,
         } else {
             mTime.minFed = dep.fedID;
         }
-    } else if (dep.Te == mTime.Te) {
+    } else if (depTe == mTime.Te) {
         mTime.minFed = GlobalFederateId{};
         mTime.TeAlt = mTime.Te;
     }
-    // }
 }
 
 const DependencyInfo& getExecEntryMinFederate(const TimeDependencies& dependencies,
-- 
2.43.0


From f1ac422edb56787846ef4765ff83c27d23577b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 06/24] fix: track the second earliest event time when the
 earliest comes first

---
 src/helics/core/TimeDependencies.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 99b2401..a034180 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -859,6 +859,8 @@ static void generateMinTimeImplementation(TimeData& mTime,
     } else if (depTe == mTime.Te) {
         mTime.minFed = GlobalFederateId{};
         mTime.TeAlt = mTime.Te;
+    } else if (depTe < mTime.TeAlt) {
+        mTime.TeAlt = depTe;
     }
 }
 
-- 
2.43.0


From 16f6388cb14117d90ca60fabcd815bd777456b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 07/24] fix: a broker with endpoints below it must depend on
 its parent even if a core linked first

---
 src/helics/core/CoreBroker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 4b81e2d..068f497 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2185,7 +2185,7 @@ void CoreBroker::addEndpoint(ActionMessage& message)
 
     if (!isRootc) {
         transmit(parent_route_id, message);
-        if (!hasTimeDependency && !globalTime && !asyncTime) {
+        if (!globalTime && !asyncTime) {
             if (timeCoord->addDependency(higher_broker_id)) {
                 hasTimeDependency = true;
                 ActionMessage add(CMD_ADD_INTERDEPENDENCY,
@@ -4660,6 +4660,7 @@ void CoreBroker::checkDependencies()
                     routeMessage(rmdep, depid);
                     timeCoord->removeDependency(depid);
                     timeCoord->removeDependent(depid);
+                    hasTimeDependency = false;
                 }
             }
         }
-- 
2.43.0


From 0e68492f11e2558b9d525ccf60f5064bbdf27fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 08/24] fix: do not reflect a triggering dependency's own event
 time back to it

---
 src/helics/core/TimeCoordinator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index ea5f596..84cff0f 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -921,6 +921,15 @@ void TimeCoordinator::sendTimeRequest(GlobalFederateId triggerFed) const
         const auto* dep = dependencies.getDependencyInfo(triggerFed);
         if (dep != nullptr && dep->dependent) {
             upd.setExtraDestData(dep->sequenceCounter);
+            if (triggerFed == upstream.minFed) {
+                // do not reflect the trigger's own event time back to it
+                upd.setExtraData(GlobalFederateId{}.baseValue());
+                if (!globalTime && (info.event_triggered || time_requested >= cTerminationTime)) {
+                    upd.Te = checkAdd(time_exec, info.outputDelay);
+                    upd.Te = std::min(upd.Te, checkAdd(upstream.TeAlt, info.outputDelay));
+                }
+                upd.Tdemin = std::min(upstream.TeAlt, upd.Te);
+            }
             sendMessageFunction(upd);
         }
     }
-- 
2.43.0


From 2f408e66ff6d6dfa3449e88443ae921ab9bf7fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 09/24] fix: a value that arrives late because of an input
 delay must still wake its federate

---
 src/helics/core/FederateState.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 5ddac6c..da5e137 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2457,9 +2457,11 @@ int FederateState::checkInterfaces()
 Time FederateState::nextValueTime() const
 {
     auto firstValueTime = Time::maxVal();
+    // with an input delay a value may still arrive after its own time was granted
+    const Time inputDelay = timeCoord->getTimeProperty(defs::Properties::INPUT_DELAY);
     for (const auto& inp : interfaceInformation.getInputs()) {
         auto nvt = inp->nextValueTime();
-        if (nvt >= time_granted) {
+        if (nvt >= time_granted - inputDelay) {
             if (nvt < firstValueTime) {
                 firstValueTime = nvt;
             }
-- 
2.43.0


From a88ac5e8770e248901dec8ae2a5f86b8afc52a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 10/24] fix: swapping an inline SmallBuffer with an allocated
 one must not leave it pointing into the other

---
 src/helics/core/SmallBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/SmallBuffer.hpp b/src/helics/core/SmallBuffer.hpp
index 6e958a1..6a407d8 100644
--- a/src/helics/core/SmallBuffer.hpp
+++ b/src/helics/core/SmallBuffer.hpp
@@ -361,7 +361,7 @@ class SmallBuffer {
             nonOwning = sb2.nonOwning;
             sb2.usingAllocatedBuffer = false;
             sb2.nonOwning = false;
-            sb2.heap = buffer.data();
+            sb2.heap = sb2.buffer.data();
             sb2.bufferCapacity = 64;
 
             std::memcpy(sb2.heap, buffer.data(), bufferSize);
-- 
2.43.0


From 8343fef844959242104dad6fac4c2fa4f7790e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 11/24] fix: an uninterruptible federate forcing an iteration
 must not promise a later time

---
 src/helics/core/TimeCoordinator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 84cff0f..4928bdd 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -280,8 +280,11 @@ bool TimeCoordinator::updateNextExecutionTime()
             if (time_exec < cTerminationTime) {
                 time_exec += info.inputDelay;
             }
+            // a forced iteration always returns at the present time
             time_exec =
-                (time_exec <= time_granted) ? time_granted : generateAllowedTime(time_requested);
+                (time_exec <= time_granted || iterating == IterationRequest::FORCE_ITERATION) ?
+                time_granted :
+                generateAllowedTime(time_requested);
         }
     } else {
         time_exec = std::min(time_message, time_value);
-- 
2.43.0


From 38196b25aa8d3c05c3032e64164931dea91df071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 12/24] fix: a destination filter that drops a message must not
 be dereferenced

---
 src/helics/core/FilterFederate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 44783b9..987c7eb 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -437,6 +437,10 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     auto tempMessage = createMessageFromCommand(std::move(command));
                     auto odest = tempMessage->dest;
                     auto nmessage = ffunc->destFilter->filterOp->process(std::move(tempMessage));
+                    if (!nmessage) {
+                        // the filter dropped the message
+                        return false;
+                    }
                     if (odest == nmessage->dest) {
                         command = std::move(nmessage);
                     } else {
-- 
2.43.0


From 85fa76b451538434aabe5bd206e832ab6db2d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 13/24] fix: route a message by the destination its destination
 filter chose

---
 src/helics/core/FilterFederate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 987c7eb..c2347f1 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -446,6 +446,9 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     } else {
                         // handle destination reroute filters
                         command = std::move(nmessage);
+                        // the message must be routed by its new destination
+                        command.dest_id = parent_broker_id;
+                        command.dest_handle = InterfaceHandle{};
                         mDeliverMessage(command);
                         return false;
                     }
-- 
2.43.0


From 36362f85bfbda75e275a96120e56c9b058c06c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 14/24] fix: accept a destination filter on an endpoint that
 has only cloning ones

---
 src/helics/core/FilterFederate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index c2347f1..56320c9 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -799,7 +799,8 @@ void FilterFederate::processFilterInfo(ActionMessage& command)
                 mHandles->getInterfaceHandle(command.dest_handle, InterfaceType::ENDPOINT);
             if (endhandle != nullptr) {
                 setActionFlag(*endhandle, has_dest_filter_flag);
-                if ((!checkActionFlag(command, clone_flag)) && (filterC->hasDestFilters)) {
+                if ((!checkActionFlag(command, clone_flag)) &&
+                    (filterC->destFilter != nullptr)) {
                     // duplicate non cloning destination filters are not allowed
                     ActionMessage err(CMD_ERROR);
                     err.dest_id = command.source_id;
-- 
2.43.0


From 2f61f2c300408a059dde2d719ab64e50658466d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 15/24] fix: reading a string that is not a number as a complex
 vector threw a parse error instead of giving an empty vector

---
 src/helics/application_api/helicsTypes.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 8ee0363..ab12b4b 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -613,7 +613,15 @@ void helicsGetComplexVector(std::string_view val, std::vector<std::complex<doubl
             data.resize(0);
             data.push_back(cval);
         } else {
-            auto json = fileops::loadJsonStr(val);
+            nlohmann::json json;
+            try {
+                json = fileops::loadJsonStr(val);
+            }
+            catch (const std::exception&) {
+                // the string does not encode a number or vector
+                data.resize(0);
+                return;
+            }
             int cnt{0};
             switch (json.type()) {
                 case nlohmann::json::value_t::number_float:
-- 
2.43.0


From 14085e14de53d58ab5248ad94dd3a60ea3d7ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 16/24] fix: reading an empty vector as a complex vector read
 past its end (size()-1 underflow)

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index e09283d..c721902 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -320,7 +320,7 @@ void valueExtract(const defV& data, std::vector<std::complex<double>>& val)
             const auto& vec = std::get<std::vector<double>>(data);
             val.reserve(vec.size() + 1 / 2);
             val.clear();
-            for (size_t ii = 0; ii < vec.size() - 1; ii += 2) {
+            for (size_t ii = 0; ii + 1 < vec.size(); ii += 2) {
                 val.emplace_back(vec[ii], vec[ii + 1]);
             }
             if (vec.size() % 2 == 1) {
@@ -566,7 +566,7 @@ defV readJsonValue(const data_view& data)
             case DataType::HELICS_COMPLEX_VECTOR: {
                 std::vector<std::complex<double>> res;
                 auto& array = json["value"];
-                for (std::size_t ii = 0; ii < array.size() - 1; ii += 2) {
+                for (std::size_t ii = 0; ii + 1 < array.size(); ii += 2) {
                     res.emplace_back(array[ii].get<double>(), array[ii + 1].get<double>());
                 }
                 result = std::move(res);
@@ -724,7 +724,7 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<std::com
         }
         case DataType::HELICS_VECTOR: {
             auto vec = ValueConverter<std::vector<double>>::interpret(data);
-            for (size_t ii = 0; ii < vec.size() - 1; ii += 2) {
+            for (size_t ii = 0; ii + 1 < vec.size(); ii += 2) {
                 val.emplace_back(vec[ii], vec[ii + 1]);
             }
             if (vec.size() % 2 == 1) {
-- 
2.43.0


From c79500a46b7b7121c8287b79a6ea4a2a4b3e2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 17/24] fix: name the originating endpoint, not the found one,
 when two endpoints are connected directly

---
 src/helics/core/CommonCore.cpp | 6 ++++++
 src/helics/core/CoreBroker.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 2c7f2d7..367383a 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4080,6 +4080,12 @@ void CommonCore::checkForNamedInterface(ActionMessage& command)
                 if (command.counter != static_cast<uint16_t>(InterfaceType::FILTER)) {
                     command.setAction(CMD_ADD_ENDPOINT);
                     toggleActionFlag(command, destination_target);
+                    // the endpoint is connected to the originating interface, not to itself
+                    const auto* origin = loopHandles.findHandle(command.getSource());
+                    if (origin != nullptr) {
+                        command.name(origin->key);
+                        command.setString(typeStringLoc, origin->type);
+                    }
                 } else {
                     command.setAction(CMD_ADD_FILTER);
                 }
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 068f497..8947a9b 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1874,6 +1874,12 @@ void CoreBroker::checkForNamedInterface(ActionMessage& command)
                     if (command.counter == static_cast<uint16_t>(InterfaceType::ENDPOINT)) {
                         command.setAction(CMD_ADD_ENDPOINT);
                         toggleActionFlag(command, destination_target);
+                        // the endpoint is connected to the originating interface, not to itself
+                        const auto* origin = handles.findHandle(command.getSource());
+                        if (origin != nullptr) {
+                            command.name(origin->key);
+                            command.setString(typeStringLoc, origin->type);
+                        }
                     } else {
                         command.setAction(CMD_ADD_FILTER);
                         auto* filt = handles.findHandle(command.getSource());
-- 
2.43.0


From 6c4cee1fd429050bebf29dda6b40f92be7f0ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:08 +0000
Subject: [PATCH 18/24] fix: the sequence number of a command from a machine of
 the other byte order was not swapped

---
 src/helics/core/ActionMessage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 1cdf83d..5573ad8 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -554,6 +554,7 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
         swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&dest_handle));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&counter));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&flags));
+        swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&sequenceID));
         auto timecode = actionTime.getBaseTimeCode();
         swap_bytes<sizeof(Time::baseType)>(reinterpret_cast<std::uint8_t*>(&timecode));
         actionTime.setBaseTimeCode(timecode);
-- 
2.43.0


From 3212b906566bd574d2452f4c4504c3e92fc782c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:08 +0000
Subject: [PATCH 19/24] fix: a time request was written past the end of a
 buffer too small for its additional times

---
 src/helics/core/ActionMessage.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 5573ad8..82dc52e 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -193,7 +193,12 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
         }
     }
 
-    if ((data == nullptr) || (buffer_size == 0) || buffer_size < action_message_base_size + ssize) {
+    // a time request carries 3 additional times instead of a payload
+    const std::size_t extraSize =
+        (messageAction == CMD_TIME_REQUEST) ? 3 * sizeof(Time::baseType) : ssize;
+
+    if ((data == nullptr) || (buffer_size == 0) ||
+        buffer_size < action_message_base_size + extraSize) {
         return -1;
     }
 
-- 
2.43.0


From fbecd50c89e5f81841c7068fab5c3b08f8df0d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:08 +0000
Subject: [PATCH 20/24] fix: decoding a command without payload kept the
 payload the object held before

---
 src/helics/core/ActionMessage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 82dc52e..f154248 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -521,6 +521,8 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
     if (size > 0) {
         payload.assign(data, size);
         data += size;
+    } else {
+        payload.clear();
     }
     auto stringCount = std::to_integer<std::size_t>(*data);
     ++data;
-- 
2.43.0


From eb098af4135b9ff36a60b996730be3a3101d1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 21/24] fix: waitCommand answers every consecutive notify
 command instead of handing the second one to the user

---
 src/helics/core/FederateState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index da5e137..d6d0392 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2688,7 +2688,7 @@ std::pair<std::string, std::string> FederateState::getCommand()
 std::pair<std::string, std::string> FederateState::waitCommand()
 {
     auto val = commandQueue.pop();
-    if (val.first == "notify") {
+    while (val.first == "notify") {
         if (mParent != nullptr) {
             mParent->sendCommand(val.second,
                                  "notify_response",
-- 
2.43.0


From 608faf745862ecc1ba98ce95eeeb7f69ce9f4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 22/24] fix: allowing multiple connections of a publication or
 endpoint required exactly one instead

---
 src/helics/core/EndpointInfo.cpp    | 2 +-
 src/helics/core/PublicationInfo.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/EndpointInfo.cpp b/src/helics/core/EndpointInfo.cpp
index 33dd21e..6893a70 100644
--- a/src/helics/core/EndpointInfo.cpp
+++ b/src/helics/core/EndpointInfo.cpp
@@ -368,7 +368,7 @@ void EndpointInfo::setProperty(int32_t option, int32_t value)
             requiredConnections = bvalue ? 1 : 0;
             break;
         case defs::Options::MULTIPLE_CONNECTIONS_ALLOWED:
-            requiredConnections = !bvalue ? 0 : 1;
+            requiredConnections = bvalue ? 0 : 1;
             break;
         case defs::Options::CONNECTIONS:
             requiredConnections = value;
diff --git a/src/helics/core/PublicationInfo.cpp b/src/helics/core/PublicationInfo.cpp
index 59958a0..1865399 100644
--- a/src/helics/core/PublicationInfo.cpp
+++ b/src/helics/core/PublicationInfo.cpp
@@ -86,7 +86,7 @@ void PublicationInfo::setProperty(int32_t option, int32_t value)
             requiredConnections = bvalue ? 1 : 0;
             break;
         case defs::Options::MULTIPLE_CONNECTIONS_ALLOWED:
-            requiredConnections = !bvalue ? 0 : 1;
+            requiredConnections = bvalue ? 0 : 1;
             break;
         case defs::Options::BUFFER_DATA:
             buffer_data = bvalue;
-- 
2.43.0


From 290ffc16e3fd82bb2c8f69c3fecd9a1a2d6d0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 23/24] fix: setting the interruptible flag had no effect

---
 src/helics/core/TimeCoordinator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 4928bdd..42685a3 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -1446,6 +1446,9 @@ void TimeCoordinator::setOptionFlag(int optionFlag, bool value)
         case defs::Flags::UNINTERRUPTIBLE:
             info.uninterruptible = value;
             break;
+        case defs::Flags::INTERRUPTIBLE:
+            info.uninterruptible = !value;
+            break;
         case defs::Flags::WAIT_FOR_CURRENT_TIME_UPDATE:
             info.wait_for_current_time_updates = value;
             break;
-- 
2.43.0


From d6f6f098dbf6e6dd4fca699f51e06314870ffd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 24/24] fix: the ignore unit mismatch option of an input always
 read as unset

---
 src/helics/core/InputInfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index 3c7a6f5..194aed0 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -573,6 +573,9 @@ int32_t InputInfo::getProperty(int32_t option) const
         case defs::Options::STRICT_TYPE_CHECKING:
             flagval = strict_type_matching;
             break;
+        case defs::Options::IGNORE_UNIT_MISMATCH:
+            flagval = ignore_unit_mismatch;
+            break;
         case defs::Options::CONNECTIONS:
             return static_cast<int32_t>(input_sources.size());
         case defs::Options::INPUT_PRIORITY_LOCATION:
-- 
2.43.0

