From acc373f2fc14deddc07df200b7befd07541b74e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 01/57] fix: keep a cstring intact on assignment from itself,
 from its own text or on a failed allocation

---
 src/Xsmp/cstring.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index d882fda..f2af208 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -43,15 +43,17 @@ cstring::cstring(const cstring &other) : cstring(other.c_str()) {}
 
 cstring &cstring::operator=(const cstring &other) {
   if (this != &other) {
-    delete[] _value;
-    _value = copy(other.c_str());
+    *this = other.c_str();
   }
   return *this;
 }
 
 cstring &cstring::operator=(const char *value) {
+  // copy first: value may point into the current content and the allocation may
+  // fail
+  const auto *newValue = copy(value);
   delete[] _value;
-  _value = copy(value);
+  _value = newValue;
   return *this;
 }
 
@@ -61,9 +63,11 @@ cstring::cstring(cstring &&other) noexcept : _value{other._value} {
   other._value = nullptr;
 }
 cstring &cstring::operator=(cstring &&other) noexcept {
-  delete[] _value;
-  _value = other._value;
-  other._value = nullptr;
+  if (this != &other) {
+    delete[] _value;
+    _value = other._value;
+    other._value = nullptr;
+  }
   return *this;
 }
 } // namespace Xsmp
-- 
2.43.0


From e4494676d384de9620f8139214611897f9033c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 02/57] fix: configure a component once, whichever signature
 its DoConfigure has

---
 include/Xsmp/ComponentHelper.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 76538a2..a81b809 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -50,8 +50,6 @@ public:
                         ::Smp::Services::ILinkRegistry *linkRegistry) {
     static_assert(std::is_base_of_v<U, T>);
     if constexpr (hasDoConfigure<T>::value) {
-      static_cast<T *>(cmp)->DoConfigure(logger, linkRegistry);
-
       if constexpr (std::is_invocable_v<decltype(&T::DoConfigure), T *,
                                         ::Smp::Services::ILogger *,
                                         ::Smp::Services::ILinkRegistry *>) {
-- 
2.43.0


From 344416e8c0a41ac0157139bcc067ad939d40390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 03/57] fix: accept a DoPublish() that takes no argument

---
 include/Xsmp/ComponentHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index a81b809..28c94d5 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -40,7 +40,7 @@ public:
       }
       static_assert(std::is_invocable_v<decltype(&T::DoPublish), T *,
                                         ::Smp::IPublication *> ||
-                        std::is_invocable_v<decltype(&T::DoConnect), T *>,
+                        std::is_invocable_v<decltype(&T::DoPublish), T *>,
                     "DoPublish has an invalid signature. Expecting 'void "
                     "DoPublish(Smp::IPublication*)' or 'void DoPublish()'.");
     }
-- 
2.43.0


From 082f57636bf94f0aa2e5d98a63fa3d3fa34c5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 04/57] fix: accept repeated Hold(false) and drop the request
 once held

---
 src/Xsmp/Simulator.cpp | 18 +++++++++++-------
 src/Xsmp/Simulator.h   |  2 ++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 550c0aa..cedbf9c 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -65,12 +65,7 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
       // Hold Immediately Entry Point
       _holdImmediately{
           "HoldImmediately", "", this,
-          [this] {
-            this->_eventManager->Unsubscribe(
-                ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-                &_holdImmediately);
-            this->Hold(true);
-          }},
+          [this] { this->Hold(true); }},
       // initialize the Type Registry
       _typeRegistry{this} {}
 
@@ -346,14 +341,23 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
+    // a hold requested for the end of the current time is now satisfied
+    if (_holdPending) {
+      _holdPending = false;
+      _eventManager->Unsubscribe(
+          ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
+          &_holdImmediately);
+    }
+
     _state = ::Smp::SimulatorStateKind::SSK_Standby;
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
-    if (_eventManager) {
+    if (_eventManager && !_holdPending) {
       _eventManager->Subscribe(
           ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
           &_holdImmediately);
+      _holdPending = true;
     }
   }
 }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 689db34..50e6d50 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -392,6 +392,8 @@ private:
   FactoryCollection _factories;
 
   ::Xsmp::EntryPoint _holdImmediately;
+  // whether _holdImmediately is subscribed
+  bool _holdPending = false;
 
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
-- 
2.43.0


From 73f51874ffe2c861a86fc47110e49492d016909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 05/57] fix: emit LeaveReconnecting at the end of Reconnect

---
 src/Xsmp/Simulator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index cedbf9c..4a29f00 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -516,6 +516,8 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
+
   _state = ::Smp::SimulatorStateKind::SSK_Standby;
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
-- 
2.43.0


From 7b88e787b459fbba61dfab037d9434ceeb0758e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 06/57] fix: visit the components added while a simulation is
 traversed

---
 src/Xsmp/Simulator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 4a29f00..b7af12c 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -39,6 +39,7 @@
 #include <Xsmp/Simulator.h>
 #include <Xsmp/StorageReader.h>
 #include <Xsmp/StorageWriter.h>
+#include <cstddef>
 #include <string>
 #include <type_traits>
 #include <vector>
@@ -88,8 +89,9 @@ void recursive_action(::Smp::IComponent *component, Callable &&func) {
 template <typename Callable>
 void recursive_action(::Smp::IContainer const *container, Callable &&func) {
   if (const auto *components = container->GetComponents()) {
-    for (auto *cmp : *components) {
-      recursive_action(cmp, std::forward<Callable>(func));
+    // components may be added meanwhile
+    for (size_t i = 0; i < components->size(); ++i) {
+      recursive_action(components->at(i), std::forward<Callable>(func));
     }
   }
 }
-- 
2.43.0


From fdb5643b85940a637503bc55639d59a087c83ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 07/57] fix: let no transition in progress take the simulator
 out of Aborting

---
 src/Xsmp/Simulator.cpp | 72 +++++++++++++++++++++++++++---------------
 src/Xsmp/Simulator.h   |  2 ++
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index b7af12c..ef696cd 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -211,7 +211,7 @@ void Simulator::Connect() {
     }
     return;
   }
-  _state = ::Smp::SimulatorStateKind::SSK_Connecting;
+  EnterState(::Smp::SimulatorStateKind::SSK_Connecting);
 
   recursive_action(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
@@ -227,27 +227,48 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveConnectingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  EnterState(::Smp::SimulatorStateKind::SSK_Initialising);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
-    entryPoint->Execute();
-  }
+  ExecuteInitEntryPoints();
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  EnterState(::Smp::SimulatorStateKind::SSK_Standby);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
+void Simulator::EnterState(::Smp::SimulatorStateKind state) {
+  // the simulator does not leave the Aborting state
+  if (_state != ::Smp::SimulatorStateKind::SSK_Aborting) {
+    _state = state;
+  }
+}
+
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
+  // no more transition once aborted
+  if (_state == ::Smp::SimulatorStateKind::SSK_Aborting &&
+      eventId != ::Smp::Services::IEventManager::SMP_EnterAbortingId) {
+    return;
+  }
+  // an event handler may cause another event
+  const auto previous = _lastGlobalEventId;
   _lastGlobalEventId = eventId;
   if (_eventManager) {
     _eventManager->Emit(eventId);
   }
-  _lastGlobalEventId = -1;
+  _lastGlobalEventId = previous;
+}
+
+void Simulator::ExecuteInitEntryPoints() {
+  std::vector<::Smp::IEntryPoint *> entryPoints;
+  entryPoints.swap(_initEntryPoints);
+  for (auto const *entryPoint : entryPoints) {
+    if (_state == ::Smp::SimulatorStateKind::SSK_Aborting) {
+      return;
+    }
+    entryPoint->Execute();
+  }
 }
 
 void Simulator::Initialise() {
@@ -265,17 +286,13 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  EnterState(::Smp::SimulatorStateKind::SSK_Initialising);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
-    entryPoint->Execute();
-  }
+  ExecuteInitEntryPoints();
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  EnterState(::Smp::SimulatorStateKind::SSK_Standby);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 void Simulator::Run() {
@@ -295,7 +312,7 @@ void Simulator::Run() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Executing;
+  EnterState(::Smp::SimulatorStateKind::SSK_Executing);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
 }
@@ -351,7 +368,7 @@ void Simulator::Hold(::Smp::Bool immediate) {
           &_holdImmediately);
     }
 
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
+    EnterState(::Smp::SimulatorStateKind::SSK_Standby);
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
@@ -412,7 +429,7 @@ void Simulator::Store(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Storing;
+  EnterState(::Smp::SimulatorStateKind::SSK_Storing);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
 
@@ -421,7 +438,7 @@ void Simulator::Store(::Smp::String8 filename) {
   ::Xsmp::Store(this, &writer);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  EnterState(::Smp::SimulatorStateKind::SSK_Standby);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
@@ -476,14 +493,14 @@ void Simulator::Restore(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Restoring;
+  EnterState(::Smp::SimulatorStateKind::SSK_Restoring);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
   StorageReader reader{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Restore(this, &reader);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  EnterState(::Smp::SimulatorStateKind::SSK_Standby);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
@@ -502,7 +519,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Reconnecting;
+  EnterState(::Smp::SimulatorStateKind::SSK_Reconnecting);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterReconnectingId);
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
@@ -520,7 +537,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  EnterState(::Smp::SimulatorStateKind::SSK_Standby);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
@@ -539,7 +556,7 @@ void Simulator::Exit() {
   }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Exiting;
+  EnterState(::Smp::SimulatorStateKind::SSK_Exiting);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExitingId);
 
   // Disconnect all components properly
@@ -552,8 +569,11 @@ void Simulator::Exit() {
 
 void Simulator::Abort() {
 
+  if (_state == ::Smp::SimulatorStateKind::SSK_Aborting) {
+    return;
+  }
+  EnterState(::Smp::SimulatorStateKind::SSK_Aborting);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Aborting;
 }
 
 ::Smp::SimulatorStateKind Simulator::GetState() const { return _state; }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 50e6d50..05840f8 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -370,7 +370,9 @@ public:
   void Run(::Smp::Duration duration);
 
 private:
+  void EnterState(::Smp::SimulatorStateKind state);
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
+  void ExecuteInitEntryPoints();
 
   [[nodiscard]] ::Xsmp::Publication::Publication *
   CreatePublication(::Smp::IComponent *component);
-- 
2.43.0


From d8dba750a4304e198f9c2ab793fa0fe32eeb0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 08/57] fix: execute an entry point safely without a logger

---
 src/Xsmp/Helper.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index dc323b5..f99704d 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -56,37 +56,38 @@ void SafeExecute(::Smp::ISimulator *simulator,
                  const ::Smp::IEntryPoint *entryPoint) {
 
   if (simulator) {
+    auto log = [simulator](const ::Smp::IObject *sender, ::Smp::String8 message,
+                           ::Smp::Services::LogMessageKind kind) {
+      if (auto *logger = simulator->GetLogger()) {
+        logger->Log(sender, message, kind);
+      }
+    };
     try {
-      simulator->GetLogger()->Log(entryPoint, "Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
+      log(entryPoint, "Execute()", ::Smp::Services::ILogger::LMK_Debug);
 
       entryPoint->Execute();
 
-      simulator->GetLogger()->Log(entryPoint, "return from Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
+      log(entryPoint, "return from Execute()",
+          ::Smp::Services::ILogger::LMK_Debug);
     }
     // SMP Exception
     catch (const ::Smp::Exception &e) {
       auto msg =
           std::string("Exception ") + e.GetName() + " thrown during execution.";
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
-      simulator->GetLogger()->Log(e.GetSender(), e.what(),
-                                  ::Smp::Services::ILogger::LMK_Error);
+      log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
+      log(e.GetSender(), e.what(), ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
     // standard c++ exception
     catch (const std::exception &e) {
 
       auto msg = std::string("Exception thrown during execution: ") + e.what();
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
+      log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
     // other exceptions
     catch (...) {
-      simulator->GetLogger()->Log(
-          entryPoint, "Unexpected exception thrown during execution.",
+      log(entryPoint, "Unexpected exception thrown during execution.",
           ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
-- 
2.43.0


From 771296e94395565d49179e25ff2fdc9b431f001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 09/57] fix: let the event manager work once it is disconnected

---
 src/Xsmp/Services/XsmpEventManager.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index e6f8c1d..e5c13ab 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -37,6 +37,12 @@
 namespace Xsmp::Services {
 
 using namespace ::Smp::Services;
+namespace {
+/// @return the logger, if any: a disconnected component has no simulator
+ILogger *GetLogger(const ::Smp::ISimulator *simulator) {
+  return simulator ? simulator->GetLogger() : nullptr;
+}
+} // namespace
 XsmpEventManager::XsmpEventManager(::Smp::String8 name,
                                    ::Smp::String8 description,
                                    ::Smp::IComposite *parent,
@@ -143,7 +149,7 @@ void XsmpEventManager::Subscribe(::Smp::Services::EventId event,
           event, std::vector<const ::Smp::IEntryPoint *>{entryPoint});
     }
   }
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  if (auto *logger = GetLogger(GetSimulator())) {
     logger->Log(this,
                 (::Xsmp::Helper::GetPath(entryPoint) + " subscribed to " +
                  event_name + ".")
@@ -165,7 +171,7 @@ void XsmpEventManager::Unsubscribe(::Smp::Services::EventId event,
     auto it2 = std::find(entryPoints.begin(), entryPoints.end(), entryPoint);
     if (it2 != entryPoints.end()) {
       entryPoints.erase(it2);
-      if (auto *logger = GetSimulator()->GetLogger()) {
+      if (auto *logger = GetLogger(GetSimulator())) {
         logger->Log(this,
                     (::Xsmp::Helper::GetPath(entryPoint) + " unsubscribed to " +
                      event_name + ".")
@@ -183,7 +189,7 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
                             ::Smp::Bool /*synchronous*/) {
 
   const auto &event_name = GetEventName(event);
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  if (auto *logger = GetLogger(GetSimulator())) {
     logger->Log(this, event_name.c_str(), ::Smp::Services::ILogger::LMK_Event);
   }
   auto subscriptionAccess = _subscriptions.read();
-- 
2.43.0


From 93c4f4653e37528b9f6a94f03bd5744487ce4d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 10/57] fix: let a component be added under a component that is
 already published

---
 src/Xsmp/Container.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Container.cpp b/src/Xsmp/Container.cpp
index 51c9a11..0a59e00 100644
--- a/src/Xsmp/Container.cpp
+++ b/src/Xsmp/Container.cpp
@@ -107,7 +107,8 @@ inline void CheckComposite(::Smp::IContainer const *container,
 
 inline void CheckComponent(::Smp::IContainer const *container,
                            ::Smp::IComponent const *cmp, ::Smp::String8 name) {
-  if (cmp->GetField(name)) {
+  // GetField() throws when there is no such field
+  if (auto const *fields = cmp->GetFields(); fields && fields->at(name)) {
     ::Xsmp::Exception::throwDuplicateName(container, name,
                                           container->GetComponents());
   }
-- 
2.43.0


From 5018ff385dbed022403a38b06f0b9b206e222188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 11/57] fix: do not deadlock when a zulu event is due during
 another event

---
 src/Xsmp/Services/XsmpScheduler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0bf6670..c993e09 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -392,6 +392,9 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
 void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
+  // _execMutex is locked first: it is held while _eventsMutex is locked again
+  // after the execution
+  const std::scoped_lock lck2(_execMutex);
   std::unique_lock lck{_eventsMutex};
 
   auto &event = _events.at(eventId);
@@ -410,7 +413,6 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   }
 
   if (!skip) {
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
@@ -438,6 +440,7 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
 void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 
+  const std::scoped_lock lck2(_execMutex);
   std::unique_lock lck(_eventsMutex);
 
   auto &event = _events.at(eventId);
@@ -447,7 +450,6 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       state == ::Smp::SimulatorStateKind::SSK_Executing ||
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
 
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
-- 
2.43.0


From 8b848980c6da483ca918df1b7474a44969e5e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 12/57] fix: refuse a null cycle time for an event repeated
 forever

---
 src/Xsmp/Services/XsmpScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index c993e09..6fa6aa0 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -321,7 +321,7 @@ void XsmpScheduler::SetEventCycleTime(::Smp::Services::EventId event,
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (it->second.repeat > 0 && cycleTime <= 0) {
+  if (it->second.repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
   it->second.cycleTime = cycleTime;
-- 
2.43.0


From 80abe45d478c01c22bb6f015e6f9ddcd6c3e4047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 13/57] fix: stop executing scheduled events when the simulator
 left Executing

---
 src/Xsmp/Services/XsmpScheduler.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 6fa6aa0..2b2fe3d 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -91,6 +91,9 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
       ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &LeaveExecuting);
+  // no more event is executed once the simulator aborts
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterAbortingId, &LeaveExecuting);
 
   _zuluThread = std::thread(&XsmpScheduler::InternalZuluRun, this);
 }
@@ -598,6 +601,13 @@ void XsmpScheduler::_EnterExecuting() {
 
   _simulationStatus = Status::Running;
 
+  // another handler of the event may have held or aborted the simulation
+  if (GetSimulator()->GetState() !=
+      ::Smp::SimulatorStateKind::SSK_Executing) {
+    _simulationStatus = Status::Hold;
+    return;
+  }
+
   _load.clear();
   _speed.clear();
 
-- 
2.43.0


From bbcbcfa9571bba8a2427880a29d83549216b7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 14/57] fix: do not leave the hold event of Run(duration)
 scheduled once it returns

---
 src/Xsmp/Simulator.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index ef696cd..004560a 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -333,13 +333,22 @@ void Simulator::Run(::Smp::Duration duration) {
     return;
   }
 
+  bool held = false;
   ::Xsmp::EntryPoint hold{"hold",
                           "call simulator hold after the specified duration",
-                          this, [this] { this->Hold(false); }};
+                          this, [this, &held] {
+                            held = true;
+                            this->Hold(false);
+                          }};
+  ::Smp::Services::EventId holdId = -1;
   if (_scheduler) {
-    _scheduler->AddSimulationTimeEvent(&hold, duration);
+    holdId = _scheduler->AddSimulationTimeEvent(&hold, duration);
   }
   Run();
+  // held before the end of the duration: the entry point does not outlive it
+  if (_scheduler && !held) {
+    _scheduler->RemoveEvent(holdId);
+  }
 }
 
 void Simulator::Hold(::Smp::Bool immediate) {
-- 
2.43.0


From 32b0304bd90e6e8c2597f4dd178b9e2525e627c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 15/57] fix: let a scheduled event change or remove any event,
 itself included

---
 src/Xsmp/Services/XsmpScheduler.cpp | 231 +++++++++++++++-------------
 src/Xsmp/Services/XsmpScheduler.h   |  16 +-
 2 files changed, 138 insertions(+), 109 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 2b2fe3d..2f21cd0 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -245,17 +245,11 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-  events.erase(eventId);
-
-  if (events.empty()) {
-    _events_table.erase(it->second.nextScheduleSimulationTime);
-  }
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
-    _events.erase(it);
+    Remove(it);
     return;
   }
+  Unpost(eventId, it->second);
 
   it->second.nextScheduleSimulationTime = simulationTime;
   it->second.time = time;
@@ -293,24 +287,23 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
                                      ::Smp::DateTime zuluTime) {
   {
     auto currentZulu = GetSimulator()->GetTimeKeeper()->GetZuluTime();
-    const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
+    const std::scoped_lock lck{_eventsMutex};
     auto it = _events.find(event);
 
     if (it == _events.end() ||
         it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
     if (zuluTime < currentZulu) {
-      _events.erase(it);
+      Remove(it);
       // TODO log warning
       return;
     }
+    Unpost(event, it->second);
 
     it->second.nextScheduleSimulationTime = zuluTime;
+    it->second.time = zuluTime;
+    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
     _zulu_events_table.try_emplace(zuluTime).first->second.emplace(event);
   }
   _zuluCv.notify_one();
@@ -352,32 +345,37 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (_currentEventId == event) {
-    it->second.repeat = 0;
-    return;
-  }
+  Remove(it);
+}
 
-  if (it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
+bool XsmpScheduler::Unpost(::Smp::Services::EventId eventId,
+                           const Event &event) {
+  auto unpost = [eventId, &event](auto &table) {
+    auto it = table.find(event.nextScheduleSimulationTime);
+    if (it == table.end() || !it->second.erase(eventId)) {
+      return false;
+    }
+    if (it->second.empty()) {
+      table.erase(it);
+    }
+    return true;
+  };
+  if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+    return unpost(_zulu_events_table);
+  }
+  return _immediate_events.erase(eventId) || unpost(_events_table);
+}
 
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+void XsmpScheduler::Remove(
+    std::map<::Smp::Services::EventId, Event>::iterator it) {
+  Unpost(it->first, it->second);
+  if (_currentEventId == it->first) {
+    // removed at the end of its execution
+    it->second.repeat = 0;
   } else {
-
-    auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    _events.erase(it);
   }
-  _events.erase(it);
 }
 
 ::Smp::Services::EventId XsmpScheduler::GetCurrentEventId() const {
@@ -400,7 +398,11 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   const std::scoped_lock lck2(_execMutex);
   std::unique_lock lck{_eventsMutex};
 
-  auto &event = _events.at(eventId);
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    return; // removed meanwhile
+  }
+  auto &event = it->second;
 
   // skip event if epoch/mission time has changed and event is in the past
   bool skip = false;
@@ -423,17 +425,21 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
     _currentEventId = -1;
   }
 
-  if (event.repeat == 0) {
+  // the event may have changed its own time
+  const bool posted = Unpost(eventId, event);
+  if (event.repeat == 0 && !posted) {
     // remove the event
-    _events.erase(_events.find(eventId));
+    _events.erase(it);
   } else {
     // decrement the repeat
     if (event.repeat > 0) {
       event.repeat--;
     }
     // compute the next time the event will be executed
-    event.nextScheduleSimulationTime += event.cycleTime;
-    event.time += event.cycleTime;
+    if (!posted) {
+      event.nextScheduleSimulationTime += event.cycleTime;
+      event.time += event.cycleTime;
+    }
 
     // post the event in the table
     _events_table.try_emplace(event.nextScheduleSimulationTime)
@@ -446,7 +452,11 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
   const std::scoped_lock lck2(_execMutex);
   std::unique_lock lck(_eventsMutex);
 
-  auto &event = _events.at(eventId);
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    return; // removed meanwhile
+  }
+  auto &event = it->second;
 
   // execute the event only in executing and standby states
   if (auto state = GetSimulator()->GetState();
@@ -460,16 +470,21 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
     _currentEventId = -1;
   }
 
-  if (event.repeat == 0) {
+  // the event may have changed its own time
+  const bool posted = Unpost(eventId, event);
+  if (event.repeat == 0 && !posted) {
     // remove the event
-    _events.erase(_events.find(eventId));
+    _events.erase(it);
   } else {
     // decrement the repeat
     if (event.repeat > 0) {
       event.repeat--;
     }
     // compute the next time the event will be executed
-    event.nextScheduleSimulationTime += event.cycleTime;
+    if (!posted) {
+      event.nextScheduleSimulationTime += event.cycleTime;
+      event.time += event.cycleTime;
+    }
     // post the event in the table
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
     _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
@@ -477,43 +492,44 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
   }
 }
 
-bool XsmpScheduler::ExecuteEvents(EventList &events) {
+bool XsmpScheduler::ExecuteEvents(::Smp::Duration time) {
 
-  // execute all events
-  while (!events.empty()) {
-    // swap the current list of events
-    EventList current;
-    current.swap(events);
-    for (auto it = current.begin(); it != current.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-        // store un-executed events and exit
-        events.insert(++it, current.end());
-        return false;
-      }
+  // an event may add, change or remove any event: pick them one by one
+  while (true) {
+    std::unique_lock lck{_eventsMutex};
+    auto it = _events_table.find(time);
+    if (it == _events_table.end()) {
+      return true;
+    }
+    const auto eventId = *it->second.begin();
+    it->second.erase(it->second.begin());
+    if (it->second.empty()) {
+      _events_table.erase(it);
+    }
+    lck.unlock();
+
+    Execute(eventId);
+    // process immediate events posted by this event
+    if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
+      return false;
     }
   }
-  return true;
 }
 bool XsmpScheduler::ExecuteImmediateEvents() {
-  // execute all events
-  while (!_immediate_events.empty()) {
-    // swap  the current list of events
-    EventList events;
-    events.swap(_immediate_events);
-
-    for (auto it = events.begin(); it != events.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold) {
-        // store un-executed events and exit
-        _immediate_events.insert(++it, events.end());
-        return false;
-      }
+  while (true) {
+    std::unique_lock lck{_eventsMutex};
+    if (_immediate_events.empty()) {
+      return true;
+    }
+    const auto eventId = *_immediate_events.begin();
+    _immediate_events.erase(_immediate_events.begin());
+    lck.unlock();
+
+    Execute(eventId);
+    if (_simulationStatus == Status::Hold) {
+      return false;
     }
   }
-  return true;
 }
 
 void XsmpScheduler::InternalZuluRun() {
@@ -523,31 +539,24 @@ void XsmpScheduler::InternalZuluRun() {
   while (!_terminate) {
 
     // execute all events with time <= current zulu time
-    for (auto it = _zulu_events_table.begin();
-         it != _zulu_events_table.end() &&
-         it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();) {
-
-      // execute all events
-      while (!it->second.empty()) {
-        // swap the event list
-        EventList events;
-        events.swap(it->second);
-
-        // if _zulu_events_table is modified while executing the events,
-        // the implementation guarantee that "it" remains valid and only element
-        // after "it" could be appended
-        for (auto eventId : events) {
-          lck.unlock();
-          ExecuteZulu(eventId);
-          lck.lock();
-          // stop here if terminate signal received during event execution
-          if (_terminate) {
-            return;
-          }
-        }
+    while (!_zulu_events_table.empty() &&
+           _zulu_events_table.begin()->first <=
+               GetSimulator()->GetTimeKeeper()->GetZuluTime()) {
+
+      // an event may add, change or remove any event: pick them one by one
+      auto it = _zulu_events_table.begin();
+      const auto eventId = *it->second.begin();
+      it->second.erase(it->second.begin());
+      if (it->second.empty()) {
+        _zulu_events_table.erase(it);
+      }
+      lck.unlock();
+      ExecuteZulu(eventId);
+      lck.lock();
+      // stop here if terminate signal received during event execution
+      if (_terminate) {
+        return;
       }
-      _zulu_events_table.erase(it);
-      it = _zulu_events_table.begin();
     }
 
     // wait until next event
@@ -619,11 +628,18 @@ void XsmpScheduler::_EnterExecuting() {
   }
   auto *eventManager = GetSimulator()->GetEventManager();
 
-  std::unique_lock lck(_eventsMutex);
+  // time of the first event, if any
+  ::Smp::Duration time = 0;
+  auto next = [this, &time] {
+    const std::scoped_lock lck{_eventsMutex};
+    if (_events_table.empty()) {
+      return false;
+    }
+    time = _events_table.begin()->first;
+    return true;
+  };
   // execute all events
-  for (auto it = _events_table.begin(); it != _events_table.end();
-       it = _events_table.erase(it)) {
-    lck.unlock();
+  while (next()) {
 
     // notify that simulation time will be changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
@@ -632,7 +648,11 @@ void XsmpScheduler::_EnterExecuting() {
     if (_simulationStatus == Status::Hold) {
       return; // exit immediately if hold is requested
     }
-    auto duration = it->first - timeKeeper->GetSimulationTime();
+    // events may have been added or removed
+    if (!next()) {
+      break;
+    }
+    auto duration = time - timeKeeper->GetSimulationTime();
     delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
                                           _targetSpeed) -
              (timeKeeper->GetZuluTime() - startZuluTime);
@@ -659,17 +679,16 @@ void XsmpScheduler::_EnterExecuting() {
     }
 
     // change the simulation time
-    timeKeeper->SetSimulationTime(it->first);
+    timeKeeper->SetSimulationTime(time);
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
 
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(it->second)) {
+    if (!ExecuteImmediateEvents() || !ExecuteEvents(time)) {
       return; // exit immediately in case of hold
     }
-    lck.lock();
   }
 
   _load.clear();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 45db1f6..e55803d 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -460,11 +460,21 @@ private:
   /// @param eventId the event id to execute
   void ExecuteZulu(::Smp::Services::EventId eventId);
 
-  /// Execute a list of events
-  /// @param events the vector of events to execute
+  /// Take an event out of the tables in which it waits for its execution
+  /// @param eventId the event id
+  /// @param event the event
+  /// @return true if the event was waiting for its execution
+  bool Unpost(::Smp::Services::EventId eventId, const Event &event);
+
+  /// Remove an event
+  /// @param it the event, executed currently or not
+  void Remove(std::map<::Smp::Services::EventId, Event>::iterator it);
+
+  /// Execute all events posted at a given time
+  /// @param time the simulation time of the events
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-  bool ExecuteEvents(EventList &events);
+  bool ExecuteEvents(::Smp::Duration time);
 
   /// Execute all immediate events
   /// @return true if all events have been executed, false if hold immediate is
-- 
2.43.0


From 64aa1bff5e02b3a6c0ffb4c4b361dd93a6a5cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 16/57] fix: execute in time a zulu event added before the next
 one

---
 src/Xsmp/Services/XsmpScheduler.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 2f21cd0..402dc5c 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -567,18 +567,13 @@ void XsmpScheduler::InternalZuluRun() {
       _zuluCv.wait(
           lck, [this]() { return _terminate || !_zulu_events_table.empty(); });
     } else {
+      // woken up by each new event, which may be the first one
       _zuluCv.wait_for(
           lck,
           std::chrono::nanoseconds{
               std::max(static_cast<::Smp::Duration>(0),
                        _zulu_events_table.begin()->first -
-                           GetSimulator()->GetTimeKeeper()->GetZuluTime())},
-          [this] {
-            return _terminate ||
-                   (!_zulu_events_table.empty() &&
-                    _zulu_events_table.begin()->first <=
-                        GetSimulator()->GetTimeKeeper()->GetZuluTime());
-          });
+                           GetSimulator()->GetTimeKeeper()->GetZuluTime())});
     }
   }
 }
-- 
2.43.0


From dec68823f5d0d7a88947d582fb350ab0f1315223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 17/57] fix: do not skip to the end of time when the next event
 is far away

---
 src/Xsmp/Services/XsmpScheduler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 402dc5c..52ee26c 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -66,6 +66,8 @@ template <> struct Helper<::Xsmp::Services::XsmpScheduler::Event> {
 namespace Xsmp::Services {
 static constexpr ::Smp::Duration MaxDuration =
     std::numeric_limits<::Smp::Duration>::max();
+// a longer delay would overflow when added to the current time
+static constexpr ::Smp::Duration MaxDelay = MaxDuration / 32;
 
 XsmpScheduler::XsmpScheduler(::Smp::String8 name, ::Smp::String8 description,
                              ::Smp::IComposite *parent,
@@ -648,8 +650,9 @@ void XsmpScheduler::_EnterExecuting() {
       break;
     }
     auto duration = time - timeKeeper->GetSimulationTime();
-    delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
-                                          _targetSpeed) -
+    delay += static_cast<::Smp::Duration>(
+                 std::min(static_cast<double>(duration) / _targetSpeed,
+                          static_cast<double>(MaxDelay))) -
              (timeKeeper->GetZuluTime() - startZuluTime);
 
     auto endZuluTime = timeKeeper->GetZuluTime();
-- 
2.43.0


From 1c33c84a408ac3643b0fb5bd3e455a1ebc7d876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 18/57] fix: execute no event once a PostSimTimeChange handler
 held the simulation

---
 src/Xsmp/Services/XsmpScheduler.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 52ee26c..8c1badd 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -497,7 +497,8 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 bool XsmpScheduler::ExecuteEvents(::Smp::Duration time) {
 
   // an event may add, change or remove any event: pick them one by one
-  while (true) {
+  // process immediate events posted by each event
+  while (ExecuteImmediateEvents()) {
     std::unique_lock lck{_eventsMutex};
     auto it = _events_table.find(time);
     if (it == _events_table.end()) {
@@ -511,14 +512,11 @@ bool XsmpScheduler::ExecuteEvents(::Smp::Duration time) {
     lck.unlock();
 
     Execute(eventId);
-    // process immediate events posted by this event
-    if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-      return false;
-    }
   }
+  return false;
 }
 bool XsmpScheduler::ExecuteImmediateEvents() {
-  while (true) {
+  while (_simulationStatus != Status::Hold) {
     std::unique_lock lck{_eventsMutex};
     if (_immediate_events.empty()) {
       return true;
@@ -528,10 +526,8 @@ bool XsmpScheduler::ExecuteImmediateEvents() {
     lck.unlock();
 
     Execute(eventId);
-    if (_simulationStatus == Status::Hold) {
-      return false;
-    }
   }
+  return false;
 }
 
 void XsmpScheduler::InternalZuluRun() {
@@ -684,7 +680,7 @@ void XsmpScheduler::_EnterExecuting() {
 
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(time)) {
+    if (!ExecuteEvents(time)) {
       return; // exit immediately in case of hold
     }
   }
-- 
2.43.0


From ca8a85ec75785fdc5fa4d518299c8bc52293bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 19/57] fix: do not accept a new simulation time once held

---
 src/Xsmp/Services/XsmpTimeKeeper.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Xsmp/Services/XsmpTimeKeeper.cpp b/src/Xsmp/Services/XsmpTimeKeeper.cpp
index 2694531..01188f8 100644
--- a/src/Xsmp/Services/XsmpTimeKeeper.cpp
+++ b/src/Xsmp/Services/XsmpTimeKeeper.cpp
@@ -36,6 +36,13 @@ void XsmpTimeKeeper::DoConnect(const ::Smp::ISimulator *simulator) const {
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_PostSimTimeChangeId,
       &PostSimTimeChange);
+
+  // there is no PostSimTimeChange event when the simulation is held or aborted
+  // by a PreSimTimeChange handler
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &PostSimTimeChange);
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterAbortingId, &PostSimTimeChange);
 }
 ::Smp::Duration XsmpTimeKeeper::GetSimulationTime() const {
   return _simulationTime.read().get();
-- 
2.43.0


From 463489e57a6d835e7850ccdd0bd1017f981af2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 20/57] fix: start the cycle of an immediate event when it is
 executed

---
 src/Xsmp/Services/XsmpScheduler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 8c1badd..a7e45a1 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -523,6 +523,12 @@ bool XsmpScheduler::ExecuteImmediateEvents() {
     }
     const auto eventId = *_immediate_events.begin();
     _immediate_events.erase(_immediate_events.begin());
+    // simulation time may have changed since the event was added: the cycle of
+    // a repeated event starts now
+    if (auto it = _events.find(eventId); it != _events.end()) {
+      it->second.nextScheduleSimulationTime = it->second.time =
+          GetSimulator()->GetTimeKeeper()->GetSimulationTime();
+    }
     lck.unlock();
 
     Execute(eventId);
-- 
2.43.0


From 65add0b53383754258c046ff892a6aedf9993226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 21/57] fix: make a new event usable by every thread as soon as
 its identifier is known

---
 src/Xsmp/Services/XsmpEventManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index e5c13ab..f093818 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -113,7 +113,7 @@ XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
 
   const auto &name =
       eventsAccess.get().try_emplace(eventName, eventId).first->first;
-  eventsAccess.unlock();
+  // another thread may use the identifier as soon as _events is unlocked
   _ids.write().get().try_emplace(eventId, name);
   return eventId;
 }
@@ -208,9 +208,10 @@ void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
   ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events.write().get(),
                            _subscriptions.write().get());
   // rebuild _ids map from _events
+  auto eventsAccess = _events.read();
   auto idsAccess = _ids.write();
   idsAccess.get().clear();
-  for (const auto &[name, id] : _events.read().get()) {
+  for (const auto &[name, id] : eventsAccess.get()) {
     idsAccess.get().try_emplace(id, name);
   }
 }
-- 
2.43.0


From 6dfedd26ba89e9147fbef000857401c4f42daf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 22/57] fix: count the links of sources with equal names

---
 src/Xsmp/Services/XsmpLinkRegistry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.h b/src/Xsmp/Services/XsmpLinkRegistry.h
index 0650728..57a93b8 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.h
+++ b/src/Xsmp/Services/XsmpLinkRegistry.h
@@ -129,7 +129,7 @@ private:
       _links;
 
   mutable Xsmp::ThreadSafeData<std::map<const ::Smp::IComponent *,
-                                        ::Xsmp::Collection<::Smp::IComponent>>>
+                                        ::Xsmp::Collection<::Smp::IComponent, true>>>
       _targets;
 };
 } // namespace Xsmp::Services
-- 
2.43.0


From cd9fc75446a4c16ed4fe2939dbc9fe592f3109a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 23/57] fix: ask every source to remove its links, also when
 they change the registry

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index f808d0d..08098aa 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/Services/XsmpLinkRegistry.h>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 namespace Xsmp::Services {
 
@@ -106,17 +107,22 @@ XsmpLinkRegistry::GetLinkSources(const ::Smp::IComponent *target) const {
 }
 
 void XsmpLinkRegistry::RemoveLinks(const ::Smp::IComponent *target) {
-  auto targetAccess = _targets.read();
-  if (auto it = targetAccess.get().find(target);
-      it != targetAccess.get().end()) {
-    for (auto *source : it->second) {
-      if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
-        targetAccess.unlock();
-        cmp->RemoveLinks(target);
-        targetAccess.lock();
+  // copy the sources: they may change the registry when they are called
+  std::vector<::Smp::ILinkingComponent *> sources;
+  {
+    auto targetAccess = _targets.read();
+    if (auto it = targetAccess.get().find(target);
+        it != targetAccess.get().end()) {
+      for (auto *source : it->second) {
+        if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
+          sources.push_back(cmp);
+        }
       }
     }
   }
+  for (auto *source : sources) {
+    source->RemoveLinks(target);
+  }
 }
 
 } // namespace Xsmp::Services
-- 
2.43.0


From 464513d5949a9240aeed2192fbacf048880c8b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 24/57] fix: throw InvalidObjectType for a null component

---
 src/Xsmp/Helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index f99704d..c24bbfc 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -448,6 +448,9 @@ std::string demangle(::Smp::String8 name) {
 #endif
 }
 std::string TypeName(const ::Smp::IObject *object) {
+  if (!object) {
+    return "<null>";
+  }
   return demangle(typeid(*object).name());
 }
 
-- 
2.43.0


From b703052fd83c66a63964a0ea0ff50da2a107b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 25/57] fix: delete a component whose Disconnect changes its
 container

---
 include/Xsmp/Container.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Container.h b/include/Xsmp/Container.h
index 320827a..20f8b5d 100644
--- a/include/Xsmp/Container.h
+++ b/include/Xsmp/Container.h
@@ -292,9 +292,10 @@ public:
   /// @throws  Smp::CannotDelete
   /// @throws  Smp::NotContained
   void DeleteComponent(::Smp::IComponent *component) override {
-    if (auto it = find(dynamic_cast<T *>(component)); it != end()) {
+    if (auto *casted = dynamic_cast<T *>(component); find(casted) != end()) {
       AbstractContainer::DeleteComponent(component);
-      _vector.erase(it);
+      // the container may have changed when the component was disconnected
+      _vector.erase(find(casted));
     } else {
       ::Xsmp::Exception::throwNotContained(this, component);
     }
-- 
2.43.0


From 5d8ec10f78fe24f66d245c4a091e690f15b63ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 26/57] fix: resolve the members of a field reached through its
 parent or as a failure

---
 src/Xsmp/Helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index c24bbfc..e74ec77 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -221,9 +221,6 @@ inline ::Smp::IObject *Resolve(::Smp::IObject *object, ::Smp::String8 name,
     }
   }
 
-  if (auto *field = dynamic_cast<::Smp::IField *>(object)) {
-    return ::Xsmp::Helper::Resolve(field, path);
-  }
   return nullptr;
 }
 
@@ -384,6 +381,9 @@ std::string GetPath(const ::Smp::IObject *obj) {
   if (path[0] == '\0' || !parent) {
     return parent;
   }
+  if (auto *field = dynamic_cast<::Smp::IField *>(parent)) {
+    return Resolve(field, path);
+  }
   ::Smp::Char8 separator = '\0';
   auto segment = GetNextSegment(&path, &separator);
 
-- 
2.43.0


From 5b2db46e782bee793964a3a1f28fc252ec7207bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 27/57] fix: let an array published item by item be the parent
 of its items

---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 5a42353..33fc579 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -205,7 +205,7 @@ AnonymousArrayField::AnonymousArrayField(
     ::Smp::Publication::ITypeRegistry *typeRegistry, ::Smp::ViewKind view,
     ::Smp::Bool state)
     : Field(name, description, parent, view, state),
-      ::Xsmp::Publication::Publication(parent, typeRegistry) {}
+      ::Xsmp::Publication::Publication(this, typeRegistry) {}
 
 void AnonymousArrayField::Restore(::Smp::IStorageReader *reader) {
   if (IsState()) {
-- 
2.43.0


From 4cb70361730b6b977b93d462c885d5b040db1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 28/57] Revert "fix: let an array published item by item be the
 parent of its items"

This reverts commit 5b2db46e782bee793964a3a1f28fc252ec7207bf.
---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 33fc579..5a42353 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -205,7 +205,7 @@ AnonymousArrayField::AnonymousArrayField(
     ::Smp::Publication::ITypeRegistry *typeRegistry, ::Smp::ViewKind view,
     ::Smp::Bool state)
     : Field(name, description, parent, view, state),
-      ::Xsmp::Publication::Publication(this, typeRegistry) {}
+      ::Xsmp::Publication::Publication(parent, typeRegistry) {}
 
 void AnonymousArrayField::Restore(::Smp::IStorageReader *reader) {
   if (IsState()) {
-- 
2.43.0


From 6e424b5447e0066b133f581afb55198801bae4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 29/57] fix: store and restore the components of a simulation

Simulator::Store and Restore stopped at the containers: no service and no
model was ever stored.
---
 src/Xsmp/Simulator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 004560a..4accfa6 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -420,6 +420,11 @@ void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
       }
     }
   }
+  if (auto const *container = dynamic_cast<::Smp::IContainer *>(obj)) {
+    for (auto *component : *container->GetComponents()) {
+      Store(component, writer);
+    }
+  }
 }
 } // namespace
 static constexpr ::Smp::String8 PERSIST_FILENAME = "simulator.bin";
@@ -485,6 +490,11 @@ void Restore(::Smp::IObject *obj, ::Smp::IStorageReader *reader) {
       }
     }
   }
+  if (auto const *container = dynamic_cast<::Smp::IContainer *>(obj)) {
+    for (auto *component : *container->GetComponents()) {
+      Restore(component, reader);
+    }
+  }
 }
 } // namespace
 void Simulator::Restore(::Smp::String8 filename) {
-- 
2.43.0


From 9e8091e73ac9b168991f716104e828a25ee9e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 30/57] fix: restore the zulu time events of the scheduler

They were restored without being posted again, and those posted before the
restoration were still executed.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index a7e45a1..4e7955b 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -583,9 +583,20 @@ void XsmpScheduler::InternalZuluRun() {
 }
 
 void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
-  const std::scoped_lock lck{_eventsMutex};
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events, _events_table,
-                           _immediate_events, _lastEventId);
+  {
+    const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
+    ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events,
+                             _events_table, _immediate_events, _lastEventId);
+    // rebuild the zulu event table from _events
+    _zulu_events_table.clear();
+    for (const auto &[id, event] : _events) {
+      if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
+        _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
+            .first->second.emplace(id);
+      }
+    }
+  }
+  _zuluCv.notify_one();
 }
 
 void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From c701928ef17f96b091fd805898db69f79cc01e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 31/57] fix: store all the bytes of a string of wide characters

---
 include/Xsmp/Persist/StdString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/StdString.h b/include/Xsmp/Persist/StdString.h
index b1b798d..8003a32 100644
--- a/include/Xsmp/Persist/StdString.h
+++ b/include/Xsmp/Persist/StdString.h
@@ -31,7 +31,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Store(simulator, writer, size);
     if (size) {
       type v = value;
-      writer->Store(v.data(), size);
+      writer->Store(v.data(), size * sizeof(CharT));
     }
   }
 
@@ -41,7 +41,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Restore(simulator, reader, size);
     value.resize(size);
     if (size)
-      reader->Restore(value.data(), size);
+      reader->Restore(value.data(), size * sizeof(CharT));
   }
 };
 
-- 
2.43.0


From f55d62731d55fe344c1977eeaa774c078dd8edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 32/57] fix: throw CannotStore when the directory of a storage
 file cannot be created

---
 src/Xsmp/StorageWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index ba55a33..fb58835 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -17,6 +17,7 @@
 #include <Xsmp/StorageWriter.h>
 #include <fstream>
 #include <iostream>
+#include <system_error>
 
 #if !defined(__clang__) && defined(__GNUC__) && __GNUC__ <= 7
 #include <experimental/filesystem>
@@ -31,9 +32,9 @@ namespace Xsmp {
 namespace {
 std::ofstream createOutputStream(::Smp::String8 path, ::Smp::String8 filename,
                                  const ::Smp::IObject *object) {
-  if (!fs::is_directory(path ? path : "")) {
-    fs::create_directories(path ? path : "");
-  }
+  // in case of error, the file cannot be opened
+  std::error_code error;
+  fs::create_directories(path ? path : "", error);
   auto fullPath = fs::path(path ? path : "") / (filename ? filename : "");
   std::ofstream outputStream{fullPath, std::ios::binary};
 
-- 
2.43.0


From 5c11dd8427e3191d62b1b742ad47d17991e5a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 33/57] fix: throw CannotRestore for the path of an object that
 does not exist

The pointer was restored as null, which the scheduler and the event manager
dereference later.
---
 include/Xsmp/Persist/SmpIObject.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/SmpIObject.h b/include/Xsmp/Persist/SmpIObject.h
index 71fcf25..6f42f13 100644
--- a/include/Xsmp/Persist/SmpIObject.h
+++ b/include/Xsmp/Persist/SmpIObject.h
@@ -35,8 +35,17 @@ struct Helper<T *, std::enable_if_t<std::is_base_of_v<::Smp::IObject, T>>> {
                       ::Smp::IStorageReader *reader, T *&value) {
     std::string path;
     ::Xsmp::Persist::Restore(simulator, reader, path);
-    value = dynamic_cast<T *>(
-        simulator->GetResolver()->ResolveAbsolute(path.c_str()));
+    value = nullptr;
+    if (path == ::Xsmp::Helper::GetPath(nullptr)) {
+      return;
+    }
+    if (auto *resolver = simulator->GetResolver()) {
+      value = dynamic_cast<T *>(resolver->ResolveAbsolute(path.c_str()));
+    }
+    if (!value) {
+      ::Xsmp::Exception::throwCannotRestore(simulator,
+                                            "Cannot resolve " + path);
+    }
   }
 };
 
-- 
2.43.0


From 3432a38fb1eb1a22d28fa7fe7bd548760d2d8df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 34/57] fix: compare the types of the items of simple arrays to
 connect

---
 src/Xsmp/Helper.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index e74ec77..ce560c7 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -32,6 +32,7 @@
 #include <Smp/ISimulator.h>
 #include <Smp/IStructureField.h>
 #include <Smp/PrimitiveTypes.h>
+#include <Smp/Publication/IArrayType.h>
 #include <Smp/Publication/IType.h>
 #include <Smp/Services/ILogger.h>
 #include <Xsmp/Exception.h>
@@ -247,11 +248,21 @@ inline bool AreEquivalent(const ::Smp::ISimpleField *source,
   return target->GetPrimitiveTypeKind() == source->GetPrimitiveTypeKind();
 }
 
+inline ::Smp::PrimitiveTypeKind
+GetItemKind(const ::Smp::ISimpleArrayField *field) {
+  const auto *type = field->GetType();
+  // the type of the field is either the array type or the type of the items
+  if (const auto *arrayType =
+          dynamic_cast<const ::Smp::Publication::IArrayType *>(type)) {
+    return arrayType->GetItemType()->GetPrimitiveTypeKind();
+  }
+  return type->GetPrimitiveTypeKind();
+}
+
 inline bool AreEquivalent(const ::Smp::ISimpleArrayField *source,
                           const ::Smp::ISimpleArrayField *target) {
   return target->GetSize() == source->GetSize() &&
-         target->GetType()->GetPrimitiveTypeKind() ==
-             source->GetType()->GetPrimitiveTypeKind();
+         GetItemKind(target) == GetItemKind(source);
 }
 inline bool AreEquivalent(const ::Smp::IArrayField *source,
                           const ::Smp::IArrayField *target) {
-- 
2.43.0


From 5c0531dc5d96c91552f7a20f549804301065bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 35/57] fix: push the items of an output array however they are
 set

---
 include/Xsmp/Field.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index accd020..1468469 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -779,6 +779,7 @@ public:
       ::Xsmp::Exception::throwInvalidFieldValue(this, value);
     }
     _value[index] = ::Xsmp::AnySimpleConverter<value_type>::convert(value);
+    PushItem(index);
   }
 
   void GetValues(::Smp::UInt64 length,
@@ -803,6 +804,7 @@ public:
         ::Xsmp::Exception::throwInvalidArrayValue(this, i, values[i]);
       }
       _value[i] = ::Xsmp::AnySimpleConverter<value_type>::convert(values[i]);
+      PushItem(i);
     }
   }
 
@@ -988,8 +990,14 @@ public:
   operator const T &() const noexcept { return _value; }
   operator T &() noexcept { return _value; }
 
-  void fill(const value_type &_u) { _value.fill(_u); }
-  void swap(T &_other) noexcept { _value.swap(_other); }
+  void fill(const value_type &_u) {
+    _value.fill(_u);
+    PushItems();
+  }
+  void swap(T &_other) noexcept {
+    _value.swap(_other);
+    PushItems();
+  }
 
   // Iterators.
   [[nodiscard]] iterator begin() noexcept {
@@ -1121,6 +1129,18 @@ public:
   [[nodiscard]] const_pointer data() const noexcept { return _value.data(); }
 
 private:
+  // push an item to the connected fields
+  void PushItem([[maybe_unused]] size_t index) {
+    if constexpr (::Xsmp::Annotation::any_of<::Xsmp::Annotation::connectable,
+                                             Annotations...>) {
+      this->internal_push(index);
+    }
+  }
+  void PushItems() {
+    for (size_t i = 0; i < _size; ++i) {
+      PushItem(i);
+    }
+  }
   const ::Smp::Publication::IArrayType *_type;
   T _value;
 };
-- 
2.43.0


From 3f67f7ea041a97c10b4af762cc5fc53fcf38147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 36/57] fix: let the items of an output array be read, and an
 array field be filled

---
 include/Xsmp/Field.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index 1468469..bd81adb 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -635,7 +635,10 @@ public:
   using reverse_iterator = std::reverse_iterator<iterator>;
   using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-  void fill(const typename T::value_type &_u) { internalArray.fill(_u); }
+  void fill(const typename T::value_type &_u) {
+    std::for_each(internalArray.begin(), internalArray.end(),
+                  [&_u](auto &field) { field = _u; });
+  }
 
   // Iterators.
   [[nodiscard]] iterator begin() noexcept { return internalArray.begin(); }
@@ -835,11 +838,11 @@ public:
                         size_t index)
         : _parent{parent}, _value{value}, _index{index} {}
 
-    operator const T &() const noexcept { return _value; }
+    operator const value_type &() const noexcept { return _value; }
 
-    const T &operator*() const noexcept { return _value; }
+    const value_type &operator*() const noexcept { return _value; }
 
-    const T &operator->() const noexcept { return &_value; }
+    const value_type *operator->() const noexcept { return &_value; }
 
     protected_reference &operator=(const value_type &value) noexcept {
       return SetValue(value);
-- 
2.43.0


From e72418ac1eedf2fbea9f6089b5a5b1e4cd581662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 37/57] fix: keep a field forced when it is forced to an
 invalid value

---
 src/Xsmp/Field.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index adc3c47..ba9cd64 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -541,8 +541,15 @@ void AbstractForcibleField::Store(::Smp::IStorageWriter *writer) {
 ::Smp::Bool AbstractForcibleField::IsForced() { return _forced; }
 
 void AbstractForcibleField::Force(::Smp::AnySimple value) {
+  const bool forced = _forced;
   _forced = false;
-  this->SetValue(std::move(value));
+  try {
+    this->SetValue(std::move(value));
+  } catch (...) {
+    // the field keeps its value
+    _forced = forced;
+    throw;
+  }
   _forced = true;
 }
 
-- 
2.43.0


From 37478610e12aa87d8d9980e4b0b46899f9aeaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 38/57] fix: refuse an invalid item of an array of an
 enumeration

---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 5a42353..0ea5b29 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -564,7 +564,7 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
+    if (isInvalidEnumerationValue(_itemType, value)) {
       ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
     }
     *static_cast<::Smp::Int32 *>(address) = value;
-- 
2.43.0


From cf7afff3106e700777d89edf79a935b370c30bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 39/57] fix: remove all the links of the fields of a component
 to a target

---
 src/Xsmp/Component.cpp         | 10 +++++++---
 src/Xsmp/Publication/Field.cpp | 13 +++++++++++--
 src/Xsmp/Publication/Field.h   | 13 ++++++++++---
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/Xsmp/Component.cpp b/src/Xsmp/Component.cpp
index 5957815..2863f24 100644
--- a/src/Xsmp/Component.cpp
+++ b/src/Xsmp/Component.cpp
@@ -31,6 +31,7 @@
 #include <Xsmp/Field.h>
 #include <Xsmp/Helper.h>
 #include <Xsmp/Reference.h>
+#include <vector>
 
 namespace Xsmp {
 Component::Component(::Smp::String8 name, ::Smp::String8 description,
@@ -156,7 +157,10 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
   if (auto *dataflowField =
           dynamic_cast<::Xsmp::detail::IDataflowFieldExtension *>(field)) {
     if (const auto *inputFields = dataflowField->GetInputFields()) {
-      for (const auto *inputField : *inputFields) {
+      // on a copy: the collection changes when a field is disconnected
+      const std::vector<::Smp::IField *> connectedFields{inputFields->begin(),
+                                                         inputFields->end()};
+      for (const auto *inputField : connectedFields) {
         if (::Xsmp::Helper::IsAncestor(target, inputField)) {
           dataflowField->Disconnect(inputField);
         }
@@ -164,8 +168,8 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
     }
   }
   // recursively disconnect subfields of a structure field
-  else if (const auto *structureField =
-               dynamic_cast<::Smp::IStructureField *>(field)) {
+  if (const auto *structureField =
+          dynamic_cast<::Smp::IStructureField *>(field)) {
     if (const auto *fields = structureField->GetFields()) {
       for (auto *subField : *fields) {
         RemoveFieldLinks(subField, target);
diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 0ea5b29..b212196 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -28,6 +28,7 @@
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/Publication/Type.h>
 #include <Xsmp/Publication/TypeRegistry.h>
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <string>
@@ -141,14 +142,14 @@ std::unique_ptr<Field> Field::Create(::Smp::String8 name,
 }
 
 void DataflowField::Connect(::Smp::IField *target) {
-  if (_targets.find(target) != _targets.end()) {
+  if (std::find(_targets.begin(), _targets.end(), target) != _targets.end()) {
     ::Xsmp::Exception::throwFieldAlreadyConnected(this, this, target);
   }
   if (!this->IsOutput() || !target->IsInput() || target == this ||
       !::Xsmp::Helper::AreEquivalent(this, target)) {
     ::Xsmp::Exception::throwInvalidTarget(this, this, target);
   }
-  _targets.emplace(target);
+  _targets.add(target);
   // push the current value
   Push(this, target);
 }
@@ -200,6 +201,14 @@ void DataflowField::Push() {
   }
 }
 
+void DataflowField::Disconnect(const ::Smp::IField *target) {
+  _targets.remove(target);
+}
+
+const ::Smp::FieldCollection *DataflowField::GetInputFields() const {
+  return &_targets;
+}
+
 AnonymousArrayField::AnonymousArrayField(
     ::Smp::String8 name, ::Smp::String8 description, ::Smp::IObject *parent,
     ::Smp::Publication::ITypeRegistry *typeRegistry, ::Smp::ViewKind view,
diff --git a/src/Xsmp/Publication/Field.h b/src/Xsmp/Publication/Field.h
index 9f8f78b..33243ea 100644
--- a/src/Xsmp/Publication/Field.h
+++ b/src/Xsmp/Publication/Field.h
@@ -25,10 +25,10 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Smp/ViewKind.h>
 #include <Xsmp/Collection.h>
+#include <Xsmp/Field.h>
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/cstring.h>
 #include <memory>
-#include <set>
 #include <vector>
 
 namespace Smp {
@@ -99,16 +99,23 @@ private:
   ::Smp::Bool _output;
 };
 
-class DataflowField : public virtual ::Smp::IDataflowField {
+class DataflowField
+    : public virtual ::Xsmp::detail::IDataflowFieldExtension {
 public:
   void Connect(::Smp::IField *target) final;
 
   /// Push the current field value to all connected target fields.
   void Push() final;
 
+  /// Disconnect this field from a target field.
+  void Disconnect(const ::Smp::IField *target) final;
+
+  const ::Smp::FieldCollection *GetInputFields() const final;
+
 private:
   void Push(::Smp::IField *source, ::Smp::IField *target);
-  std::set<::Smp::IField *> _targets;
+  ::Xsmp::detail::InputFieldCollection _targets{
+      "InputFields", "Collection of connected input Fields", this};
 };
 
 class AnonymousArrayField final : public Field,
-- 
2.43.0


From fec6a0624b867b14fca17267de252a712ad39d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 40/57] fix: let an event sink be unsubscribed while its event
 is emitted

---
 src/Xsmp/EventSource.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/EventSource.cpp b/src/Xsmp/EventSource.cpp
index 7124dad..85958c7 100644
--- a/src/Xsmp/EventSource.cpp
+++ b/src/Xsmp/EventSource.cpp
@@ -79,8 +79,12 @@ void AbstractEventSource::RemoveLinks(
 }
 void AbstractEventSource::DoEmit(::Smp::IObject *sender,
                                  const ::Smp::AnySimple &value) const {
-  for (const auto &sink : _event_sinks) {
-    sink->Notify(sender, value);
+  // the event sinks may subscribe or unsubscribe event sinks
+  const auto event_sinks = _event_sinks;
+  for (auto *sink : event_sinks) {
+    if (_event_sinks.find(sink) != _event_sinks.end()) {
+      sink->Notify(sender, value);
+    }
   }
 }
 
-- 
2.43.0


From d918354ef7eb79ef587f31d2db46f8736b370892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 41/57] fix: DateTime: assignment from a std::chrono::duration
 did not compile

---
 include/Xsmp/DateTime.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/DateTime.h b/include/Xsmp/DateTime.h
index 78a4d43..66ef677 100644
--- a/include/Xsmp/DateTime.h
+++ b/include/Xsmp/DateTime.h
@@ -121,7 +121,8 @@ struct DateTime final {
   template <class Rep, class Period>
   constexpr DateTime &
   operator=(const std::chrono::duration<Rep, Period> &dateTime) {
-    _value = convert(dateTime);
+    _value =
+        std::chrono::duration_cast<std::chrono::nanoseconds>(dateTime).count();
     return *this;
   }
   constexpr DateTime &operator=(Smp::DateTime dateTime) {
-- 
2.43.0


From e5e462ef5064d91d90baada9af0fbd9949db606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 42/57] fix: Duration: a text that cannot be parsed gave an
 indeterminate value

---
 src/Xsmp/Duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Duration.cpp b/src/Xsmp/Duration.cpp
index c3d1a82..2ae859b 100644
--- a/src/Xsmp/Duration.cpp
+++ b/src/Xsmp/Duration.cpp
@@ -30,7 +30,7 @@ static_assert(std::is_standard_layout_v<::Xsmp::Duration>,
 
 namespace {
 ::Smp::Duration from(std::istream &inputStream, const char *fmt) {
-  std::chrono::nanoseconds timePoint;
+  std::chrono::nanoseconds timePoint{};
   inputStream >> date::parse(fmt, timePoint);
   return timePoint.count();
 }
-- 
2.43.0


From 2a0a412749273fb8cf80c9a69349d38de585df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 43/57] fix: AnySimple: an empty value was equal to any other
 value

---
 src/Smp/AnySimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c19afe7..715864f 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -1044,7 +1044,7 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
   try {
     switch (type) {
     case PrimitiveTypeKind::PTK_None:
-      return true;
+      return other.type == PrimitiveTypeKind::PTK_None;
     case PrimitiveTypeKind::PTK_Bool:
       return value.boolValue == static_cast<::Smp::Bool>(other);
     case PrimitiveTypeKind::PTK_UInt8:
-- 
2.43.0


From 48062f1bbf0d6c6716545bf8602ffdb51087c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 44/57] fix: AnySimple: an infinity was not equal to itself

---
 src/Smp/AnySimple.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 715864f..57d07f4 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -87,6 +87,13 @@ AnySimple &AnySimple::operator=(::Smp::AnySimple &&other) {
 
 AnySimple::~AnySimple() noexcept { _releaseContent(this); }
 
+// Compare floating point values with a tolerance of one epsilon. Infinities of
+// the same sign, whose difference is not a number, are equal.
+template <typename T> bool isClose(T left, T right) {
+  return left == right ||
+         std::fabs(left - right) <= std::numeric_limits<T>::epsilon();
+}
+
 template <typename T, typename U>
 T convertIntegral(U newValue, ::Smp::PrimitiveTypeKind kind,
                   ::Smp::PrimitiveTypeKind expected) {
@@ -1068,13 +1075,9 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
     case PrimitiveTypeKind::PTK_DateTime:
       return value.dateTimeValue == static_cast<::Smp::DateTime>(other);
     case PrimitiveTypeKind::PTK_Float32:
-      return std::fabs(value.float32Value -
-                       static_cast<::Smp::Float32>(other)) <=
-             std::numeric_limits<Float32>::epsilon();
+      return isClose(value.float32Value, static_cast<::Smp::Float32>(other));
     case PrimitiveTypeKind::PTK_Float64:
-      return std::fabs(value.float64Value -
-                       static_cast<::Smp::Float64>(other)) <=
-             std::numeric_limits<Float64>::epsilon();
+      return isClose(value.float64Value, static_cast<::Smp::Float64>(other));
     case PrimitiveTypeKind::PTK_Char8:
       return value.char8Value == static_cast<::Smp::Char8>(other);
     case PrimitiveTypeKind::PTK_String8:
-- 
2.43.0


From 11f40ef604f14097571d0c9f5a291a6e0609e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 45/57] fix: AnySimple: SetValue used its own text after it was
 released

---
 src/Smp/AnySimple.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 57d07f4..ae9096f 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -143,20 +143,19 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue) {
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::String8 newValue) {
 
-  _releaseContent(this);
-
   if (kind == PrimitiveTypeKind::PTK_String8) {
+    ::Smp::Char8 *dest = nullptr;
     if (newValue) {
+      // copy before release: newValue may be the current content
       auto size = std::char_traits<char>::length(newValue) + 1;
-      auto *dest = new ::Smp::Char8[size];
-      this->value.string8Value = dest;
+      dest = new ::Smp::Char8[size];
       std::char_traits<char>::copy(dest, newValue, size);
-    } else {
-      this->value.string8Value = nullptr;
     }
+    _releaseContent(this);
+    this->value.string8Value = dest;
     type = kind;
   } else {
-
+    _releaseContent(this);
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, kind,
                                            PrimitiveTypeKind::PTK_String8);
   }
-- 
2.43.0


From 94d1e6eeb7d8d7dea0d91f7f559d82f1d40cea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 46/57] fix: AnySimple: a character over 127 was printed with
 its sign extended

---
 src/Smp/StreamOperators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Smp/StreamOperators.cpp b/src/Smp/StreamOperators.cpp
index d9d45ef..f7aa558 100644
--- a/src/Smp/StreamOperators.cpp
+++ b/src/Smp/StreamOperators.cpp
@@ -209,7 +209,9 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
         return os << "'" << obj.value.char8Value << "'";
       } else {
         return os << "'\\" << std::oct
-                  << static_cast<unsigned int>(obj.value.char8Value) << std::dec
+                  << static_cast<unsigned int>(
+                         static_cast<unsigned char>(obj.value.char8Value))
+                  << std::dec
                   << "'";
       }
     }
-- 
2.43.0


From d4ceadf0a384c4e993e5fb13f9da7e2698708c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 47/57] fix: AnySimple: printing a null string broke the stream

---
 src/Smp/StreamOperators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Smp/StreamOperators.cpp b/src/Smp/StreamOperators.cpp
index f7aa558..23c1d4b 100644
--- a/src/Smp/StreamOperators.cpp
+++ b/src/Smp/StreamOperators.cpp
@@ -243,7 +243,8 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
   case PrimitiveTypeKind::PTK_DateTime:
     return os << "\"" << ::Xsmp::DateTime(obj.value.dateTimeValue) << "\"";
   case PrimitiveTypeKind::PTK_String8:
-    return os << "\"" << obj.value.string8Value << "\"";
+    return os << "\""
+              << (obj.value.string8Value ? obj.value.string8Value : "") << "\"";
   }
   return os << "<invalid AnySimple type=\""
             << static_cast<::Smp::Int32>(obj.type) << "\">";
-- 
2.43.0


From 0716da425c25c684368ff0acaabdabeef1d5a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 48/57] fix: XsmpLogger: an incomplete conversion at the end of
 a pattern was read out of bounds

---
 src/Xsmp/Services/XsmpLogger.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 6bf3ea8..9afa79b 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -199,9 +199,9 @@ public:
   void Append(std::ostream &stream, const LogEntry &entry) const override {
     using namespace std::chrono;
 
-    auto format = [&stream](std::string::const_iterator &it,
-                            const auto &value) {
-      if (auto fmt = GetFormatting(it); fmt.empty()) {
+    auto format = [&stream, this](std::string::const_iterator &it,
+                                  const auto &value) {
+      if (auto fmt = GetFormatting(it, _pattern.end()); fmt.empty()) {
         stream << static_cast<::Smp::Int64>(value);
       } else {
         value.to_stream(stream, fmt);
@@ -210,7 +210,8 @@ public:
 
     auto it = _pattern.begin();
     while (it != _pattern.end()) {
-      if (*it == '%') {
+      // a '%' at the end of the pattern is a normal char
+      if (*it == '%' && std::next(it) != _pattern.end()) {
         ++it;
         switch (*it) {
         case 'p':
@@ -284,14 +285,14 @@ private:
     // use default pattern
     return "%d{%F %T}%t%S%t%p%t%k%t%m%n";
   }
-  static std::string GetFormatting(std::string::const_iterator &it) noexcept {
+  static std::string GetFormatting(std::string::const_iterator &it,
+                                   std::string::const_iterator end) {
     std::string formatting;
-    if (it[1] == '{') {
-      it += 2;
-      while (*it != '}') {
-        formatting.push_back(*it);
-        ++it;
-      }
+    if (auto open = std::next(it); open != end && *open == '{') {
+      auto close = std::find(open, end, '}');
+      formatting.assign(std::next(open), close);
+      // stay on the last char that is used
+      it = close == end ? std::prev(end) : close;
     }
     return formatting;
   }
-- 
2.43.0


From ffd5756baabc6f00044f20a16f4e5cbeca841757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 49/57] fix: XsmpLogger: an appender with an unknown layout
 crashed at its first message

---
 src/Xsmp/Services/XsmpLogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 9afa79b..321f3d6 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -316,7 +316,7 @@ public:
       }
     }
     // create a PatternLayout by default
-    else {
+    if (!_layout) {
       _layout = std::make_unique<PatternLayout>(key, properties);
     }
     if (auto levels = properties.find(path + ".levels");
-- 
2.43.0


From 459b355b915884ec1151b402a19d706980093d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 50/57] fix: Publication: a field could be published with the
 name of a given one

---
 src/Xsmp/Publication/Publication.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Xsmp/Publication/Publication.cpp b/src/Xsmp/Publication/Publication.cpp
index 759905a..5d161a9 100644
--- a/src/Xsmp/Publication/Publication.cpp
+++ b/src/Xsmp/Publication/Publication.cpp
@@ -34,6 +34,17 @@
 
 namespace Xsmp::Publication {
 
+namespace {
+// The given fields and the ones created from a type are not in the same
+// collection: check the names of both.
+void checkDuplicateName(const ::Smp::FieldCollection &fields,
+                        ::Smp::String8 name) {
+  if (name && fields.at(name)) {
+    ::Xsmp::Exception::throwDuplicateName(&fields, name, &fields);
+  }
+}
+} // namespace
+
 Publication::Publication(::Smp::IObject *parent,
                          ::Smp::Publication::ITypeRegistry *typeRegistry)
     : _parent(parent), _typeRegistry{typeRegistry},
@@ -146,6 +157,7 @@ void Publication::PublishField(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
   if (auto const *type = _typeRegistry->GetType(typeUuid)) {
+    checkDuplicateName(_allFields, name);
     _fields.Add(Field::Create(name, description, _parent, address, type, view,
                               state, input, output));
   } else {
@@ -160,6 +172,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::PrimitiveTypeKind type,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
+  checkDuplicateName(_allFields, name);
   if (output) {
     _fields.Add<AnonymousSimpleArrayDataflowField>(
         name, description, _parent, count, address,
@@ -175,6 +188,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                ::Smp::String8 description,
                                                ::Smp::ViewKind view,
                                                ::Smp::Bool state) {
+  checkDuplicateName(_allFields, name);
   return _fields.Add<AnonymousArrayField>(name, description, _parent,
                                           _typeRegistry, view, state);
 }
@@ -183,6 +197,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                    ::Smp::String8 description,
                                                    ::Smp::ViewKind view,
                                                    ::Smp::Bool state) {
+  checkDuplicateName(_allFields, name);
   return _fields.Add<AnonymousStructureField>(name, description, _parent,
                                               _typeRegistry, view, state);
 }
-- 
2.43.0


From 6f6f14be469ef6ba340252fbb0a89b64b77394f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 51/57] fix: Operation: a null parameter name crashed once a
 return parameter was published

---
 src/Xsmp/Publication/Operation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Operation.cpp b/src/Xsmp/Publication/Operation.cpp
index ff5cdd4..e45de14 100644
--- a/src/Xsmp/Publication/Operation.cpp
+++ b/src/Xsmp/Publication/Operation.cpp
@@ -96,7 +96,7 @@ void Operation::PublishParameter(
         std::make_unique<Parameter>(name, description, this, type, direction);
   } else {
     // check do duplicate parameter name
-    if (_returnParameter &&
+    if (_returnParameter && name &&
         std::strcmp(_returnParameter->GetName(), name) == 0) {
       ::Xsmp::Exception::throwDuplicateName(this, name, &_parameters);
     }
@@ -113,7 +113,8 @@ const ::Smp::ParameterCollection *Operation::GetParameters() const {
   if (auto *parameter = _parameters.at(name)) {
     return parameter;
   }
-  if (_returnParameter && std::strcmp(_returnParameter->GetName(), name) == 0) {
+  if (_returnParameter && name &&
+      std::strcmp(_returnParameter->GetName(), name) == 0) {
     return _returnParameter.get();
   }
   return nullptr;
-- 
2.43.0


From 2826488d469b7392ceff966728bf844946b236d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 52/57] fix: Request: a value of a wrong type was reported as
 the expected one

---
 src/Xsmp/Publication/Request.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 17f8046..131b0df 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -35,8 +35,8 @@ bool Request::isValid(const ::Smp::IObject *sender,
                       const ::Smp::Publication::IType *type,
                       const ::Smp::AnySimple &value) {
   if (type->GetPrimitiveTypeKind() != value.type) {
-    ::Xsmp::Exception::throwInvalidAnyType(sender, value.type,
-                                           type->GetPrimitiveTypeKind());
+    ::Xsmp::Exception::throwInvalidAnyType(sender, type->GetPrimitiveTypeKind(),
+                                           value.type);
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
-- 
2.43.0


From eea7d0af384d955080098b3c1408cd4c84689dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 53/57] fix: Request: NaN was accepted for a floating point
 type with a range

---
 src/Xsmp/Publication/Request.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 131b0df..9dae66f 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -50,12 +50,13 @@ bool Request::isValid(const ::Smp::IObject *sender,
   else if (const auto *floatType = dynamic_cast<const FloatType *>(type)) {
     auto floatValue = static_cast<::Smp::Float64>(value);
 
-    if ((floatType->IsMinInclusive() ? floatValue < floatType->getMinimum()
-                                     : floatValue <= floatType->getMinimum()) ||
-        (floatType->IsMaxInclusive() ? floatValue > floatType->getMaximum()
-                                     : floatValue >= floatType->getMaximum())) {
-      return false;
-    }
+    // written so that NaN, which is in no range, is refused
+    return (floatType->IsMinInclusive()
+                ? floatValue >= floatType->getMinimum()
+                : floatValue > floatType->getMinimum()) &&
+           (floatType->IsMaxInclusive()
+                ? floatValue <= floatType->getMaximum()
+                : floatValue < floatType->getMaximum());
   }
   // string types
   else if (const auto *stringType = dynamic_cast<const StringType *>(type)) {
-- 
2.43.0


From 165682df580cb0173a242a31b16de1d37757385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 54/57] fix: Request: a large 64 bits value was reported as of
 a wrong type

---
 src/Xsmp/Publication/Request.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 9dae66f..137b15c 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -25,6 +25,7 @@
 #include <Xsmp/cstring.h>
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <map>
 #include <string>
 #include <utility>
@@ -40,6 +41,12 @@ bool Request::isValid(const ::Smp::IObject *sender,
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
+    if (value.type == ::Smp::PrimitiveTypeKind::PTK_UInt64 &&
+        value.value.uInt64Value >
+            static_cast<::Smp::UInt64>(
+                std::numeric_limits<::Smp::Int64>::max())) {
+      return false;
+    }
     auto intValue = static_cast<::Smp::Int64>(value);
     if (intValue < integerType->getMinimum() ||
         intValue > integerType->getMaximum()) {
@@ -69,8 +76,11 @@ bool Request::isValid(const ::Smp::IObject *sender,
   // enumeration types
   else if (const auto *enumType = dynamic_cast<const EnumerationType *>(type)) {
     // check that a literal with the correct value exist
-    if (enumType->GetLiterals().find(static_cast<::Smp::Int32>(value)) ==
-        enumType->GetLiterals().end()) {
+    auto enumValue = static_cast<::Smp::Int64>(value);
+    if (enumValue < std::numeric_limits<::Smp::Int32>::min() ||
+        enumValue > std::numeric_limits<::Smp::Int32>::max() ||
+        enumType->GetLiterals().find(static_cast<::Smp::Int32>(enumValue)) ==
+            enumType->GetLiterals().end()) {
       return false;
     }
   }
-- 
2.43.0


From 391bd47bc6bfd36d94b1b60d6af41918bf570b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 55/57] fix: Property: the request of a setter was reported to
 have no parameter

---
 src/Xsmp/Publication/Property.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Property.cpp b/src/Xsmp/Publication/Property.cpp
index e0493d5..280687d 100644
--- a/src/Xsmp/Publication/Property.cpp
+++ b/src/Xsmp/Publication/Property.cpp
@@ -102,7 +102,7 @@ public:
 
   void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     if (!::Xsmp::Publication::Request::isValid(_property, _property->GetType(),
                                                value)) {
@@ -115,7 +115,7 @@ public:
   [[nodiscard]] ::Smp::AnySimple
   GetParameterValue(::Smp::Int32 index) const override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     return _value;
   }
-- 
2.43.0


From 8ceabeae4712af05b42eeefd1a20ff6745b8bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 56/57] fix: EventSink: an argument of a wrong type was
 reported as the expected one

---
 src/Xsmp/EventSink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/EventSink.cpp b/src/Xsmp/EventSink.cpp
index 7145388..fe0ac84 100644
--- a/src/Xsmp/EventSink.cpp
+++ b/src/Xsmp/EventSink.cpp
@@ -59,8 +59,8 @@ EventSink<void>::EventSink(::Smp::String8 name, ::Smp::String8 description,
 
 void EventSink<void>::Notify(::Smp::IObject *sender, ::Smp::AnySimple value) {
   if (value.GetType() != GetEventArgType()) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, value.GetType(),
-                                           GetEventArgType());
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, GetEventArgType(),
+                                           value.GetType());
   }
   _callback(sender);
 }
-- 
2.43.0


From d7f532db137efb543eba53a1b33bf1d5f6ee682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 57/57] fix: AnySimple: a conversion reported the kind of the
 value as the expected one

---
 src/Smp/AnySimple.cpp | 56 +++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index ae9096f..5823633 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -673,23 +673,23 @@ AnySimple::operator ::Smp::Bool() const {
   case PrimitiveTypeKind::PTK_String8:
     return this->value.string8Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Bool);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Bool,
+                                           type);
   }
 }
 
 AnySimple::operator ::Smp::Char8() const {
   if (type != PrimitiveTypeKind::PTK_Char8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Char8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Char8,
+                                           type);
   }
   return this->value.char8Value;
 }
 
 AnySimple::operator ::Smp::String8() const {
   if (type != PrimitiveTypeKind::PTK_String8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_String8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_String8,
+                                           type);
   }
   return this->value.string8Value;
 }
@@ -726,8 +726,8 @@ AnySimple::operator ::Smp::UInt8() const {
     return convertIntegral<::Smp::UInt8>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_UInt8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_UInt8,
+                                           type);
   }
 }
 
@@ -762,8 +762,8 @@ AnySimple::operator ::Smp::UInt16() const {
     return convertIntegral<::Smp::UInt16>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_UInt16,
+                                           type);
   }
 }
 
@@ -797,8 +797,8 @@ AnySimple::operator ::Smp::UInt32() const {
     return convertIntegral<::Smp::UInt32>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_UInt32,
+                                           type);
   }
 }
 
@@ -831,8 +831,8 @@ AnySimple::operator ::Smp::UInt64() const {
   case PrimitiveTypeKind::PTK_UInt64:
     return this->value.uInt64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_UInt64,
+                                           type);
   }
 }
 
@@ -868,8 +868,8 @@ AnySimple::operator ::Smp::Int8() const {
     return convertIntegral<::Smp::Int8>(value.uInt64Value, type,
                                         PrimitiveTypeKind::PTK_Int8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int8,
+                                           type);
   }
 }
 
@@ -903,8 +903,8 @@ AnySimple::operator ::Smp::Int16() const {
     return convertIntegral<::Smp::Int16>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int16,
+                                           type);
   }
 }
 
@@ -936,8 +936,8 @@ AnySimple::operator ::Smp::Int32() const {
     return convertIntegral<::Smp::Int32>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int32,
+                                           type);
   }
 }
 
@@ -965,8 +965,8 @@ AnySimple::operator ::Smp::Int64() const {
     return convertIntegral<::Smp::Int64>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int64);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int64,
+                                           type);
   }
 }
 
@@ -999,8 +999,8 @@ AnySimple::operator ::Smp::Float32() const {
     return convertFloat<::Smp::Float32>(value.float64Value, type,
                                         PrimitiveTypeKind::PTK_Float32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Float32,
+                                           type);
   }
 }
 
@@ -1029,8 +1029,8 @@ AnySimple::operator ::Smp::Float64() const {
   case PrimitiveTypeKind::PTK_Float64:
     return this->value.float64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Float64,
+                                           type);
   }
 }
 
@@ -1040,8 +1040,8 @@ AnySimple::operator ::Smp::Float64() const {
     this->value.string8Value = nullptr;
     return result;
   }
-  ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                         PrimitiveTypeKind::PTK_String8);
+  ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_String8,
+                                         type);
 }
 
 ::Smp::PrimitiveTypeKind AnySimple::GetType() const noexcept { return type; }
-- 
2.43.0

