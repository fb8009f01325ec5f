// Helpers shared by the harnesses that build simulations.
#pragma once
#include "vh.h"
#include <Smp/ComponentStateKind.h>
#include <Smp/Exception.h>
#include <Smp/IObject.h>
#include <Smp/ISimulator.h>
#include <Smp/Services/ILogger.h>
#include <Smp/Services/IEventManager.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/Uuid.h>
#include <Xsmp/ComponentHelper.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/Model.h>
#include <Xsmp/Service.h>
#include <cxxabi.h>
#include <map>
#include <string>
#include <vector>
namespace vm {
inline std::string demangle(const char *n) {
  int st = 0;
  char *p = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string r = p ? p : n;
  std::free(p);
  return r;
}
// Runs f (which returns a complete outcome); an exception is an outcome too.
template <class F> std::string guard(F &&f) {
  try {
    return f();
  } catch (const ::Smp::Exception &e) {
    return vh::out(e.GetName());
  } catch (const std::exception &e) {
    return vh::out("std:" + demangle(typeid(e).name()));
  } catch (...) {
    return vh::out("unknown");
  }
}
// same, but an exception is only the error part of the outcome
template <class F> std::string err(F &&f) {
  try {
    f();
    return "ok";
  } catch (const ::Smp::Exception &e) {
    return e.GetName();
  } catch (const std::exception &e) {
    return "std:" + demangle(typeid(e).name());
  } catch (...) {
    return "unknown";
  }
}
// A logger service that drops everything, or records.
class QuietLogger : public ::Xsmp::Service,
                    public virtual ::Smp::Services::ILogger {
public:
  using Service::Service;
  std::vector<std::string> messages;
  bool keep = false;
  ::Smp::Services::LogMessageKind
  QueryLogMessageKind(::Smp::String8) override {
    return 0;
  }
  void Log(const ::Smp::IObject *, ::Smp::String8 m,
           ::Smp::Services::LogMessageKind) override {
    if (keep)
      messages.push_back(m ? m : "");
  }
};
inline const char *name(::Smp::SimulatorStateKind k) {
  static const char *const n[] = {"Building",     "Connecting", "Initialising",
                                  "Standby",      "Executing",  "Storing",
                                  "Restoring",    "Reconnecting", "Exiting",
                                  "Aborting"};
  auto i = static_cast<size_t>(k);
  return i < 10 ? n[i] : "?";
}
inline const char *name(::Smp::ComponentStateKind k) {
  switch (k) {
  case ::Smp::ComponentStateKind::CSK_Created:
    return "Created";
  case ::Smp::ComponentStateKind::CSK_Publishing:
    return "Publishing";
  case ::Smp::ComponentStateKind::CSK_Configured:
    return "Configured";
  case ::Smp::ComponentStateKind::CSK_Connected:
    return "Connected";
  case ::Smp::ComponentStateKind::CSK_Disconnected:
    return "Disconnected";
  default:
    return "?";
  }
}
inline const std::map<std::string, int> &globalEvents() {
  using E = ::Smp::Services::IEventManager;
  static const std::map<std::string, int> m{
      {"LeaveConnecting", E::SMP_LeaveConnectingId},
      {"EnterInitialising", E::SMP_EnterInitialisingId},
      {"LeaveInitialising", E::SMP_LeaveInitialisingId},
      {"EnterStandby", E::SMP_EnterStandbyId},
      {"LeaveStandby", E::SMP_LeaveStandbyId},
      {"EnterExecuting", E::SMP_EnterExecutingId},
      {"LeaveExecuting", E::SMP_LeaveExecutingId},
      {"EnterStoring", E::SMP_EnterStoringId},
      {"LeaveStoring", E::SMP_LeaveStoringId},
      {"EnterRestoring", E::SMP_EnterRestoringId},
      {"LeaveRestoring", E::SMP_LeaveRestoringId},
      {"EnterExiting", E::SMP_EnterExitingId},
      {"EnterAborting", E::SMP_EnterAbortingId},
      {"EpochTimeChanged", E::SMP_EpochTimeChangedId},
      {"MissionTimeChanged", E::SMP_MissionTimeChangedId},
      {"EnterReconnecting", E::SMP_EnterReconnectingId},
      {"LeaveReconnecting", E::SMP_LeaveReconnectingId},
      {"PreSimTimeChange", E::SMP_PreSimTimeChangeId},
      {"PostSimTimeChange", E::SMP_PostSimTimeChangeId}};
  return m;
}
} // namespace vm
