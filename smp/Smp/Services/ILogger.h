// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_ILOGGER_H_
#define SMP_SERVICES_ILOGGER_H_
#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Services/LogMessageKind.h>
namespace Smp::Services {
class ILogger : public virtual ::Smp::IService {
public:
  virtual ~ILogger() noexcept = default;
  static constexpr ::Smp::Services::LogMessageKind LMK_Information = 0;
  static constexpr ::Smp::String8 LMK_InformationName = "Information";
  static constexpr ::Smp::Services::LogMessageKind LMK_Event = 1;
  static constexpr ::Smp::String8 LMK_EventName = "Event";
  static constexpr ::Smp::Services::LogMessageKind LMK_Warning = 2;
  static constexpr ::Smp::String8 LMK_WarningName = "Warning";
  static constexpr ::Smp::Services::LogMessageKind LMK_Error = 3;
  static constexpr ::Smp::String8 LMK_ErrorName = "Error";
  static constexpr ::Smp::Services::LogMessageKind LMK_Debug = 4;
  static constexpr ::Smp::String8 LMK_DebugName = "Debug";
  virtual ::Smp::Services::LogMessageKind QueryLogMessageKind(::Smp::String8 messageKindName) = 0;
  virtual void Log(const ::Smp::IObject *sender, ::Smp::String8 message, ::Smp::Services::LogMessageKind kind = 0) = 0;
};
} // namespace Smp::Services
#endif
