// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_ISCHEDULER_H_
#define SMP_SERVICES_ISCHEDULER_H_
#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Services/EventId.h>
namespace Smp {
class IEntryPoint;
}
namespace Smp::Services {
class IScheduler : public virtual ::Smp::IService {
public:
  virtual ~IScheduler() noexcept = default;
  virtual ::Smp::Services::EventId AddImmediateEvent(const ::Smp::IEntryPoint *entryPoint) = 0;
  virtual ::Smp::Services::EventId AddSimulationTimeEvent(const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration simulationTime, ::Smp::Duration cycleTime = 0, ::Smp::Int64 repeat = 0) = 0;
  virtual ::Smp::Services::EventId AddMissionTimeEvent(const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration missionTime, ::Smp::Duration cycleTime = 0, ::Smp::Int64 repeat = 0) = 0;
  virtual ::Smp::Services::EventId AddEpochTimeEvent(const ::Smp::IEntryPoint *entryPoint, ::Smp::DateTime epochTime, ::Smp::Duration cycleTime = 0, ::Smp::Int64 repeat = 0) = 0;
  virtual ::Smp::Services::EventId AddZuluTimeEvent(const ::Smp::IEntryPoint *entryPoint, ::Smp::DateTime zuluTime, ::Smp::Duration cycleTime = 0, ::Smp::Int64 repeat = 0) = 0;
  virtual void SetEventSimulationTime(::Smp::Services::EventId event, ::Smp::Duration simulationTime) = 0;
  virtual void SetEventMissionTime(::Smp::Services::EventId event, ::Smp::Duration missionTime) = 0;
  virtual void SetEventEpochTime(::Smp::Services::EventId event, ::Smp::DateTime epochTime) = 0;
  virtual void SetEventZuluTime(::Smp::Services::EventId event, ::Smp::DateTime zuluTime) = 0;
  virtual void SetEventCycleTime(::Smp::Services::EventId event, ::Smp::Duration cycleTime) = 0;
  virtual void SetEventRepeat(::Smp::Services::EventId event, ::Smp::Int64 repeat) = 0;
  virtual void RemoveEvent(::Smp::Services::EventId event) = 0;
  virtual ::Smp::Services::EventId GetCurrentEventId() const = 0;
  virtual ::Smp::Duration GetNextScheduledEventTime() const = 0;
};
} // namespace Smp::Services
#endif
