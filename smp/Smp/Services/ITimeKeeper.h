// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_ITIMEKEEPER_H_
#define SMP_SERVICES_ITIMEKEEPER_H_
#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
class ITimeKeeper : public virtual ::Smp::IService {
public:
  virtual ~ITimeKeeper() noexcept = default;
  virtual ::Smp::Duration GetSimulationTime() const = 0;
  virtual ::Smp::DateTime GetEpochTime() const = 0;
  virtual ::Smp::DateTime GetMissionStartTime() const = 0;
  virtual ::Smp::Duration GetMissionTime() const = 0;
  virtual ::Smp::DateTime GetZuluTime() const = 0;
  virtual void SetSimulationTime(::Smp::Duration simulationTime) = 0;
  virtual void SetEpochTime(::Smp::DateTime epochTime) = 0;
  virtual void SetMissionStartTime(::Smp::DateTime missionStart) = 0;
  virtual void SetMissionTime(::Smp::Duration missionTime) = 0;
};
} // namespace Smp::Services
#endif
