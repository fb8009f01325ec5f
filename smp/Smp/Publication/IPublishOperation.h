// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_IPUBLISHOPERATION_H_
#define SMP_PUBLICATION_IPUBLISHOPERATION_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/Uuid.h>
namespace Smp::Publication {
class IPublishOperation {
public:
  virtual ~IPublishOperation() noexcept = default;
  virtual void PublishParameter(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Publication::ParameterDirectionKind direction = ::Smp::Publication::ParameterDirectionKind::PDK_In) = 0;
};
} // namespace Smp::Publication
#endif
