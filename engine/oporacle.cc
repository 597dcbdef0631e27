#include "vforacle.h"
#include "vfmodel.h"
namespace vfo {
#include VF_FAMILY
}
