// C16: thermal solvers are functions of their current settings
// (steady current: steady_contract.h, steady temperature: degrees_contract.h).
#include "degrees_contract.h"
