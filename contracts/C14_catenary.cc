// C14: catenaries are functions of their current settings.
#include "catenary3d_contract.h"
