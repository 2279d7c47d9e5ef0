#include "shim_core.h"
