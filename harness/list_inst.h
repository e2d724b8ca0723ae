#pragma once
#include <stdint.h>
#include "rmc_list.h"
RMC_LIST(vt_list, vt_node, uint64_t)
