// An instance of the library's list template, compiled like the library itself.
#include <stdint.h>
#include <stdio.h>
#include "rmc_internal.h"
#include "rmc_list.h"
#include "rmc_list_template.h"
#include "list_inst.h"
RMC_LIST_IMPL(vt_list, vt_node, uint64_t)
