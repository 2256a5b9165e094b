#include "src_core/c2a_core_main.h"
