#define SITES_NAME c15none
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_NONE
#include "c15_sites.h"
