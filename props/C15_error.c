#define SITES_NAME c15error
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_ERROR
#include "c15_sites.h"
