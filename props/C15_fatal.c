#define SITES_NAME c15fatal
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_FATAL
#include "c15_sites.h"
