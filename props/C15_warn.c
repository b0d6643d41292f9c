#define SITES_NAME c15warn
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_WARN
#include "c15_sites.h"
