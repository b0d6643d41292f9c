#define SITES_NAME c15info
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_INFO
#include "c15_sites.h"
