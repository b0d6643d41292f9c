#define SITES_NAME c15cpp
#include "c15_sites.h"
