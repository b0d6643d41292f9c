#define SITES_NAME c15c
#include "c15_sites.h"
