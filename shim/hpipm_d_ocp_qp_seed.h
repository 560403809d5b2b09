#include "hpipm_compat.h"
