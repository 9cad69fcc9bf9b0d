#include "../config.h"
