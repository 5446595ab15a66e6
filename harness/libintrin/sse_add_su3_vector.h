#include "libintrin_standin.h"
