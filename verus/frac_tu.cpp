// translation unit that makes the header-only Fraction visible to the translator
#include "Fraction.h"
