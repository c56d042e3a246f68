#include "../fmm_standin.hpp"
