// The exact-width integers of the machine compiled for.
#include <stdint.h>
