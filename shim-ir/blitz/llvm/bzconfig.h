#include <blitz/gnu/bzconfig.h>
