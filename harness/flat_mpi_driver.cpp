#define VH_PAR
#include "flat_driver.cpp"
