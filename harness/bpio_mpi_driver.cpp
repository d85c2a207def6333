#define VH_PAR
#include "bpio_driver.cpp"
