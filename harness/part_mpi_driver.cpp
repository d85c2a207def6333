#define VH_PAR
#include "part_driver.cpp"
