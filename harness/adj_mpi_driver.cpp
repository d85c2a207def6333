#define VH_PAR
#include "adj_driver.cpp"
