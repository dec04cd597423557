// L01: the second source file of the simulated program.
#include "l01.h"

TEST(FileB, Counts) { life::test_ran(1); }

static life::Resident resident(1, life::unit_here);
