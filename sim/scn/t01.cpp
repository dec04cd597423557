// T01: the test runner runs every registered test once and reports the truth.
#include "runner.h"

extern "C" { const char* scenario_name = "t01"; }

extern "C" void scenario_run(void)
{
    const runner::Setup s = {false, true, true};
    runner::run(s);
}
