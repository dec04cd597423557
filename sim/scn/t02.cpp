// T02: reported test durations match the clock.
#include "runner.h"

extern "C" { const char* scenario_name = "t02"; }

extern "C" void scenario_run(void)
{
    const runner::Setup s = {true, false, false};
    runner::run(s);
}
