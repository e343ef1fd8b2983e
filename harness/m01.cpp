// M01: shared ownership frees the object exactly once, after the last owner.
#include "owners.h"

static void run(pbt::Src& s, pbt::Ctx& c)
{
    owners::History(s, c, false).run();
}

static const pbt::Config cfg{"M01", run, 0, nullptr, true};
PBT_MAIN(cfg)
