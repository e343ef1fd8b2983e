// M04: a weak reference does not keep its object alive.
#include "owners.h"

static void run(pbt::Src& s, pbt::Ctx& c)
{
    owners::History(s, c, true).run();
}

static const pbt::Config cfg{"M04", run, 0, nullptr, true};
PBT_MAIN(cfg)
