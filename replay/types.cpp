// C19 needs no inputs: every case is evaluated.
#include "harness.h"
#include "../drivers/types.cpp"
using namespace hz;
static void all()
{
#undef BITS
#undef BYTES
#undef NB
#undef SS
    struct Row { const char *name; long got, want; bool mask; };
    static const std::vector<Row> rows = {
#include "types_rows.inc"
    };
    for (auto &r : rows) { desc("%s", r.name); if (r.mask ? !(r.got & r.want) : r.got != r.want) fail("got %ld, expected %ld", r.got, r.want); }
}
int main(int argc, char **argv) { return run(argc, argv, {{"types", all}}); }
