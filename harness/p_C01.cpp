// C01: the decoder against the reference interpretation of generated streams.
#include "hist.h"
using namespace vf;
static void one(Ctx &c) {
  GenCfg cfg; Rng &r = c.rng;
  cfg.many_pmap = r.chance(10);
  Schema sc = r.chance(3) ? matrix_schema(r) : make_schema(r, cfg);
  decode_history(c, sc, HistCfg());
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
