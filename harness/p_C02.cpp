// C02: streams produced by the encoder, interpreted by the reference decoder.
#include "hist.h"
using namespace vf;
static void one(Ctx &c) {
  GenCfg cfg; Rng &r = c.rng;
  cfg.many_pmap = r.chance(10);
  Schema sc = r.chance(3) ? matrix_schema(r) : make_schema(r, cfg);
  HistCfg h; h.report_known = true; h.reset_pct = 5;
  encode_history(c, sc, h);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
