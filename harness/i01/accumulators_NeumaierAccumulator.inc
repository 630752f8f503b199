#include "accs.inc"
static void use(std::ostream& o) { use_acc<bwsl::accumulators::NeumaierAccumulator>(o); }
