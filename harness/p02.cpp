#include "graph_world.h"
MC_BODY(histories_with_marks) { graph_tree(c, ITER, 2, c.thorough() ? 5 : 4, true); }
MC_BODY(histories) { graph_tree(c, ITER, 1, c.thorough() ? 7 : 5, false); }
MC_BODY(merged_histories) { graph_merged(c, ITER, 3, c.thorough() ? 5 : 4, c.thorough() ? 11 : 8); }
MC_BODY(subsets) { graph_subsets(c, ITER, c.thorough() ? 13 : 8); }
MC_BODY(growth) { graph_growth(c, ITER, 200); }
