// Instantiates the parts of /repo that no application instantiates.
#include <memory>
#include <vector>
#include "algorithms/flow/excess_scaling.h"
#include "algorithms/flow/push_relabel.h"
#include "algorithms/flow/unit_flow.h"
#include "algorithms/global_mincut/algorithms.h"
#include "algorithms/global_mincut/stoer_wagner_minimum_cut.h"
#include "algorithms/misc/core_decomposition.h"
#include "algorithms/misc/equal_neighborhood.h"
#include "algorithms/misc/find_bridges.h"
#include "algorithms/misc/graph_algorithms.h"
#include "algorithms/misc/maximal_clique.h"
#include "algorithms/misc/strongly_connected_components.h"
#include "data_structure/adjlist_graph.h"
#include "data_structure/flow_graph.h"
#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"
#include "data_structure/priority_queues/bucket_pq.h"
#include "data_structure/priority_queues/fifo_node_bucket_pq.h"
#include "data_structure/priority_queues/maxNodeHeap.h"
#include "data_structure/priority_queues/node_bucket_pq.h"
#include "data_structure/priority_queues/vecMaxNodeHeap.h"
#include "io/graph_io.h"
#include "tools/graph_extractor.h"
#include "tools/quality_metrics.h"
#include "tools/random_functions.h"
#include "tools/string.h"
#include "tools/vector.h"

template class noi_minimum_cut<graphAccessPtr>;
template class noi_minimum_cut<mutableGraphPtr>;
template class viecut<graphAccessPtr>;
template class viecut<mutableGraphPtr>;
template class push_relabel<false, false>;
template class push_relabel<true, false>;
template class push_relabel<false, true>;
template class push_relabel<true, true>;

void vc_driver() {
    random_functions rf;
    std::vector<NodeID> v;
    random_functions::permutate_vector_good(&v, true);
    random_functions::permutate_vector_local(&v, true);
    graph_io gio;
    (void)gio.readGraphWeighted("");
    (void)graph_io::readGraphWeighted<mutable_graph>("");
    (void)graph_io::readVector<NodeID>("");
    gio.writeVector(v, "");
}
