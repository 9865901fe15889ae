#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "Quadrant arithmetic agrees with the geometry of the cells at every level",
 "Every comparison, ancestry, family, overlap, successor, descendant, neighbor, child/parent/sibling, common-ancestor, enlargement and linear-index operation on quadrants and octants returns exactly what the half-open boxes and their space-filling-curve order prescribe. This holds for every valid argument from the root to the deepest level, inside the root cell as well as in its surrounding 3x3(x3) neighborhood where the operation admits it, in 2D and 3D. The wide linear-index arithmetic used for deep levels behaves as unsigned integer arithmetic of its documented width.",
 ["inputs"], "all quadrants of all levels (0 to maximum), pairs of them, all directions",
 "test_quadrants samples quadrants of one small forest and never reaches levels near the maximum; predicates must hold for all pairs of quadrants.",
 ["src/p4est_bits.c", "src/p8est_bits.c", "src/p4est_bits.h", "src/p8est_bits.h"],
 [("coordinate xor / level masks for ordering and ancestry", "p4est_bits.c p4est_quadrant_compare, p4est_nearest_common_ancestor"),
  ("bit interleaving", "p4est_bits.c p4est_quadrant_linear_id, p4est_quadrant_set_morton")],
 ["return values and output quadrants of the quadrant functions"])

prop("C02", "Built-in coarse meshes are consistent and tree-to-tree transforms are exact",
 "Every coarse mesh the library can construct (named meshes and all parameterised families, including bricks of any extent and periodicity and two trees joined through any faces and orientation) is valid, describes the topology its vertices and documentation imply, and lists the complete set of face, edge and corner neighbors of every tree. The transformation of coordinates and cells from one tree into a neighboring tree across a face, edge or corner is a bijection onto the matching boundary of the neighbor, inverse to the transformation back, and agrees with the shared geometry. A boundary point seen from any of the trees that share it has one and the same canonical representative.",
 ["configurations", "inputs"], "all coarse mesh constructors with their parameters; all tree boundaries; all points and cells on them",
 "the tests build a handful of meshes and transform a few quadrants; orientation/face combinations are a product space of hundreds of cases.",
 ["src/p4est_connectivity.c", "src/p8est_connectivity.c", "src/p4est_bits.c", "src/p4est_algorithms.c"],
 [("face/edge/corner transform tables", "p4est_connectivity.c p4est_expand_face_transform, p4est_find_corner_transform; p8est_connectivity.c p8est_find_edge_transform"),
  ("brick builder", "p4est_connectivity.c p4est_connectivity_new_brick")],
 ["connectivity arrays", "neighbor transform lists", "canonicalised coordinates"])

prop("C03", "Editing or importing a coarse mesh preserves the mesh it describes",
 "Completing, reducing, copying, permuting, joining, broadcasting or sharing a coarse mesh yields a valid mesh in which exactly the requested relations hold: the same trees glued at the same faces, edges and corners up to the requested renumbering or the one added face connection. Refining a coarse mesh yields one new tree per sub-cell with the geometry and the neighbor relations of the uniformly subdivided mesh. Reading a mesh file in the supported ABAQUS subset or converting a tetrahedral mesh reproduces the elements and adjacency written in the file, and a malformed file is reported as failure instead of yielding a mesh.",
 ["inputs", "configurations"], "all built-in meshes, all permutations, joins and refinement factors within the bound, all small input files and their single-edit corruptions",
 "tests run one or two meshes through each operation; permutations, joins and file deviations are combinatorial.",
 ["src/p4est_connectivity.c", "src/p8est_connectivity.c", "src/p4est_connrefine.c", "src/p8est_tets_hexes.c"],
 [("derivation of neighbors from vertices", "p4est_connectivity.c p4est_connectivity_complete"),
  ("permutation and joining of trees", "p4est_connectivity.c p4est_connectivity_permute, p4est_connectivity_join_faces"),
  ("refinement into a new coarse mesh", "p4est_connrefine.c p4est_connectivity_refine"),
  ("ABAQUS reader", "p4est_connectivity.c p4est_connectivity_read_inp_stream")],
 ["connectivity arrays after the operation", "return value on malformed input"])

prop("C04", "Coarse mesh serialization round-trips and rejects damaged data",
 "A coarse mesh written to memory or to a file, with or without attached tree attributes, and read back is equal to the original in every array and attribute. Reading data that was truncated at any byte, that carries a damaged header, version or size, or whose contents do not describe a valid mesh reports failure rather than crashing or returning an invalid mesh, and a failing write is reported by its return value.",
 ["inputs", "fault_sequences"], "all built-in meshes with and without attributes; every truncation length; every single-byte damage; every failing write",
 "tests round-trip a few meshes and never damage the data or fail the write.",
 ["src/p4est_connectivity.c"],
 [("sink/source with magic, version and counts", "p4est_connectivity.c p4est_connectivity_sink, p4est_connectivity_source")],
 ["the connectivity read back", "NULL / nonzero return values"])

prop("C05", "Forest creation yields the documented mesh and partition on any process count",
 "A newly created forest is complete, has the requested minimum level and minimum number of elements per process, and is distributed as evenly as integer division allows; in uniform mode it consists of exactly the uniform refinement whatever the number of processes, and in non-uniform mode each process fills the range of each tree between its first and last element of that uniform refinement with the coarsest possible elements, keeping the very same partition. The initialization callback runs exactly once for each local element with the given user pointer already set, and all per-process and global counters, offsets and partition markers agree with the elements actually stored on every process, including when there are more processes than elements. The revision counter starts at zero.",
 ["inputs", "configurations"], "process counts, coarse meshes, minimum level and count, uniform flag, data sizes",
 "tests create forests for two processes and few parameters; partition arithmetic depends on the process count and on more processes than elements.",
 ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_communication.c"],
 [("initial partition arithmetic", "p4est.c p4est_new_ext"), ("partition markers", "p4est_communication.c p4est_comm_global_partition")],
 ["leaves per rank, global_first_quadrant, global_first_position, init calls"])

prop("C06", "Refinement and coarsening do exactly what the callbacks ask for",
 "After refining, the forest consists of exactly the elements that the callback answers and the maximum level imply, and after coarsening exactly those families were replaced whose members are all present on the same process and for which the callback agreed; recursive modes reach the same fixed point as applying the answers one by one. Each callback sees exactly the elements or families it is documented to see, with the right tree and element data, initialization and replacement callbacks are invoked exactly for the elements created and destroyed, and the stored data of every element that persists is unchanged. The revision counter increases by one if and only if the global mesh changed, on all processes alike, and all counters remain consistent.",
 ["inputs", "histories"], "starting forests, partitions, callback answer functions, recursion, maximum level, orphan flag, data sizes",
 "tests use one or two callback functions on fixed meshes; correctness must hold for all meshes, answers and partitions.",
 ["src/p4est.c", "src/p4est_algorithms.c"],
 [("in-place refinement with a work list", "p4est.c p4est_refine_ext"), ("family window scan", "p4est.c p4est_coarsen_ext")],
 ["leaves, user data, callback logs, revision"])

prop("C07", "Deep copies and data resets are faithful and independent of the original",
 "A copied forest has the same elements, partition and, if requested, the same element data as the original, a zero revision counter and no further connection to it: changing or destroying either leaves the other intact. Resetting the element data keeps the mesh, provides data of the new size for every element, calls the initialization callback exactly once per local element in order with the new user pointer, and leaves a forest that all further operations accept. Equality and element-data comparison of forests report true exactly for equal ones.",
 ["inputs", "histories"], "forests, partitions, old and new data sizes including zero, subsequent operations on either copy",
 "tests copy once and compare; aliasing shows only after particular later operations.",
 ["src/p4est.c", "src/p4est_algorithms.c"],
 [("deep copy", "p4est.c p4est_copy_ext"), ("data reset", "p4est.c p4est_reset_data"), ("comparison", "p4est_algorithms.c p4est_is_equal")],
 ["both forests after the operation"])

prop("C08", "Balancing yields the unique coarsest 2:1 refinement across all trees and ranks",
 "After balancing, the forest is the smallest refinement of the input in which any two leaves that touch through a face (and, as requested, an edge or a corner), within a tree or across tree boundaries of any orientation, differ by at most one level (where trees meet in an edge or corner only, the face or edge rule applies as it would in a regular arrangement of trees). The result does not depend on how the forest is partitioned, on the number of processes or on the communication variant selected; an already balanced forest is left unchanged with its data and revision untouched. Initialization and replacement callbacks run exactly for the elements created and the ones they replace, data of untouched elements persists, and each element stays on the process that owned its region.",
 ["inputs", "configurations", "schedules"], "forests, coarse meshes, balance types, partitions, process counts, communication variants",
 "tests compare a few meshes on two processes; minimality and completeness must hold for all meshes and tree couplings.",
 ["src/p4est.c", "src/p4est_balance.c", "src/p4est_algorithms.c"],
 [("balance with seeds and insulation layer queries", "p4est.c p4est_balance_ext"), ("local subtree balance", "p4est_algorithms.c p4est_balance_border, p4est_complete_or_balance"), ("balance seeds", "p4est_balance.c p4est_balance_seeds")],
 ["leaves and data per rank after balance"])

prop("C09", "Partitioning keeps the element sequence and data and meets the target counts",
 "Repartitioning changes neither the global sequence of elements nor their data, only which contiguous range each process owns; the new ranges are the equal division by count, the division of the cumulative weights reported by the callback, or exactly the counts prescribed by the caller. If coarsening is to be allowed, no complete family is split between processes and every boundary moves by less than one family from where it would otherwise be. The returned number of shipped elements equals the number that changed owner, the weight callback is called once per local element in order, and the revision counter changes exactly if the partition changed.",
 ["inputs", "configurations"], "forests, old partitions with empty processes, target counts, weights including zeros, process counts",
 "tests repartition a few forests between two processes; arithmetic depends on counts, weights and empty ranks.",
 ["src/p4est.c", "src/p4est_algorithms.c"],
 [("cut of the cumulative weights", "p4est.c p4est_partition_ext"), ("data shipping", "p4est_algorithms.c p4est_partition_given"), ("family correction", "p4est_algorithms.c p4est_partition_correction, p4est.c p4est_partition_for_coarsening")],
 ["leaves and data per rank, return value"])

prop("C10", "Partition-to-partition data transfer delivers every payload to the new owner",
 "Given any two partitions of the same number of elements, transferring fixed-size, variable-size or itemized per-element data delivers to each process exactly the bytes belonging to the elements it owns in the destination partition, in element order, for any sizes including zero and for processes that are empty before or after. Split begin/end transfers give the same result as the blocking ones whatever happens in between, and no message is left over. Looking up the process that owns an element number, or a range of them, in a partition returns the owning non-empty process.",
 ["inputs", "schedules"], "pairs of partitions, payload sizes, process counts, delivery orders",
 "the tests exercise two processes; pairs of partitions with empty ranks are a combinatorial space.",
 ["src/p4est_communication.c", "src/p4est_search.c"],
 [("overlap of old and new ranges", "p4est_communication.c p4est_transfer_fixed_begin, p4est_transfer_custom_begin"), ("binary search in the partition", "p4est_communication.c p4est_bsearch_partition; p4est_search.c p4est_find_partition")],
 ["destination buffers"])

prop("C11", "The ghost layer contains exactly the remote elements touching the local ones",
 "For every valid forest, balanced or not, the ghost layer on each process consists of exactly the leaves of other processes that touch a local leaf through a face (and, as requested, an edge or a corner), within a tree or across tree boundaries, each once, in order, with the right owner, tree and index on the owner. The mirrors are exactly the local leaves that are ghosts elsewhere, and the per-process mirror lists match the ghosts of the other side element by element. Searching the ghost layer for an element or its ancestor returns its position if it is there and a failure otherwise.",
 ["inputs", "configurations"], "forests, coarse meshes, partitions, connection types, process counts",
 "tests check self-consistency on two processes, not completeness against an independent definition over all meshes.",
 ["src/p4est_ghost.c", "src/p8est_ghost.c"],
 [("query of insulation-layer owners", "p4est_ghost.c p4est_ghost_new_check, p4est_ghost_test_add"), ("mirror bookkeeping", "p4est_ghost.c p4est_ghost_mirror_add")],
 ["ghost arrays, offsets and mirror lists on all ranks"])

prop("C12", "Ghost data exchange delivers each owner's data to every ghost copy",
 "After a ghost exchange each ghost element holds exactly the bytes its owner supplied for that element, for stored element data of any size including the pointer-sized default, for custom per-mirror data, and for exchanges restricted to a range of levels, in which data outside the range is neither read nor written. This holds for the split begin/end variants regardless of the order in which messages arrive, of send buffers supplied by the caller being reused right after the begin call, and of other exchanges in progress.",
 ["inputs", "schedules"], "forests, partitions, data sizes, level ranges, message arrival orders",
 "tests check one exchange on two processes under one schedule.",
 ["src/p4est_ghost.c"],
 [("packed per-peer buffers and non-blocking messages", "p4est_ghost.c p4est_ghost_exchange_custom_begin, p4est_ghost_exchange_custom_levels_end")],
 ["ghost data arrays"])

prop("C13", "Expanding the ghost layer adds exactly the next layer of neighbors",
 "Expanding a ghost layer of a forest adds exactly those remote leaves that touch, by the same connection type, an element already local or in the layer, at most once each and with correct owner, tree and index, and keeps the mirror lists of all processes in exact correspondence; the previous contents stay. Repeating the expansion grows the layer one adjacency step at a time until it contains every remote leaf reachable. Expanding by node support yields a layer that contains all elements on which the locally referenced nodes are supported.",
 ["inputs", "configurations"], "forests, partitions, process counts, number of expansions, connection types",
 "tests expand once on two processes; multi-step expansion needs more processes and layers.",
 ["src/p4est_ghost.c", "src/p4est_lnodes.c"],
 [("front tracking", "p4est_ghost.c p4est_ghost_expand_internal"), ("support expansion", "p4est_lnodes.c p4est_ghost_support_lnodes, p4est_ghost_expand_by_lnodes")],
 ["ghost and mirror arrays after expansion"])

prop("C14", "Mesh iteration visits every volume, face, edge and corner exactly once",
 "On a balanced forest, iteration calls the volume callback once for each local element in order, the face callback once for each face between leaves or on the boundary that touches a local leaf, the edge (3D) and corner callbacks once for each non-hanging edge or corner that touches one, and nothing else. Every callback names exactly the leaves that meet there, local or ghost, with correct tree, index, side number, hanging status, order and relative orientation, and marks missing ghosts when no layer is given. Volume callbacks precede the callbacks of the faces, edges and corners that involve them as documented, and omitting some callbacks does not change the others.",
 ["inputs", "configurations"], "balanced forests, coarse meshes, partitions, with and without ghosts, subsets of callbacks",
 "tests check a few meshes on two processes and cannot enumerate hanging and orientation configurations.",
 ["src/p4est_iterate.c"],
 [("recursive traversal with search areas", "p4est_iterate.c p4est_face_iterator, p4est_corner_iterator, p8est_edge_iterator")],
 ["callback arguments"])

prop("C15", "Node numbering is globally unique, continuous and partition independent",
 "The node numbering for any supported degree assigns to each element position a node such that two positions of different elements, on any processes, have the same global number if and only if they are the same point of the conforming finite-element space, with hanging positions referring to the nodes of the coarse neighbor. Global numbers are contiguous, each node is owned by the process of the lowest element touching it, per-process counts, offsets, sharers and nonlocal lists are consistent on all processes, and the number of nodes does not depend on the partition. The hanging-face and hanging-edge codes describe exactly the hanging configuration of each element.",
 ["inputs", "configurations"], "balanced forests, coarse meshes, degrees, partitions, process counts",
 "tests check a few meshes against geometry on two processes; sharing patterns depend on all partitions and orientations.",
 ["src/p4est_lnodes.c", "src/p4est_lnodes.h", "src/p8est_lnodes.h"],
 [("dependencies of hanging entities", "p4est_lnodes.c p4est_lnodes_face_fix, p4est_lnodes_init_data"), ("ownership and sharers", "p4est_lnodes.c p4est_lnodes_global_and_sharers")],
 ["element_nodes, nonlocal_nodes, sharers, face_code on all ranks"])

prop("C16", "Node-data sharing and node-weighted partitioning are exact",
 "Sharing owned node data overwrites every non-owned copy with the owner's value and nothing else; sharing all node data hands to each process exactly the values of each other process for the nodes both share, in the agreed order. Both hold for arbitrary value sizes, for split begin/end use and under any arrival order of the messages. Partitioning by node counts keeps the elements and their data and distributes them by the weight of the nodes each element owns.",
 ["inputs", "schedules"], "node numberings, value sizes, partitions, message arrival orders",
 "tests run one exchange under one schedule on two processes.",
 ["src/p4est_lnodes.c"],
 [("sharer buffers", "p4est_lnodes.c p4est_lnodes_share_owned_begin, p4est_lnodes_share_all_begin"), ("weights from node ownership", "p4est_lnodes.c p4est_partition_lnodes")],
 ["node data arrays and receive buffers"])

prop("C17", "Corner-node numbering identifies each independent corner once across processes",
 "The corner-node structure of a balanced forest lists each distinct corner point of the local elements once, classifies it as independent or as hanging on a face or an edge with exactly the independent corners it depends on, and maps every element corner to it. Two processes that share a point agree on its owner and global number, owned nodes are numbered contiguously in the documented order, and sharer lists name exactly the processes that reference a node.",
 ["inputs", "configurations"], "balanced forests, coarse meshes, partitions, with and without a ghost layer",
 "tests check counts on few meshes for two processes.",
 ["src/p4est_nodes.c"],
 [("hash of canonical nodes and owner negotiation", "p4est_nodes.c p4est_nodes_new, p4est_node_canonicalize")],
 ["nodes arrays on all ranks"])

prop("C18", "Mesh neighbor tables list exactly the adjacent elements",
 "The mesh tables and the neighbor iterator built from a balanced forest and its ghost layer list, for every local element and each of its faces, edges and corners, exactly the elements adjacent there (same size, double size or half size, local or ghost) with the documented codes for neighbor side, orientation and subface, and mark domain boundaries. The relation is symmetric between elements and between processes, and the tree, level and owner lists index exactly the corresponding elements.",
 ["inputs", "configurations"], "balanced forests, coarse meshes, partitions, connection types",
 "tests check bijectivity on few meshes; all orientation codes and hanging cases are a product space.",
 ["src/p4est_mesh.c"],
 [("tables filled by mesh iteration", "p4est_mesh.c mesh_iter_face, mesh_iter_corner, mesh_iter_edge"), ("neighbor lookup", "p4est_mesh.c p4est_mesh_get_neighbors, p4est_mesh_face_neighbor_next")],
 ["mesh arrays, iterator results"])

prop("C19", "Top-down searches visit exactly the relevant branches, leaves and processes",
 "A local search visits every local leaf not excluded by a callback exactly once and only ancestors of local leaves, passing exactly the points that matched all the way down; a partition search visits exactly the branches split between processes with the true range of non-empty owners, identically on all processes and without communication; the combined search does both at once. Pre- and post-callbacks, reordering and level skipping occur as documented, each leaf is given with its correct local number, and pruning one branch or point never affects another.",
 ["inputs", "configurations"], "forests, partitions with empty processes, point sets, pruning answers, search options",
 "tests run few searches on one mesh; recursion corner cases depend on how the partition cuts branches.",
 ["src/p4est_search.c"],
 [("array splitting recursion", "p4est_search.c p4est_local_recursion, p4est_partition_recursion, p4est_all_recursion, p4est_reorder_recursion")],
 ["callback sequences"])

prop("C20", "Ownership and position lookups return the true owner and position",
 "For every cell of the domain, queried inside its tree or across a tree boundary where allowed, the owner lookup returns the process holding its first descendant, containment and emptiness queries agree with the actual partition, and existence queries find a local or ghost leaf exactly if it exists, with the right owner, index and hanging code. Bound searches in sorted leaf arrays return the documented lowest or highest position for every target, and cumulative-number and per-tree counts refer to the right leaves.",
 ["inputs", "configurations"], "forests, partitions with empty processes, all query cells of all levels, all guesses",
 "tests query existing elements on two processes; lookups must be right for every cell, level and guess.",
 ["src/p4est_search.c", "src/p4est_communication.c", "src/p4est_ghost.c", "src/p4est_algorithms.c"],
 [("binary search over partition markers", "p4est_communication.c p4est_comm_find_owner, p4est_comm_is_owner"), ("bounds in leaf arrays", "p4est_search.c p4est_find_lower_bound, p4est_find_higher_bound"), ("existence", "p4est_ghost.c p4est_quadrant_exists, p4est_face_quadrant_exists")],
 ["return values"])

prop("C21", "Validity, balance and checksum queries tell the truth on every process",
 "The validity check accepts every well-formed forest and rejects, on every process, a forest in which any process holds leaves that overlap, leave a gap, are out of order or disagree with the stored counters and markers. The balance query returns true exactly if all touching leaves differ by at most one level across the whole forest. The forest checksum is the same for the same mesh on any number of processes and any partition, the partition checksum additionally depends on the partition only, and both change for a different mesh within the tested space.",
 ["inputs", "configurations"], "forests, single damages to them, partitions, process counts",
 "tests check valid forests only; they never confront the predicates with damaged ones or many partitions.",
 ["src/p4est_algorithms.c", "src/p4est_ghost.c", "src/p4est.c", "src/p4est_communication.c"],
 [("validity scan", "p4est_algorithms.c p4est_is_valid, p4est_tree_is_complete"), ("balance scan", "p4est_ghost.c p4est_is_balanced_ext"), ("combined adler checksum", "p4est_communication.c p4est_comm_checksum")],
 ["return values on all ranks"])

prop("C22", "Saved forests are restored exactly on any number of processes",
 "A forest that is saved and loaded has the same coarse mesh, elements and, if saved and requested, element data, on the same partition when it was stored and the process count matches and otherwise on an equal partition, whether each process reads the header or one broadcasts it. A file saved without partition depends on nothing but the mesh and data: its bytes are the same for every process count, partition and history. Converting the forest to flat arrays and back reproduces it as well, and truncated files and files whose contents do not describe a valid forest never produce one.",
 ["inputs", "configurations", "fault_sequences"], "forests, data sizes, partitions on save, process counts on load, flag combinations, truncations",
 "tests save and load with one process count; cross-count and damage cases are not covered.",
 ["src/p4est.c", "src/p4est_io.c"],
 [("file layout and offset arithmetic", "p4est.c p4est_save_ext, p4est_source_ext"), ("flat arrays", "p4est_io.c p4est_deflate_quadrants, p4est_inflate")],
 ["loaded forest, file bytes"])

prop("C23", "The mark-adapt-partition wrapper applies the marks and tracks the mesh",
 "Over any sequence of marking, adapting, partitioning and completing, the wrapped forest equals the result of refining the marked elements, coarsening the fully marked families subject to the configured delays, and balancing; return values tell the truth about change on all processes, and stored ghost and mesh objects always describe the current forest. The lists of newly refined and coarsened elements, the unchanged range reported by partitioning and the leaf iterator with its mirror flags match the actual change.",
 ["histories", "configurations"], "sequences of marks and calls, coarsen delays, partitions, process counts",
 "tests run one scripted loop; behaviour depends on the history of marks.",
 ["src/p4est_wrap.c"],
 [("flag transport through adaptation", "p4est_wrap.c p4est_wrap_adapt, coarsen_callback, replace_on_refine"), ("unchanged window", "p4est_wrap.c p4est_wrap_partition")],
 ["wrapped forest, flags, return values"])

prop("C24", "Building forests from cell lists, points or subsets gives the minimal forest",
 "Building a forest from a sequence of cells added in order yields a complete forest on the same partition that contains every added cell as a leaf and is as coarse as possible elsewhere, with callbacks run exactly for the created leaves. Creating a forest from scattered points yields, on any number of processes, a complete forest that respects the requested maximum level and number of points per element.",
 ["inputs", "configurations"], "forests and all subsets of their cells, point sets, limits, partitions, process counts",
 "tests build one pattern; correctness must hold for all subsets and cuts.",
 ["src/p4est_build.c", "src/p4est_points.c", "src/p4est_algorithms.c"],
 [("incremental completion", "p4est_build.c p4est_build_add, p4est_build_complete"), ("point sorting and refinement", "p4est_points.c p4est_new_points"), ("region completion", "p4est_algorithms.c p4est_complete_region")],
 ["leaves per rank"])

prop("C25", "Parallel results do not depend on message timing and never deadlock",
 "For every parallel operation, every order in which processes run and messages arrive or complete, with or without buffering of sends, leads to the same result on every process, terminates, leaves no message undelivered and matches all collective calls. Buffers handed to pending messages are neither modified nor read before completion.",
 ["schedules"], "rank interleavings, matchings of wildcard receives, completion orders, buffering modes",
 "a test run observes one timing of two processes.",
 ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_ghost.c", "src/p4est_lnodes.c", "src/p4est_nodes.c", "src/p4est_communication.c", "src/p6est.c"],
 [("non-blocking point-to-point with fixed tags", "p4est_ghost.c p4est_ghost_new_check; p4est.c p4est_balance_ext; p4est_algorithms.c p4est_partition_given")],
 ["results on all ranks under the controlled scheduler"])

prop("C26", "Every object frees what it allocated, and reduced communicators stay usable",
 "After any sequence of operations, destroying the objects involved returns all memory, communicators, requests and other message resources on every process; no operation reads or writes outside the objects it is given. Restricting a forest to its non-empty processes, optionally keeping given ones first or last, yields on exactly the remaining processes a valid forest with the same elements and data in the same order and the reported rank map, on which all operations continue to work, and leaves nothing behind on the others.",
 ["histories", "configurations"], "operation sequences, partitions with empty processes, groups to keep",
 "tests check the memory balance of one scripted run and reduce few partitions.",
 ["src/p4est.c", "src/p4est_communication.c", "src/p6est.c", "src/p6est_communication.c"],
 [("owned communicator flag", "p4est_communication.c p4est_comm_parallel_env_release"), ("reduction to non-empty ranks", "p4est_communication.c p4est_comm_parallel_env_reduce_ext")],
 ["allocation and handle counts after destroy", "forest on the reduced communicator"])

prop("C27", "Extruded 2D+1D forests adapt, balance and repartition columns exactly",
 "Creating, horizontally or vertically refining or coarsening, balancing, partitioning, copying and saving/loading an extruded forest yields exactly the columns and layers implied by the callback answers, with complete columns on a single process, complete sorted layers in every column and correct counters and data on every process. Balancing yields the coarsest refinement in which columns that touch (or share a hanging point of the column mesh) and their touching layers differ by at most one level in each direction, independent of the partition; partitioning never splits a column and follows the layer counts or weights; checksums depend on the mesh only.",
 ["inputs", "configurations", "histories"], "column forests, layer patterns, partitions, callback answers, process counts",
 "one test runs a scripted sequence on two processes.",
 ["src/p6est.c", "src/p6est_profile.c"],
 [("column and layer callbacks", "p6est.c p6est_refine_columns_ext, p6est_refine_layers_ext, p6est_coarsen_columns_ext, p6est_coarsen_layers_ext"), ("profile balance", "p6est_profile.c p6est_profile_balance_local, p6est_profile_sync"), ("partition correction to columns", "p6est.c p6est_partition_ext")],
 ["columns, layers and data per rank"])

prop("C28", "Extruded ghost layers and node numberings are complete and consistent",
 "The ghost layer of an extruded forest holds exactly the remote layers in columns adjacent to local ones that the library promises, with correct owner and index, and mirrors match across processes. The extruded node numbering assigns equal global numbers to two element positions if and only if they are the same point of the conforming space, with contiguous ownership, correct hanging codes and consistent sharers on every process.",
 ["inputs", "configurations"], "balanced extruded forests, partitions, degrees, process counts",
 "one test constructs them on two processes without an independent oracle.",
 ["src/p6est_ghost.c", "src/p6est_lnodes.c", "src/p6est_profile.c"],
 [("ghost columns", "p6est_ghost.c p6est_ghost_new"), ("node columns", "p6est_lnodes.c p6est_lnodes_new")],
 ["ghost and lnodes arrays"])

prop("C29", "Physical coordinates and visualization files describe the actual mesh",
 "The mapping of element coordinates to physical space is the documented multilinear or built-in analytic map, continuous across tree and element boundaries, so that any point shared by several trees or elements has one physical position up to rounding. Node coordinate tables list for each element corner or node its true position. Visualization output contains every element of every process exactly once with its true corner coordinates, tree, level and rank and the caller's point and cell values, in well-formed files.",
 ["inputs", "configurations"], "forests, geometries, partitions, output options",
 "tests write files without reading them back.",
 ["src/p4est_geometry.c", "src/p8est_geometry.c", "src/p4est_vtk.c", "src/p4est.c"],
 [("multilinear map", "p4est_geometry.c p4est_geometry_connectivity_X"), ("file writer", "p4est_vtk.c p4est_vtk_write_header_dummy")],
 ["coordinates, files"])

prop("C30", "Exported cone/tree graphs describe the mesh with its hanging structure",
 "The exported graph of cells, faces, edges and vertices lists, for each local and overlap cell, its boundary points with orientations such that adjacent cells share the same points, hanging points name the parent point and child position they are part of, coordinates are those of the mesh vertices, and each remote point is mapped to its owner's number. The numbering covers each dimension as a contiguous range and is consistent across processes.",
 ["inputs", "configurations"], "balanced forests, coarse meshes, overlaps, partitions",
 "the tests run a few meshes and print the arrays without an oracle.",
 ["src/p4est_plex.c"],
 [("graph derived from lnodes and ghosts", "p4est_plex.c p4est_get_plex_data_int")],
 ["output arrays on all ranks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
