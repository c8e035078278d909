#!/usr/bin/env python3
"""The properties; `python3 lib/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
def P(pid, title, statement, over, text, why, files, state, mech, observe, note):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, state=state,
                      mech=mech, observe=observe, note=note))

S = "src/t8_schemes/"
SCH = [S + "t8_default", S + "t8_standalone", S + "t8_scheme.hxx"]
EVERY_ELEM = ("every element (any class, any level up to the maximum, any position in its tree) of both the default and the "
              "standalone scheme")
SCHWHY = ("The unit tests walk uniformly refined trees of a few levels (test level 0 in the build); the shapes have up to 30 "
          "levels, six tetrahedron types, mixed pyramid/tetrahedron types, and 8^21 elements per tree, so any table entry or "
          "level-dependent shift that is wrong only deep in the tree or for one type combination is out of their reach.")
SCHNOTE = ("TLA+ specification of all schemes on paths and integer geometry (no implementation tables), model-checked in itself "
           "to level 2-3; all elements of the real schemes to level 2-4 and seeded deep elements at every level are compared with it by TLC.")

P("C01", "Refinement forms a consistent hierarchy of elements",
  "For every element, its children are pairwise different, cover it exactly, come in curve order and have it as their parent; level, "
  "child number, sibling and ancestor queries agree with the refinement path from the root, and an element at the maximum level is "
  "not refinable, which for every class is at least level 18. A list of elements is recognised as a family exactly if it is the ordered list of all children of one element.",
  ["inputs"], EVERY_ELEM, SCHWHY, SCH, ["element = path of child numbers from the root"],
  [("parent/child/sibling/family", S + "t8_default/*/t8_d*_bits.c"), ("standalone hierarchy", S + "t8_standalone/t8_standalone_implementation.hxx")],
  ["element_get_parent, element_get_child(ren), element_get_sibling, element_get_child_id, elements_are_family"], SCHNOTE)
P("C02", "Linear ids, order and successor agree with the space-filling curve",
  "For every element and level, the linear id, construction from an id, comparison, equality, successor, first and last descendant, "
  "number of leaves, ancestor test and nearest common ancestor all agree with one total order: the pre-order of the refinement tree.",
  ["inputs"], "every pair of elements and every admissible level, " + EVERY_ELEM, SCHWHY, SCH, ["path", "linear id (64 bit)"],
  [("linear id", S + "t8_default/*/t8_d*_bits.c"), ("count of leaves", S + "t8_default/t8_default_common")],
  ["element_get_linear_id, element_set_linear_id, element_compare, element_construct_successor, element_get_nca, element_count_leaves"], SCHNOTE)
P("C03", "Face neighbours inside a tree are the geometric ones and symmetric",
  "For every element and face, the face neighbour inside the tree is exactly the element of the same level that shares that face, with "
  "the face number under which it sees it; there is none exactly if the face lies on the boundary of the tree.",
  ["inputs"], "every face of " + EVERY_ELEM, SCHWHY, SCH, ["path, face"],
  [("face neighbour inside", S + "t8_default/*/t8_d*_bits.c")], ["element_get_face_neighbor_inside, element_is_root_boundary"], SCHNOTE)
P("C04", "The face hierarchy is consistent with the element hierarchy",
  "For every element and face, the children at the face, their faces, the parent's face, the tree face, the face shape, the corners of "
  "the face (in the documented order) and the first and last descendants at the face are exactly those whose corner points lie in the "
  "face, and the faces around each corner exactly those that contain it.",
  ["inputs"], "every face of " + EVERY_ELEM, SCHWHY, SCH, ["path, face"],
  [("face children / face parent", S + "t8_default/*/t8_d*_bits.c"), ("standalone faces", S + "t8_standalone/t8_standalone_implementation.hxx")],
  ["element_get_children_at_face, element_face_get_child_face, element_face_get_parent_face, element_get_tree_face, "
   "element_get_first/last_descendant_face, element_get_face_shape, element_get_face_corner"], SCHNOTE)
P("C05", "Tree-boundary elements are mapped and re-oriented consistently",
  "For every element at a tree face, the boundary element of the face class is the trace of the element on that face and extruding it "
  "gives the element back with the same face. Re-orienting a face element between two trees is the point map that the documented "
  "tree-connection orientation prescribes, for every orientation, sign and relative size of the faces.",
  ["inputs", "configurations"], "every tree face of " + EVERY_ELEM + ", every orientation", SCHWHY, SCH, ["path, tree face, orientation"],
  [("boundary face / extrude / transform", S + "t8_default/*/t8_default_*.cxx")],
  ["element_get_boundary_face, element_extrude_face, element_transform_face"], SCHNOTE)
P("C06", "Reference coordinates of elements are exact",
  "The corner points of every element in the reference tree are the ones its refinement path defines, and mapping any point of the "
  "reference shape into the element is the affine (for pyramids: the scheme's) map onto those corners.",
  ["inputs"], EVERY_ELEM + " and every reference point", SCHWHY, SCH, ["path, reference point"],
  [("reference coordinates", S + "t8_default/*/t8_d*_bits.c")], ["element_get_vertex_reference_coords, element_get_reference_coords"], SCHNOTE)
P("C07", "Packing, copying and equality of elements lose nothing",
  "Any list of elements that is packed for sending and unpacked elsewhere, or copied, comes back equal in every observable respect and "
  "within the announced buffer size, at any buffer position; equality holds exactly for the same element.",
  ["inputs"], "every list of elements of " + EVERY_ELEM, SCHWHY, SCH, ["list of paths, buffer"],
  [("MPI pack/unpack", S + "t8_default/*/t8_default_*.cxx")], ["element_MPI_Pack, element_MPI_Unpack, element_MPI_Pack_size, element_copy, element_is_equal"], SCHNOTE)

F = "src/t8_forest/"
HIST = ("every history of collective operations, every coarse mesh (mixed classes, any face connections and orientations, replicated or "
        "partitioned), every number of processes, including processes without elements")
FWHY = ("The forest library is not even built by the test suite of this sandbox; upstream tests sample a few fixed meshes, uniform levels "
        "and hand-written adapt rules. The guarantee is about all meshes, orientations, process counts and operation histories.")
FNOTE = ("TLA+ specification of the distributed forest (leaves, owners, collective operations as actions), small instances model-checked; "
         "random multi-process histories of the real library (np 1-6) are validated step by step against it by TLC.")
def FP(pid, title, statement, mech, observe, text=HIST, why=FWHY, over=("histories", "inputs", "configurations"), note=FNOTE):
    P(pid, title, statement, list(over), text, why, sorted({w for _, w in mech}), ["mesh (classes, face connections)", "parts: leaves per process, in curve order"],
      mech, observe, note)

FP("C10", "A new uniform forest has all elements of the level, evenly distributed",
   "A new forest of a given level has, over all processes and in curve order, exactly all descendants of that level of all trees; the "
   "numbers of elements of any two processes differ by at most one. Each process reports its local trees, offsets, and global counts "
   "consistently, and any access by index returns the element at that position.",
   [("uniform construction", F + "t8_forest.cxx"), ("uniform bounds", "src/t8_cmesh/t8_cmesh.cxx"), ("bounds on a partitioned mesh", "src/t8_cmesh/t8_cmesh_partition.cxx")],
   ["t8_forest_new_uniform, element/tree accessors of every process"])
FP("C11", "Adaptation does exactly what the callback decided",
   "Adapting offers every leaf, in order, to the callback exactly once, as a family exactly if all siblings are local leaves; afterwards the "
   "leaves are exactly the old ones with refined leaves replaced by their children, coarsened families by their parent, and removed leaves gone. "
   "The result covers the domain without overlap if nothing was removed, stays on the same process in curve order, and a leaf at the maximum level is kept.",
   [("adapt", F + "t8_forest_adapt.cxx"), ("commit", F + "t8_forest.cxx")], ["t8_forest_set_adapt + commit, callback arguments, leaves"])
FP("C12", "Recursive adaptation terminates with a consistent forest",
   "Recursive adaptation offers every refined child again, and every complete family that arises from coarsening, and never offers an element that "
   "came from refinement for coarsening; the leaves afterwards are exactly what these decisions yield. No element is lost or duplicated, also "
   "when refinement is requested at the maximum level.",
   [("recursive adapt", F + "t8_forest_adapt.cxx")], ["t8_forest_set_adapt(recursive) + commit, callback arguments, leaves"])
FP("C13", "Partitioning moves leaves but never changes them",
   "Repartitioning keeps the global sequence of leaves unchanged and gives each process a contiguous part of it: equal counts up to one by default, the "
   "given offsets if the caller sets them, and with weights boundaries such that the accumulated weight in front of each is at most its share and would reach it with "
   "one more leaf.",
   [("partition", F + "t8_forest_partition.cxx"), ("weighted partition", F + "t8_forest_partition.cxx")],
   ["t8_forest_set_partition(_weight_function, _offset) + commit, leaves of every process"])
FP("C14", "Partition for coarsening never splits a family",
   "With the coarsening option, no family of leaves is split between processes after repartitioning; a boundary moves only if it would split a family, and then "
   "only to an end of that family. Nothing else differs from the ordinary partition, also for weights or given offsets and for processes without elements.",
   [("partition for coarsening", F + "t8_forest_partition_for_coarsening.cxx"), ("helpers", F + "t8_forest_pfc_helper.cxx")],
   ["t8_forest_set_partition(set_for_coarsening) + commit"])
FP("C15", "Element data moves with its element when a forest is repartitioned",
   "After moving per-element data from a forest to its repartitioned version, every process holds for each of its leaves exactly the data of that "
   "leaf, for any data size, and whatever processes become empty or non-empty; gathering a forest puts all leaves on the chosen process.",
   [("partition data", F + "t8_forest_partition.cxx"), ("gather", F + "t8_forest.cxx")], ["t8_forest_partition_data, t8_forest_new_gather"])
FP("C16", "Balancing yields the smallest 2:1 balanced refinement",
   "After balancing, no leaf differs by more than one level from a leaf across any of its faces, including across trees with any orientation and across processes; "
   "the leaves are exactly the coarsest such refinement of the input. The balance test agrees, leaves stay on their process without repartitioning, and are evenly "
   "distributed with it.",
   [("balance", F + "t8_forest_balance.cxx"), ("half face neighbours", F + "t8_forest.cxx")], ["t8_forest_set_balance + commit, t8_forest_is_balanced"])
FP("C17", "The ghost layer is exactly the set of remote face neighbours",
   "The ghost layer of a process holds exactly the leaves of other processes that share a face with one of its own leaves (also across trees, and for leaves of different levels), each once and in "
   "curve order; trees, offsets and owners of the ghosts are reported consistently. All ghost algorithms that apply to a forest give the same layer.",
   [("ghost", F + "t8_forest_ghost.cxx"), ("owners at face", F + "t8_forest.cxx")], ["t8_forest_set_ghost(_ext) + commit, ghost accessors"])
FP("C18", "Ghost data exchange delivers every ghost its owner's value",
   "After exchanging ghost data, the entry of every ghost holds exactly the value its owner stored for that leaf, for any data size, and local entries are unchanged.",
   [("ghost exchange", F + "t8_forest_ghost.cxx")], ["t8_forest_ghost_exchange_data"])
FP("C19", "Leaf face neighbours are complete, correct and symmetric",
   "For every local or ghost leaf and face, the reported neighbour leaves are exactly the local and ghost leaves on the other side of that face, each once, with the face by which they touch it, "
   "their index, class, tree and the orientation of the connection; at the domain boundary there are none.",
   [("leaf face neighbours", F + "t8_forest.cxx"), ("search leaf arrays", F + "t8_forest_iterate.cxx")], ["t8_forest_leaf_face_neighbors, t8_forest_leaf_face_neighbors_ext"])
FP("C20", "Owner and neighbour queries for arbitrary elements are exact",
   "For any element of any tree (leaf or not), the owner query returns the process that holds its first leaf, the owners-at-face queries return exactly the processes that hold leaves at that "
   "face or across it, and the same-size and half-size neighbours across trees are the geometric ones under the connection's orientation. Leaf and descendant tests agree with the actual leaves.",
   [("find owner", F + "t8_forest.cxx"), ("element face neighbour", F + "t8_forest.cxx"), ("leaf tests", F + "t8_forest_private.cxx")],
   ["t8_forest_element_find_owner, t8_forest_element_owners_at_face, t8_forest_element_face_neighbor, t8_forest_element_half_face_neighbors, t8_forest_element_has_leaf_desc"])
FP("C21", "Search and face iteration visit exactly the relevant elements",
   "A search visits, in curve order and once each, the elements that contain local leaves and no element below one that was rejected, with the correct leaves and index; with queries, each query is reported for exactly the leaves "
   "that match it, also for batched queries. Iterating over a face of an element visits exactly the leaves that touch the face.",
   [("search", F + "t8_forest_search/t8_forest_search.cxx"), ("iterate", F + "t8_forest_iterate.cxx")], ["t8_search, t8_search_with_queries, t8_search_with_batched_queries, t8_forest_iterate_faces"])
FP("C22", "Comparing a forest with its adapted version maps every leaf exactly",
   "Iterating over an adapted forest and its origin reports every old leaf and every new leaf exactly once, with refine, coarsen, keep or remove classified correctly and the right "
   "indices and counts of old and new leaves.",
   [("iterate replace", F + "t8_forest_iterate.cxx")], ["t8_forest_iterate_replace"])
FP("C23", "Combined operations equal their sequence; copies are equal",
   "Committing adapt, partition, balance and ghost together yields the same forest as doing them one after the other in that order; a copy has exactly the leaves, distribution and counts of its origin; and the "
   "equality test tells equal from different forests on every process.",
   [("commit", F + "t8_forest.cxx"), ("copy", F + "t8_forest.cxx")], ["t8_forest_commit with several set_ calls, t8_forest_set_copy, t8_forest_is_equal"])
FP("C24", "Memory and references are returned after any history",
   "After any sequence of forest operations and the release of the last reference, all memory obtained for forests, coarse meshes and ghosts has been returned, on every process.",
   [("forest destruction", F + "t8_forest.cxx"), ("ghost destruction", F + "t8_forest_ghost.cxx"), ("cmesh destruction", "src/t8_cmesh/t8_cmesh.cxx")],
   ["t8_forest_ref/unref, the library's own memory balance"])

H = "mesh_handle/"
FP("C40", "The mesh handle shows and changes exactly the forest below it",
   "Every element of a mesh handle, own or ghost, iterated or accessed by index, reports the tree, level, shape, numbers and shapes of faces and corners, position and ghost flag of the corresponding leaf, and the same values "
   "with and without cached quantities, before and after any change; its face neighbours are exactly the known leaves across that face with their dual faces. Adapting, partitioning, balancing and adding ghosts through the handle "
   "changes the leaves as the forest operations would; the adapt callback sees every family and leaf as it is; element data set on the handle is that of the right element and is exchanged to the ghosts.",
   [("mesh", H + "mesh.hxx"), ("element", H + "element.hxx"), ("competences", H + "competences/"), ("data", H + "competences/element_data_competences.hxx"), ("adapt", H + "internal/adapt.hxx")],
   ["t8_mesh_handle::mesh, t8_mesh_handle::element, the cache and data competences"])
FP("C41", "The face list of a mesh handle holds every face of the balanced mesh once",
   "For every balanced mesh with ghosts, each face of an own element is in exactly one entry of the unique face list: boundary, conformal between two elements (or an element and itself), or mortar with the coarse element first and "
   "all known fine ones; its kind (local or across processes), orientation, owners of the sides and the index from element and face to the entry are correct; elements' ranks are those of their owners.",
   [("face list", H + "competences/dg_competences.hxx")], ["fill_rank_vector, fill_unique_face_vector, get_element_face_vector, get_unique_face_vector"])

# ------------------------------------------------------------------ coarse meshes
CM = "src/t8_cmesh/t8_cmesh_internal/"
CMWHY = ("The unit tests use a few generated meshes, mostly one process, and attributes on every tree. What breaks depends on the combination of "
         "connections, orientations, missing or repeated attributes of any size, shared and empty partition ranges, number of processes and on which operations came before.")
CMNOTE = ("TLA+ specification of coarse meshes (connections, attributes, partition tables, repartition protocol); tables and the protocol are model-checked "
          "exhaustively for small sizes; seeded histories of real multi-process coarse meshes are validated against it by TLC.")
def CP(pid, title, statement, mech, observe, text=None):
    P(pid, title, statement, ["inputs", "configurations", "histories"], text or "every coarse mesh (classes, connections, orientations, attributes), every number of processes, every partition and every sequence of operations",
      CMWHY, ["src/t8_cmesh/t8_cmesh.h"] + sorted({b for _, b in mech}), ["mesh: trees, joins, attributes, geometries", "table: trees of each process"], mech, observe, CMNOTE)
CP("C30", "Partition tables of coarse meshes are read and combined correctly",
   "For every valid partition table, with empty processes and trees shared by consecutive processes, the queries for first and last tree, number of trees, emptiness, owners of a tree, neighbouring non-empty processes and consistency agree with "
   "the sets of trees it describes. For every pair of tables, the send and receive queries describe a plan in which each process obtains each tree it needs from exactly one sender that has it, keeping its own.",
   [("offset tables", CM + "t8_cmesh_offset.c"), ("shared arrays", "src/t8_data/t8_shmem.c")], ["t8_offset_* functions"],
   "every partition table of any number of trees and processes, every pair of tables")
CP("C31", "A committed coarse mesh is exactly the mesh that was described",
   "In whatever order trees, face connections, attributes, vertices and geometries are set, and whether every process describes the whole mesh or only the part it needs, the committed mesh has on each process exactly "
   "its local trees and their face-neighbour ghosts, with the described classes, neighbours, faces, orientations, attributes (the last value set), geometries and local and global numbering.",
   [("commit", CM + "t8_cmesh_commit.cxx"), ("stash", CM + "t8_cmesh_stash.c"), ("tree storage", CM + "t8_cmesh_trees.cxx")],
   ["t8_cmesh_set_* + commit, t8_cmesh_get_face_neighbor, t8_cmesh_get_attribute, t8_cmesh_get_local_id, t8_cmesh_get_global_id"])
CP("C32", "Repartitioning a coarse mesh preserves it and follows the table",
   "After repartitioning by any table (given, uniform, random, concentrated, half), from a replicated or partitioned mesh and any number of times, each process has exactly the trees of the new table and their ghosts, with unchanged classes, "
   "neighbours, faces, orientations, attributes, geometries and numbering.",
   [("partition", CM + "t8_cmesh_partition.cxx"), ("offsets", CM + "t8_cmesh_offset.c"), ("tree storage", CM + "t8_cmesh_trees.cxx")],
   ["t8_cmesh_set_derive + t8_cmesh_set_partition_offsets/uniform + commit, t8_cmesh_offset_concentrate/random/half"])
CP("C33", "Copies, broadcasts and comparisons of coarse meshes are exact",
   "A copy of a coarse mesh, replicated or partitioned, and a mesh broadcast from any process are the same mesh in every query; the equality test tells meshes that differ in a connection, an orientation, an attribute value or key or a "
   "geometry from equal ones; and after the last reference is released all memory has been returned.",
   [("copy", CM + "t8_cmesh_copy.cxx"), ("broadcast, equality, destruction", "src/t8_cmesh/t8_cmesh.cxx"), ("stash broadcast", CM + "t8_cmesh_stash.c"), ("tree equality", CM + "t8_cmesh_trees.cxx")],
   ["t8_cmesh_set_derive + commit, t8_cmesh_bcast, t8_cmesh_is_equal, t8_cmesh_destroy"])
CP("C34", "Uniform bounds split the elements of a coarse mesh evenly",
   "For every level, mesh and number of processes, the bounds for a uniform refinement give the processes consecutive ranges that cover all elements once and differ by at most one in size, with the trees and the shared-tree mark that these "
   "ranges imply; both ways to compute them agree.",
   [("bounds", CM + "t8_cmesh_partition.cxx"), ("uniform bounds", "src/t8_cmesh/t8_cmesh.cxx"), ("irregular refinement", "src/t8_cmesh/t8_cmesh.cxx")],
   ["t8_cmesh_uniform_bounds_for_irregular_refinement, t8_cmesh_uniform_bounds_equal_element_count"])

GLNOTE = ("TLA+ specification of meshes given by vertices (which faces coincide, in which orientation, what a mesh file means); seeded meshes and files are read by the real code and TLC decides whether the result is the mesh described.")
def GP(pid, title, statement, over, text, files, mech, observe):
    P(pid, title, statement, over, text, "The unit tests read a handful of files and generate a handful of meshes; what breaks depends on the numbering of vertices, mixtures of classes, rotations of elements, degenerate contacts and the "
      "exact bytes of the file.", files, ["mesh: classes and vertices of the trees", "file: nodes, blocks, elements"], mech, observe, GLNOTE)
GP("C35", "Joining trees by their vertices finds exactly the coinciding faces",
   "For every set of trees given by classes and vertex coordinates, joining by vertices connects exactly the pairs of faces that have the same corner points, with the faces and the orientation under which corresponding corners coincide, "
   "whatever the order and rotation of the trees and in any position in space.",
   ["inputs"], "every list of trees of any classes and vertex coordinates in one, two or three dimensions, joined from the stash or from given arrays",
   ["src/t8_cmesh/t8_cmesh.h"], [("join by vertices", CM + "t8_cmesh_helpers.cxx"), ("join by stash", "src/t8_cmesh/t8_cmesh.cxx")], ["t8_cmesh_set_join_by_vertices, t8_cmesh_set_join_by_stash"])
GP("C36", "A mesh file is read as exactly the mesh it describes",
   "Every well-formed ASCII Gmsh 4.1 file (any entity blocks, node numbering, blanks, extra sections, mixtures of classes and dimensions) yields, for a given dimension, a mesh with one tree per element of that dimension in file order, with its class, "
   "the coordinates, entities and parameters of its nodes in t8code's corner order, face connections exactly between elements that share the nodes of a face (with the orientation the nodes imply), and one global vertex per node; replicated "
   "on every process, or held by the reading process.",
   ["inputs", "configurations"], "every well-formed file with elements of the supported types, every dimension, any number of processes, any reading process, replicated or partitioned",
   ["src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.h"], [("reader", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx")], ["t8_cmesh_from_msh_file"])
GP("C37", "A malformed mesh file is rejected everywhere without harm",
   "A mesh file that is missing, empty, cut off, of an unsupported format or version, without nodes or elements, with unknown element types, too few or undefined or repeated nodes, or without elements of the wanted dimension never crashes or hangs the reader: "
   "every process obtains no mesh, and all memory is returned.",
   ["inputs"], "every truncation and corruption of a mesh file, any number of processes, replicated or partitioned",
   ["src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.h"], [("reader", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx")], ["t8_cmesh_from_msh_file"])
GP("C38", "Vertex connectivity lists exactly the tree corners at each global vertex",
   "For every assignment of global vertices to tree corners, the connectivity of a committed mesh reports for each tree and corner the global vertex given, for each global vertex exactly the trees and corners assigned to it, each once, "
   "and the correct number of global vertices.",
   ["inputs"], "every mesh and every assignment of global vertex numbers to the corners of its trees",
   ["src/t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.hxx"], [("vertex connectivity", "src/t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.cxx")],
   ["t8_cmesh_set_global_vertices_of_tree, t8_cmesh_get_vertex_to_tree_list, t8_cmesh_get_global_vertices_of_tree"])
GP("C39", "Generated meshes are exactly the described domain",
   "For every mesh generator of the library and all its parameters (class, number of cells, corners of the box, periodicity, partition and offset, radii, layers, levels): the mesh has the documented number and classes of trees at the "
   "documented positions; boxes are cut into trees that fill each cell exactly once; two tree faces are joined exactly if they coincide in space (or under a requested period), with the orientation that matches their corners, each join "
   "is seen alike from both sides, all other faces are boundary; all processes agree, and no memory is left behind.",
   ["inputs"], "every generator, every combination of its parameters, any number of processes",
   ["src/t8_cmesh/t8_cmesh_examples.h"], [("generators", "src/t8_cmesh/t8_cmesh_examples.cxx"), ("joins by vertices", "src/t8_cmesh/t8_cmesh_helpers.cxx")],
   ["t8_cmesh_new_*, t8_cmesh_get_face_neighbor, t8_cmesh_get_tree_vertices"])

# ------------------------------------------------------------------ geometry
GEO = "src/t8_geometry/"
GENOTE = ("TLA+ specification of where the points of trees and elements lie (exact maps of the linear, axis aligned, Lagrange, analytic and zero geometry, measures and containment for affine trees); seeded histories of real meshes and forests, "
          "derived from each other and destroyed in any order, are validated against it by TLC.")
def MP(pid, title, statement, text, mech, observe):
    P(pid, title, statement, ["inputs", "configurations", "histories"], text, "The unit tests evaluate a few unit cells, mostly in the x-y plane and one point at a time; what breaks depends on the class, the position and direction of the tree in space, "
      "the number of points, the element and on which meshes were used and destroyed before.", [GEO + "t8_geometry.h", "src/t8_forest/t8_forest_geometrical.h"] + sorted({b for _, b in mech}),
      ["hm: live meshes and forests with their trees, geometries and vertices"], mech, observe, GENOTE)
MP("C42", "Points of trees and elements have the coordinates their geometry prescribes",
   "For every tree with a linear, axis aligned, Lagrange (degree 1 or 2), analytic or zero geometry, at any place and in any direction in space, and any number of reference points, evaluation yields the image of each point under the geometry's map; "
   "corners, centroids and points with given (also stretched) coordinates of every element of any forest are the images of the element's points in its tree; the mesh's bounding box and the orientation test for trees agree "
   "with the vertices. Meshes in which trees have different geometries, copies, repartitioned meshes and forests made of them give the same answers, also after the meshes they stem from are gone.",
   "every class, geometry, vertex position, element, reference point and number of points; replicated and partitioned meshes; every history of derived and destroyed meshes",
   [("maps", GEO + "t8_geometry_helpers.c"), ("handler", GEO + "t8_geometry_handler.cxx"), ("Lagrange", GEO + "t8_geometry_implementations/t8_geometry_lagrange.cxx"), ("zero", GEO + "t8_geometry_implementations/t8_geometry_zero.cxx"),
    ("element points", "src/t8_forest/t8_forest.cxx"), ("reference coordinates", "src/t8_schemes/"), ("bounding box", "src/t8_cmesh/t8_cmesh.cxx")],
   ["t8_geometry_evaluate, t8_geometry_jacobian, t8_geometry_tree_negative_volume, t8_cmesh_get_local_bounding_box, t8_forest_element_coordinate, t8_forest_element_from_ref_coords(_ext), t8_forest_element_centroid, t8_forest_element_linear_centroid"])
MP("C43", "Volumes, areas, normals and centroids of elements of affine trees are exact",
   "For every element of every tree whose map is affine (lines, triangles and tetrahedra always, other classes if their vertices are the affine image of the reference cell), in any position and orientation in space: its volume (area, length) and the areas of its faces are exact and "
   "not negative, each face normal is the unit vector that is orthogonal to the face (and lies in the plane or line of the element) and points out of the element, the face centroid is the mean of the face's corners, and the diameter estimate lies between "
   "twice the smallest and twice the largest distance of a corner from the centroid.",
   "every class, affine tree in space, element and face; default and standalone schemes",
   [("measures", "src/t8_forest/t8_forest.cxx"), ("corners of faces", "src/t8_schemes/")],
   ["t8_forest_element_volume, t8_forest_element_face_area, t8_forest_element_face_normal, t8_forest_element_face_centroid, t8_forest_element_diam"])
MP("C44", "A point is reported inside an element exactly if it lies in it",
   "For every element of every affine tree (linear or axis aligned geometry, vertices, lines, planar cells at any angle in space, and volumes) and every batch of points, a point is reported as inside if it lies in the element or on its boundary, "
   "and as outside if it is farther away from the element than the tolerance.",
   "every class, affine tree in space, element, point and number of points; default and standalone schemes",
   [("containment tests", GEO + "t8_geometry_helpers.c"), ("linear", GEO + "t8_geometry_implementations/t8_geometry_linear.cxx"), ("axis aligned", GEO + "t8_geometry_implementations/t8_geometry_linear_axis_aligned.cxx"), ("face normals", "src/t8_forest/t8_forest.cxx")],
   ["t8_forest_element_points_inside"])
MP("C45", "VTK files hold exactly the elements with their coordinates and data",
   "For every committed forest (with or without ghosts, any partition, empty processes included) and every choice of standard fields and of user-defined scalar and vector data, the files that the built-in writer leaves are well-formed XML; together they list each process's leaves once "
   "(and its ghosts, if requested) with the VTK type of their shape and the coordinates of their corners in an order valid for that type, the tree, rank, level and element ids are those of the leaves, each user field appears with its values per cell and, repeated, per corner, "
   "and the master file names the files of all processes and exactly the arrays they contain. A coarse mesh whose trees have one coordinate per corner is written likewise: once if replicated, by every process if partitioned.",
   "every class, tree, forest, partition, ghost layer, field selection and user data that can be printed exactly; default and standalone schemes",
   [("writer", "src/t8_vtk/t8_vtk_write_ASCII.cxx"), ("master file", "src/t8_vtk/t8_vtk.c"), ("interface", "src/t8_forest/t8_forest.cxx, src/t8_vtk/t8_vtk_writer.cxx"), ("corner numbers", "src/t8_eclass/")],
   ["t8_forest_write_vtk, t8_forest_write_vtk_ext, t8_forest_vtk_write_file, t8_cmesh_vtk_write_file"])
MP("C46", "Arrays and messages hold exactly what was put into them",
   "For every history of operations: an element array holds the elements that were put into it, in order, whatever is pushed, resized, copied, truncated, viewed or changed through a view, and arrays do not affect each other; indices, iterators (steps, jumps, comparisons, distances) and searches in ordered arrays agree "
   "with that content. An array in shared memory has, on every process and for every kind of shared memory, the content last written, gathered, prefix-summed or copied into it; comparison and binary search are exact. "
   "A vector of items of any size, packed, sent, or exchanged between any processes, arrives with exactly its items, in order, and replaces what the receiver held; nothing is written beyond the announced buffer size.",
   "every scheme, class, history of operations, number of processes, kind of shared memory, array and item size",
   [("element arrays", "src/t8_data/t8_containers.cxx"), ("iterators", "src/t8_data/t8_element_array_iterator.hxx"), ("shared memory", "src/t8_data/t8_shmem.c"), ("messages", "src/t8_data/t8_vector_handler.hxx")],
   ["t8_element_array_*, t8_element_array_iterator, t8_shmem_*, t8_vector_handler"])
MP("C47", "Vector, matrix and splitting helpers compute their defining formulas",
   "For all vectors of numbers that are computed without rounding, norms, distances, products, linear combinations, differences, normals and cross products are exact, in the C interface and for any range in the C++ interface, and no input is changed; normalised and rescaled vectors have the requested length and the same direction; "
   "the tripod of every vector but zero is a right-handed orthogonal system of unit vectors; four points are coplanar exactly if their determinant vanishes; matrices multiply and rotate as defined; splitting an ordered list yields the number of entries below each category.",
   "every vector, matrix, angle with rational sine and cosine, ordered list and number of categories",
   [("vectors", "src/t8_types/t8_vec.hxx, src/t8_types/t8_vec.cxx"), ("matrices", "src/t8_helper_functions/t8_mat.h"), ("splitting", "src/t8_helper_functions/t8_vector_algorithms.hxx")],
   ["t8_norm, t8_dist, t8_dot, t8_axpy, t8_cross_3D, t8_eq, t8_normalize, t8_rescale, t8_orthogonal_tripod, t8_mat_*, vector_split and others"])
MP("C48", "Tables of reference shapes and interpolation describe the same shapes",
   "For every class, the numbers of corners, edges, faces and children, the classes, corners and orientations of its faces, the corners of its edges, the incidences between edges, faces and corners, the edge that leaves a face at each of its corners, the counts of boundary objects, "
   "the reference corners and centroid, the order of classes and the translation to VTK numbers and back all describe one polytope. Multilinear and simplicial interpolation reproduce the function with the given corner values at every point, for one to three components, also when the result overwrites the point or the corner values; corners of faces and edges are copied for any dimension; "
   "the ray from a corner through any other point of a triangle or tetrahedron meets the opposite side where it should, with the right relative distance; scaling and moving coordinates is exact.",
   "every class, face, edge and corner; every point, corner value and number of components that is computed without rounding",
   [("tables", "src/t8_eclass/t8_eclass.h, src/t8_eclass/t8_eclass.c, src/t8_element/t8_element.cxx"), ("interpolation", "src/t8_geometry/t8_geometry_helpers.c"), ("moving", "src/t8_cmesh/t8_cmesh.cxx")],
   ["t8_eclass_*, t8_face_vertex_to_tree_vertex, t8_edge_to_face and other tables, t8_geom_linear_interpolation, t8_geom_triangular_interpolation, t8_geom_get_*_vertices, t8_geom_get_*_intersection, t8_cmesh_coords_axb"])


def main():
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [{"name": x, "meaning": "state variable of the specification", "where": "spec/"} for x in p["state"]], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [
            {"property": p["pid"], "quick_cmd": f"python3 check.py {p['pid']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['pid']}",
             "evidence_file": f"evidence/{p['pid']}.json", "technique": "TLA+ specification, TLC model checking and TLC trace validation of the real code",
             "level": "model_checking", "level_note": p["note"]} for p in PROPS], "not_applicable": []}
    json.dump(m, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)
    open(f"{VERIF}/MANIFEST.json", "a").write("\n")
main()
