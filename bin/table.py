"""The properties: text, anchors and how each is decided."""
PROPS = []
NOT_APPLICABLE = []
TECH_BOTH = "TLA+ model; TLC-enumerated behaviours replayed in the library and recorded histories validated by TLC"
TECH_TRACE = "TLA+ specification; recorded executions of the library validated event by event with TLC"


def P(id, title, statement, over, text, why, files, mech, state, observe, tech, note):
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              "state": state, "observe_at": observe, "hook_needed": False},
                  "technique": tech, "note": note})


NODE = "src/libs/conduit/conduit_node.cpp"
SCHEMA = "src/libs/conduit/conduit_schema.cpp"

P("C01", "Any edit history leaves one well-formed tree with consistent names and paths",
  "After any sequence of path fetches, child adds, appends, removals, renames, moves, swaps and resets, a tree holds exactly the children those edits imply, in insertion order, and every way to reach or describe a child (index, name, path, iterator in either direction, parent link, name and path queries) gives the same answer. Adding an existing name returns the existing child, renaming keeps position and content, and removing shifts only later siblings. The same holds for a Schema edited on its own.",
  ["operation histories", "tree shapes", "names including embedded separators"],
  "for every sequence of structural calls on any nodes of any trees, after every call",
  "a unit test fixes a short script; stale index maps or parent links only show after particular sequences (remove then rename, swap of siblings, list turned object)",
  [NODE, SCHEMA, "src/libs/conduit/conduit_node_iterator.cpp"],
  [("fetch / add_child / append / remove / rename_child / move / swap", NODE),
   ("schema hierarchy: names, name-to-index map, parents", SCHEMA),
   ("child iterators", "src/libs/conduit/conduit_node_iterator.cpp")],
  ["node children", "schema children, object map and order", "parent pointers"],
  ["return of every public call"],
  TECH_BOTH, "NodeModel.tla: all calls up to a bounded depth replayed, plus long random histories validated; trees up to ~25 nodes, names from a small alphabet.")

P("C02", "Reading calls and failing calls never change any tree or its data",
  "A query, a lookup of an existing path, an output or conversion call, a comparison, or a call that reports an error leaves every tree, every value and every caller-owned array exactly as it was before the call.",
  ["operation histories", "tree shapes and layouts", "invalid arguments"],
  "for every reading call and every rejected request at every reachable state",
  "tests assert the answer of a query, not that nothing else changed, and rarely look at the state after an error",
  [NODE, SCHEMA],
  [("fetch_existing, has_path, child access, to_json, to_yaml, diff, info, compact_to, serialize, conversions", NODE),
   ("error paths of remove, rename_child, fetch_existing, child", NODE)],
  ["node tree", "leaf memory", "caller arrays"],
  ["return or error of every public call"],
  TECH_TRACE, "Every event carries the complete projected state of three trees, all element bytes, caller arrays and allocation counts; TLC requires no change for reading and failing calls.")

P("C03", "Copies are independent, external data is shared, owned data is freed exactly once",
  "A value or node set into a tree is a private copy unless set as external, in which case reads and writes go through to the caller's memory in both directions and with the described layout; setting a value of the same type with no more elements than a leaf holds writes it in place into the memory the leaf already uses, keeping its layout. Memory the library allocated is released exactly once, no earlier than the data it backs is dropped, and caller memory is never released.",
  ["operation histories", "data layouts", "aliasing patterns"],
  "for every sequence of set, set_external, compact, move, swap, remove, reset calls, all leaf types and layouts, after every call",
  "aliasing and lifetime faults need a later write or release through another path, with strided or shared buffers",
  [NODE, "src/libs/conduit/conduit_node.hpp", "src/libs/conduit/conduit_utils.cpp"],
  [("set / set_external / init / allocate / release", NODE), ("list_of, compact_to, move, swap", NODE),
   ("in-place reuse of compatible leaves", "src/libs/conduit/conduit_data_type.cpp")],
  ["leaf data pointer, ownership flag, data type layout", "buffers", "caller arrays"],
  ["return of every public call", "calloc/free of the process"],
  TECH_BOTH, "NodeModel.tla models buffers with identity, owner and bytes; the driver interposes the allocator so that buffer identity, double free, leak and dangling use are observed.")

P("C04", "Update merges exactly the source's data and keeps everything else",
  "Updating a tree from another adds the missing parts, overwrites matching data with the source's values and leaves every other child, value and the source itself untouched; the compatible variant changes only values of already matching data and never the structure; the external variant shares the source's memory for the data it brings in.",
  ["pairs of trees", "data layouts", "operation histories"],
  "for every pair of trees (objects, lists, leaves, empties, mixed) and every layout of source and destination",
  "the result depends on the combination of kinds, lengths and layouts of both sides at every level",
  [NODE], [("update / update_compatible / update_external", NODE)],
  ["destination and source trees", "buffers"], ["return of the update call"],
  TECH_BOTH, "Same model and projection as C03, alphabet biased to update calls; bounded exhaustive plus random histories.")

CMP = ["src/libs/conduit/conduit_data_array.cpp", "src/libs/conduit/conduit_data_type.cpp"]
P("C05", "Comparisons report exactly the differences between two trees",
  "Comparing two trees says they differ exactly when their kinds, names, types, lengths or values (beyond the tolerance for floats) differ, whatever the memory layout of either side and in either order; the report lists exactly the extra and missing parts; compatibility and equality of schemas and types follow their documented definition and are reflexive.",
  ["pairs of trees", "data layouts", "tolerances"],
  "for every pair of trees over all leaf types, layouts and tolerances",
  "tests compare a few contiguous leaves; a wrong element index, stride or tolerance only matters for particular lengths and layouts",
  [NODE, SCHEMA] + CMP,
  [("Node::diff / diff_compatible", NODE), ("Schema::compatible / equals", SCHEMA),
   ("DataArray::diff / diff_compatible", "src/libs/conduit/conduit_data_array.cpp"), ("DataType::compatible / equals", "src/libs/conduit/conduit_data_type.cpp")],
  ["two trees and their layouts"], ["return value and report of the comparison"],
  TECH_BOTH, "Diff.tla defines the answers; all pairs of a small universe are enumerated by TLC and replayed, random pairs of larger trees are validated. NaN is excluded.")

ARR = "src/libs/conduit/conduit_data_array.cpp"
ACC = "src/libs/conduit/conduit_data_accessor.cpp"
DT = "src/libs/conduit/conduit_data_type.cpp"
P("C06", "Array views and accessors touch exactly the elements they describe",
  "For every offset, stride, length, element type and byte order, a typed array view or accessor reads and writes exactly the described elements: element access, setting from a pointer, vector, list or another view, fill, compaction and statistics see those elements in order, and no other byte of memory is changed. Setting from a view copies as many elements as both sides have.",
  ["data layouts", "element types", "source layouts"],
  "for every layout of the view and of the source, every type and every element position",
  "tests use a few contiguous or interleaved arrays; an off-by-one in offset, stride or count only shows for particular layouts and only if the surrounding bytes are compared",
  [ARR, ACC, DT],
  [("DataArray::element / set / fill / compact_elements_to / min / max / sum / mean", ARR),
   ("DataAccessor::element / set / fill", ACC), ("element addressing and compatibility", DT)],
  ["all bytes of the memory block around the elements"], ["return of every view call"],
  TECH_TRACE, "Arrays.tla defines the resulting bytes of the whole block and every returned value, with integers and IEEE floats modelled at bit level (Num.tla). Blocks up to ~200 bytes.")
P("C07", "Numeric conversions give the same exact value whichever way they are requested",
  "Converting a leaf to another numeric type, as a scalar, array, whole data type, through an accessor or from text, yields for each element the value of the language conversion: integers wrap to the width, in-range floats truncate, integers and doubles round to the nearest representable float. The answer does not depend on memory layout or on which conversion call is used.",
  ["pairs of element types", "values", "data layouts"],
  "for every source and destination type, value (including extremes) and layout, through every conversion call",
  "there are over a hundred type pairs times layouts and boundary values, implemented in generated switch code that tests only sample",
  [NODE, ACC, ARR],
  [("Node::to_<type>, to_<type>_array, to_data_type, to_value", NODE), ("DataAccessor conversions", ACC)],
  ["source elements, destination elements"], ["return of every conversion call"],
  TECH_TRACE, "Arrays.tla with Num.tla: conversions are computed in TLA+ on bit vectors, no library or C arithmetic in the oracle. Out-of-range float to integer conversions (undefined in C) are excluded.")
P("C08", "Compaction, serialization and binary files preserve every value for any layout",
  "Compacting or serializing a tree of any layout gives exactly its values in schema order with no gaps, in memory and in files; reading the bytes back with the written schema (copied, external or memory-mapped) gives an equal tree. Reported sizes (compact, strided, spanned, allocated) and contiguity answers agree with the actual layout, and the source is untouched.",
  ["trees", "data layouts", "save and load variants"],
  "for every tree and layout of its leaves, including strided, offset, shared and zero-length leaves",
  "tests compact trees with one simple layout; gaps, overlaps or wrong offsets arise for combinations of strided leaves, empty leaves and nesting",
  [NODE, SCHEMA, DT],
  [("compact_to / serialize / save / load / mmap / load(path, schema)", NODE), ("Schema::compact_to, total and spanned bytes", SCHEMA),
   ("is_contiguous / contiguous_with / info", NODE)],
  ["leaf layouts and bytes", "file contents"], ["serialized bytes, returned sizes, reloaded tree"],
  TECH_TRACE, "Layout.tla computes sizes, compact layouts and bytes from the projected layout. A tree without bytes is not claimed contiguous.")
P("C10", "Schema text describes one layout, however it is read",
  "A schema text (JSON or YAML) with types, lengths, offsets, strides, endianness, nested objects, lists and repeated elements resolves to the same layout whether parsed as a schema, used to copy data or to view external data; omitted fields take the documented defaults. Writing a schema as text and parsing it again gives an equal schema. Data generated by copy is independent of the input, and external data shares its memory.",
  ["schema texts", "trees", "data layouts"],
  "for every schema of nested objects, lists and leaves with any subset of layout fields given",
  "the defaults interact (offset of a leaf depends on all leaves before it) and there are four walkers that must agree",
  [SCHEMA, "src/libs/conduit/conduit_generator.cpp", DT],
  [("Generator walk, walk_external, walk of Schema", "src/libs/conduit/conduit_generator.cpp"),
   ("Schema::to_json / to_yaml / set(text)", SCHEMA)],
  ["schema tree and leaf layouts"], ["resulting schema, values, memory sharing"],
  TECH_TRACE, "Layout.tla resolves the text's abstract form to offsets and compares all readers. YAML text has no empty containers.")
GEN = "src/libs/conduit/conduit_generator.cpp"
P("C09", "Text written from a tree reads back as the same tree",
  "Writing a tree as JSON or YAML and reading it back gives the same structure, names, strings and values, for every protocol and every way of writing and reading (strings, streams, files, any indentation): exactly, with types, for the conduit_json and base64 forms, and with the documented widening to 64-bit numbers for plain JSON and YAML. The external form gives back the same memory. Plain text written by others is read to the values it denotes.",
  ["trees", "strings and names", "numeric values", "output formatting"],
  "for every tree, every name and string (including quotes, escapes, number-like text), every finite, infinite or NaN value printable in 15 digits, and every formatting option",
  "round trips fail on particular characters, extreme values, empty parts and their combinations; tests use plain words and small numbers",
  [NODE, SCHEMA, GEN, "src/libs/conduit/conduit_utils.cpp"],
  [("to_json / to_yaml / to_base64_json", NODE), ("JSON and YAML walkers", GEN), ("escape and sanitize", "src/libs/conduit/conduit_utils.cpp")],
  ["tree values", "text"], ["text and reloaded tree"],
  TECH_TRACE, "Text.tla composes Emit (tree to abstract JSON) and Read (abstract JSON or YAML to tree); emitted JSON is also read by an independent strict parser. Excluded: unsigned values above int64 in plain YAML and in plain arrays, strided strings, objects with children named like schema fields in conduit_json.")
REL = "src/libs/relay/"
H5 = REL + "conduit_relay_io_hdf5.cpp"
P("C12", "Saving a tree to a file and loading it gives the tree back, and merging adds to the file",
  "For every supported file protocol, what is loaded from a file is what was saved (with the text protocols' documented number widening), whole or under a path inside the file; a saved file is replaced, a merged save adds the new parts and overwrites matching ones while everything else in the file stays, and a merged load does the same to the node. Requests that do not fit (missing file or path, incompatible data) report an error, change neither file nor open state, and leave files usable by the next call.",
  ["operation histories on files", "trees", "protocols"],
  "for every sequence of save, save_merged, load and load_merged calls over several files, protocols, trees and inner paths",
  "tests save one tree and load it at once; leftovers of earlier contents, failed calls and inner paths only matter over histories",
  [REL + "conduit_relay_io.cpp", H5, REL + "conduit_relay_io_silo.cpp"],
  [("save / save_merged / load / load_merged", REL + "conduit_relay_io.cpp"), ("HDF5 write, append, read and compatibility checks", H5),
   ("Silo write and read", REL + "conduit_relay_io_silo.cpp")],
  ["file contents", "open HDF5 ids", "node trees"], ["return or error of each call, reloaded trees"],
  TECH_TRACE, "IoModel.tla keeps the tree each file holds; protocols conduit_bin, json, conduit_json, conduit_base64_json, yaml, hdf5, conduit_silo. Not generated: object to list role changes and removal of list entries inside HDF5, zero-byte trees in Silo.")
P("C13", "A file handle behaves as the tree the file holds",
  "Between opening and closing a handle, reading a path gives what was last written there, a write adds to or replaces exactly the addressed part, has_path and child listings agree with what can be read, removal removes exactly the path, and the access mode is enforced (nothing is read from write-only or written through read-only handles). Closing makes the contents durable and opening again, with or without truncation, starts from exactly that or from nothing. Per-call options hold only for that call.",
  ["handle histories", "open modes", "protocols", "trees"],
  "for every sequence of open, write, read, remove, listing and close calls with every mode and protocol, including failing calls",
  "tests walk one happy path per protocol; mode, failed calls and reopening interact over histories",
  [REL + "conduit_relay_io_handle.cpp", H5],
  [("IOHandle and its basic and HDF5 implementations", REL + "conduit_relay_io_handle.cpp"), ("HDF5 write, read, remove, listing", H5)],
  ["handle state and mode", "file contents", "HDF5 options"], ["return or error of each call, reloaded trees, library options"],
  TECH_TRACE, "IoModel.tla: handles with modes over trees, for basic protocols and HDF5; the listing of list entries may be by index or empty.")
P("C14", "Partial writes and reads of an HDF5 dataset touch exactly the selected elements",
  "Writing a leaf into a dataset with an offset and stride places its elements exactly there, growing the dataset with zeros where needed and keeping all other elements; reading with any offset, stride and size, in any number of dimensions and through any call, returns exactly the selected elements; the reported selection size agrees with what a read returns. Selections that do not fit are rejected with an error and without effect.",
  ["histories of partial writes", "offsets, strides, sizes, dimensions", "element types"],
  "for every sequence of partial writes and reads with every combination of given and omitted options",
  "each test uses one offset and stride on one dataset; conversion of fixed to extendible datasets and growth depend on what was written before",
  [H5], [("write_conduit_leaf_to_hdf5_dataset", H5), ("fill_dataset_opts, calculate_readsize, read_hdf5_dataset_into_conduit_node", H5)],
  ["dataset elements, length and extendibility"], ["read values, reported sizes, errors"],
  TECH_TRACE, "Slab.tla models a dataset as a sequence and N-dimensional boxes by row-major index arithmetic; ranks 1-3, up to ~20 elements, datasets in either byte order.")
MPI = REL + "conduit_relay_mpi.cpp"
P("C16", "Messages between ranks deliver the sent tree, to the right receive, in order",
  "Whatever a rank sends (blocking, non-blocking, with or without schema, through a communicate_using_schema batch), the receive with the matching source, tag and communicator gets exactly that tree's structure and values, merged into the destination as documented, regardless of the memory layout on either side; messages with the same envelope arrive in the order sent; any-source receives get each message exactly once. Senders' nodes are unchanged and every correctly paired exchange completes, in whatever order the waits are made.",
  ["message patterns and orders", "rank counts", "trees and layouts"],
  "for every set of paired sends and receives among any ranks, every tree and layout on both sides and every completion order",
  "tests exchange one or two simple nodes between two ranks; layout, batching, tags and ordering combine",
  [MPI], [("send / recv / isend / irecv / wait / wait_all and schema variants", MPI), ("communicate_using_schema", MPI), ("safe_tag", MPI)],
  ["messages in flight", "destination trees", "sender trees"], ["destination trees after completion"],
  TECH_TRACE, "Mpi.tla: matching by envelope order (any order consistent with each sender for wildcard receives); 1-4 real MPI ranks, world and reordered communicators, up to 7 messages per exchange.")
P("C17", "Collectives give every rank the result over all ranks' data",
  "Reductions combine the ranks' elements with the given operation, gathers list all ranks' trees in rank order, broadcasts reproduce the root's tree, on exactly the ranks the call says (root or all), for any tree, leaf type and memory layout on every rank; destinations that fit are filled in place, others are replaced, and inputs and other ranks' nodes are unchanged.",
  ["rank counts and roots", "trees and layouts per rank", "reduction operators"],
  "for every rank count, root, tree and layout (different on each rank where allowed)",
  "tests use contiguous arrays on two ranks with root 0",
  [MPI], [("reduce / all_reduce / gather / all_gather / broadcast and schema variants", MPI)],
  ["send and receive trees of all ranks"], ["receive trees of all ranks"],
  TECH_TRACE, "Mpi.tla computes the receive tree of every rank; 1-4 real ranks, all roots, world and reordered communicators; reductions over small whole numbers in every type.")
BP = "src/libs/blueprint/"
P("C18", "Component arrays, tables, one-to-many relations and n-d indices mean what their layout says",
  "A one-to-many relation visits, for each 'one', exactly the data entries its sizes, offsets and indices name, in order, whichever way it is walked (forward, backward, nested, by position, by index object); compaction and offset generation keep that relation and leave the source alone. Multi-component conversions to contiguous or interleaved memory keep names, order and values and produce the named layout. The verify functions accept exactly the trees their rules describe. N-d indices map coordinates by offset and stride with the documented defaults.",
  ["relation shapes including empty groups, gaps and overlaps", "element types and memory layouts", "trees for verify"],
  "for every relation, component array, table and index description",
  "tests use a handful of uniform relations and interleaved examples; empty groups, several data arrays, non-monotone indices or strided inputs are not among them",
  [BP + "conduit_blueprint_o2mrelation.cpp", BP + "conduit_blueprint_o2mrelation_iterator.cpp", BP + "conduit_blueprint_o2mrelation_index.cpp", BP + "conduit_blueprint_mcarray.cpp", BP + "conduit_blueprint_table.cpp", BP + "conduit_blueprint_ndarray_index.cpp"],
  [("O2MIterator, O2MIndex, compact_to, generate_offsets", BP + "conduit_blueprint_o2mrelation_iterator.cpp"),
   ("mcarray / mlarray / table verify and conversions", BP + "conduit_blueprint_mcarray.cpp")],
  ["relation arrays", "iterator position", "component memory"], ["return values", "result trees", "source trees"],
  TECH_TRACE, "Rel.tla defines each answer; randomly generated relations (up to 4 ones, 8 entries), trees and layouts.")
MESH = BP + "conduit_blueprint_mesh.cpp"
MUT = BP + "conduit_blueprint_mesh_utils.cpp"
META = BP + "conduit_blueprint_mesh_topology_metadata.cpp"
P("C19", "Converting a mesh to a more general description keeps its points and elements",
  "Converting coordinate sets (uniform, rectilinear, explicit) and topologies (points, uniform, rectilinear, structured including strided, unstructured, polygonal, polyhedral) to any more general form yields the same sequence of points and the same sequence of elements (shape and point numbers; for polyhedra the same faces, each shared face once), names the new coordset, passes verify and leaves the source untouched, whatever the element types and memory layout of the arrays. Lengths, dimensions, element points and generated offsets agree with that meaning.",
  ["meshes of every kind and dimension", "element types and memory layouts", "optional fields present or absent"],
  "for every valid mesh description and every conversion that applies to it",
  "tests convert the braid example at one size with contiguous arrays and default types",
  [MESH, MUT], [("coordset and topology to_rectilinear / to_explicit / to_structured / to_unstructured / to_polytopal", MESH), ("generate_offsets, length, dims, points", MUT)],
  ["coordset values", "connectivity, sizes, offsets"], ["converted trees", "query results", "verify"],
  TECH_TRACE, "Mesh.tla gives the meaning (points, elements) of every description; random meshes up to 27 points (3x3x3) with shuffled numbering, dropped elements and random layouts. Mixed shapes are not generated; a uniform coordset with neither origin nor spacing may name its axes i,j,k.")
P("C20", "Derived topologies contain every entity exactly once with correct maps both ways",
  "generate_points, generate_lines and generate_faces list every vertex, edge and face of a mesh's elements exactly once, with source-to-derived and derived-to-source maps that state exactly which element has which entity; centroids are the averages of the elements' points; sides and corners split each element into exactly its sides (triangles or tets over edge, face centre and element centre) and corners (vertex, edge midpoints, face and element centres), with maps that are each other's inverse. generate_sides with fields carries the selected fields of the topology over: element values go to every side of their element with type and value unchanged, volume dependent ones are split in proportion to the sides' sizes, vertex values are kept at original points and averaged over the original neighbours at new ones, and id fields name the source of every side and point. The source mesh is untouched.",
  ["unstructured meshes of every shape", "numberings, orders and orientations of elements", "element types and memory layouts"],
  "for every unstructured mesh, including ones with unused points, rotated elements and polygons or polyhedra of mixed sizes",
  "tests check counts on regular grids; maps and shared entities under arbitrary numbering are not checked",
  [MESH, META], [("generate_points / lines / faces / centroids / sides / corners", MESH), ("TopologyMetadata cascade and associations", META)],
  ["entity lists", "association maps"], ["derived topologies and coordsets", "map contents"],
  TECH_TRACE, "MeshConv.tla computes entities, centres, sides and corners from Mesh.tla's elements; lines, tris, quads, tets, hexes, polygons (3-40 points), polyhedra (6 and 10 faces), up to 27 points. Element storage with gaps between polygons is excluded (the cascade assumes packed elements).")
MAT = BP + "conduit_blueprint_mesh_matset_xforms.cpp"
P("C21", "Every material set form says the same fractions, field values and species",
  "Converting a material set between its forms (per-material full arrays, per-material sparse arrays, sparse by element) or to the silo representation keeps, for every element, exactly the materials with their volume fractions (dropping only fractions not above the epsilon), and material dependent field values stay attached to the same element and material; species mass fractions are reachable from each element's (mixed) materials. The result verifies, names its topology, and the source is untouched, whatever material numbers, entry order, relation arrays, element types and memory layouts are used.",
  ["material sets of every form", "material numbering and orders", "relation arrays with gaps and indices", "element types and layouts"],
  "for every valid material set with at least one material per element, every field over it and every target form",
  "tests convert the examples' generated sets: consecutive material numbers, sorted entries, default types",
  [MAT], [("matset / field to_multi_buffer_full, to_sparse_by_element, to_multi_buffer_by_material, to_silo", MAT), ("specset::to_silo", MAT)],
  ["volume fractions, material ids, element ids, relation arrays", "mixed slot chains"], ["converted trees", "verify", "source trees"],
  TECH_TRACE, "Mat.tla gives the meaning of each form as a set of (element, material, fraction, value); random sets of up to 4 materials and 5 elements (occasionally 80). Single-buffer material-dominant sets only for to_silo (the library converts them nowhere else).")
BPIO = "src/libs/relay/conduit_relay_io_blueprint.cpp"
P("C15", "A mesh saved as a file set reads back domain for domain",
  "For every sequence of save_mesh and write_mesh calls (any number of domains, file style, number of files, cycle suffix, mesh name, hdf5, json or yaml, serial or spread over MPI ranks in any way), the root and data files that should exist do exist under the names the options imply, and loading a root file on any number of ranks gives every domain of the named mesh exactly once with all its leaves equal to what was written (domain ids renumbered from zero), and nothing else. Adding a mesh to an existing root file keeps the others; the saved mesh is not modified. Root files written by other tools with file and tree patterns or partition maps in any order are read the same way.",
  ["histories of saves, writes and loads", "domain counts, file counts and rank distributions", "protocols, options and paths"],
  "for every history on every path (relative or absolute), every domain-to-rank and domain-to-file distribution",
  "tests save one mesh per configuration in the working directory and read it back at once",
  [BPIO, "src/libs/relay/conduit_relay_io_identify_protocol.cpp", BP + "conduit_blueprint_mesh.cpp"],
  [("write_mesh: file naming, batons, partition map, root file", BPIO), ("read_mesh and path generators", BPIO), ("generate_index", BP + "conduit_blueprint_mesh.cpp")],
  ["files on disk", "blueprint index and partition map", "cycle counters"], ["files present", "loaded trees", "source trees"],
  TECH_TRACE, "BpFiles.tla is a state machine over root files, data files and cycle counters; random histories of 3-9 calls, up to 12 domains, 1-4 ranks. Rewriting an existing mesh name without truncation is not generated (HDF5 cannot replace data of another shape).")
PART = BP + "conduit_blueprint_mesh_partition.cpp"
MPART = BP + "conduit_blueprint_mpi_mesh_partition.cpp"
P("C22", "Partitioning moves every selected element exactly once, whole, and can be mapped back",
  "partition, serial or parallel, gives exactly the requested number of domains (or one per selection, or one per value of a partition field), with distinct ids, that all verify and together contain every selected element exactly once and no other: each with its shape, the coordinates of its points, its element field values, the materials it contains and their volume fractions, the vertex field values of its points and, unless mapping is off, the domain and number it had. Only fields asked for by the fields option appear, with their type. The input is not modified. partition_map_back then gives every original element and point the value its copy has in the parts and leaves everything else alone.",
  ["meshes of 2D and 3D elements of every kind, in one or several domains, touching or not", "selections of all four types and targets", "distributions of domains over ranks", "field types and layouts"],
  "for every mesh, every set of non-overlapping selections, every reachable target, every distribution of the domains over MPI ranks",
  "tests compare a few partitions of example meshes with stored baselines",
  [PART, MPART], [("selections, splitting, extraction, combination, map back", PART), ("chunk placement and exchange between ranks", MPART)],
  ["selections", "chunks and their destinations", "point and element maps"], ["output domains", "verify", "mapped-back mesh", "source trees"],
  TECH_TRACE, "Part.tla describes a partition as a bag of elements with geometry, values and origin, over Mesh.tla; random meshes up to 5 domains of up to 24 elements on 1-4 ranks. Vertex fields are functions of position (merged points agree); one topology; the domains agree on the numbers of materials; fields per material, adjacency sets, overlapping selections, structured topologies with offsets and strides, and combining one-dimensional grids are not covered.")
P("C23", "Every typed form of set, get and view means the same, in C++ and in C",
  "Setting a value through any overload (assignment, set, set_path, set_external, initializer lists, vectors, arrays, accessors, raw pointers with offset, stride and element bytes; bit-width or native C types; C++ or C interface) leaves the node with exactly the given type, count and values, owning its own copy for the copying forms and aliasing the caller's memory for the external ones. Reading through any typed getter, pointer, array, accessor or value() of the matching type gives those values; a getter of another type warns and gives zero, null or an empty view instead of reinterpreting the bytes. Data types built by any maker, constructor or setter carry exactly the given description, and every predicate, size, name and text of a data type (C++ and C) agrees with it.",
  ["every overload and element type", "counts, offsets, strides", "existing content of the destination", "C and C++ entry points"],
  "for every overload, every element type, every memory description and every prior content",
  "there are several hundred overloads, each forwarding by hand; tests call most of them once with one shape and mostly the default stride",
  [NODE, "src/libs/conduit/conduit_node.hpp", "src/libs/conduit/c/conduit_node_c.cpp"],
  [("set / set_path / set_external / operator= overloads", NODE), ("as_X, value, fetch typed access", NODE), ("C interface", "src/libs/conduit/c/conduit_node_c.cpp")],
  ["leaf type, layout and bytes", "ownership of the memory"], ["describe of the node", "caller's memory after writes", "values returned"],
  TECH_TRACE, "Forms.tla gives one meaning per family of overloads; the driver calls each overload with random values, lengths 0-4, offsets and strides.")
FLAT = "src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp"
MFLAT = "src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp"
P("C24", "Mesh verify accepts exactly the trees the mesh blueprint describes, and indices and domains agree with the mesh",
  "For any tree, verify of a mesh or of any of its parts (coordset, topology, field, material set, species set, adjacency set, nesting set, index) accepts it exactly when it has the required children, of the required kinds and with existing references, and never throws and never changes the tree; the info it fills marks the tree and each part valid or not in agreement with the verdict. The index generated for a valid mesh describes exactly its coordsets, topologies, fields, material, species, adjacency and nesting sets and domain count, and is itself a valid index. domains, number_of_domains and to_multi_domain present the same domains for single- and multi-domain trees.",
  ["valid meshes of all kinds, single and multi domain", "trees one or two arbitrary edits away from valid ones", "element types"],
  "for every tree reachable by adding, removing, renaming or retyping any parts of a mesh",
  "tests verify hand-written examples and some hand-made defects; the rules interact (a child may be optional depending on another), and an unexpected shape may throw instead of being rejected",
  [MESH], [("verify of every mesh protocol", MESH), ("generate_index, domains, to_multi_domain", MESH)],
  ["mesh tree", "verify info tree"], ["verdict and info", "generated index", "domain lists", "source tree"],
  TECH_TRACE, "Verify.tla states the rules as operators over trees; the driver makes random valid meshes, parts and indices with 0-2 mutations. Not covered: shape_map entries that are not single integers, zero-length leaves, names containing '/' or equal to info keys.")
P("C25", "Flattening a mesh gives one row per point and element with its place, values and origin",
  "flatten, serial or parallel, turns a mesh into tables with exactly one row per point and one per element of the chosen topology, domains one after the other and ranks in order: each row carries the coordinates of its point or the center of its element, the values of every selected field (the fill value where its domain lacks that field on the topology), its domain id, its number in the domain and, if asked for, its rank. Floating point data stays floating point. Options remove or rename nothing else; tables without columns are absent; ranks other than the root get nothing; the input is not modified.",
  ["meshes of all kinds, several topologies, several domains", "fields missing from some domains or living on another topology", "options", "distributions of domains over ranks", "element types and layouts"],
  "for every mesh, every option set, every distribution of domains over ranks including empty ranks, every root",
  "tests flatten a few example meshes and compare with stored tables; the result depends on combinations of domains, types and missing fields",
  [FLAT, MFLAT, "src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp"],
  [("column allocation, field lookup, element centers", FLAT), ("gathering rows to the root", MFLAT)],
  ["output tables", "per-domain row offsets"], ["output tables on every rank", "source trees"],
  TECH_TRACE, "Flat.tla over Mesh.tla: expected tables as sets of columns; random meshes of 1-5 domains, two topologies, all options, 1-4 ranks. Not covered: fields with list components, fields changing kind or association between domains, domains of different dimension or axes.")
MESH = "src/libs/blueprint/conduit_blueprint_mesh.cpp"
P("C26", "Adjacency sets of split meshes name exactly what domains share, on every side alike",
  "For a mesh split into domains whose vertex adjset is right, the adjsets that generate_points, generate_lines, generate_faces, generate_centroids, generate_sides and generate_corners derive, serial or over MPI, are right too: a point, face, center or decomposed point is listed with a neighbor exactly if that neighbor has it (lines in 3D: only what the neighbor has, and every shared edge that one element of each domain uses). Groups are named after their members, list every entry once, and all members of a group list the same entries in the same order. to_pairwise and to_maxshare keep which entry is shared with which domain and produce the promised form, is_pairwise and is_maxshare tell it. Painting an adjset counts the groups of each vertex and its place in each. Validation accepts an adjset exactly if its vertices exist at the neighbors, which refer back, or its elements are listed by the neighbors for this domain, and gives the same verdict on every rank. Inputs are not modified.",
  ["meshes of all element kinds split into 2-6 domains", "pairwise and maxshare adjsets", "domain ids", "exact and rounded coordinates", "distributions of domains over ranks", "corrupted adjsets"],
  "for every mesh, every split into domains, every numbering of domains and points, every distribution over ranks",
  "tests use a few regular example meshes with domain ids 0..n-1; what is shared depends on the cut, and errors show only between particular domains or ranks",
  [MESH, BP + "conduit_blueprint_mesh_utils.cpp", BP + "conduit_blueprint_mpi_mesh_utils.cpp", BP + "conduit_blueprint_mpi_mesh.cpp"],
  [("generate_derived_entities / generate_decomposed_entities", MESH), ("PointQuery, MatchQuery, adjset::validate, to_pairwise, to_maxshare, canonicalize", BP + "conduit_blueprint_mesh_utils.cpp"), ("parallel queries", BP + "conduit_blueprint_mpi_mesh_utils.cpp")],
  ["adjset groups of every domain", "query results"], ["groups of every domain and rank", "derived topologies", "source trees"],
  TECH_TRACE, "Adj.tla: entities as sets of global point ids; random meshes (2D and 3D, also polygonal and polyhedral) cut into domains, 1-4 ranks. Not covered: pairwise adjsets whose entries come in orders that contradict each other, one vertex in two groups with the same neighbor, wedges, pyramids and mixed shapes.")
CSV = REL + "conduit_relay_io_csv.cpp"
P("C27", "Tables saved as CSV read back with the same columns, rows and numbers",
  "Saving a blueprint table as CSV and loading it, in any history of saves and loads, gives the same columns in the same order, with the same names and components (a column of one component becomes a plain column), and every number exactly, rounded once to the precision asked for by the load; several tables make a directory that loads as the same list or named tables. A load replaces what the node held; the saved tables are untouched. CSV text of others is read to the numbers it denotes, with or without a line of column names; rows that are too long, cells that are no numbers, missing files, invalid tables and paths of the wrong kind are errors without effect on what is stored.",
  ["tables of any number of columns, components and rows, element type and memory layout", "single tables, lists and named collections", "texts of others", "loads into nodes that hold something"],
  "for every table, every sequence of saves, texts and loads",
  "tests save and load four tables of small whole numbers",
  [CSV], [("header and cell writing, header detection, cell parsing, directories of tables", CSV)],
  ["files and directories of tables"], ["loaded trees", "errors", "source trees"],
  TECH_TRACE, "Csv.tla folds a history of up to 5 steps on two paths into their contents; random tables of up to 4 columns, 3 components, 5 rows. Not covered: names with commas, slashes or outer blanks, headers that consist of numbers only, tables without columns, rows that are too short, subnormal numbers, strings; tables left in a directory by an earlier save stay there.")
