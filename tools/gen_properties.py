"""writes properties.jsonl (kept as a script only so that the text stays readable)"""
import json, os
P = []
U = "fv3gfs/util/"

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=[U + f for f in files],
                     mechanism=[dict(name=n, where=U + w) for n, w in mech],
                     observe_at=observe or [], state=state or [], hook_needed=None)))

p("C01", "Rank slices partition the global domain",
  "For every layout, position and staggering, the non-overlapping slices that a tile or cubed-sphere partitioner assigns to the ranks cover every point of the global domain exactly once and never reach outside of it. With overlap requested, a rank's slice additionally contains exactly the one interface row or column it shares with the next rank, and has the rank's own extent.",
  ["inputs", "configurations"],
  "all layouts (ly, lx >= 1), all ranks, all tile sizes divisible by the layout, all dimension orders and staggerings",
  "Tests sample a few 1x1..3x3 layouts and sizes; the statement is over every layout and size (a float rounding error only shows at 49x49).",
  ["partitioner.py", "utils.py"],
  [("subtile_slice", "partitioner.py:subtile_slice"), ("rank_extent_from_tile_metadata", "partitioner.py:rank_extent_from_tile_metadata")],
  ["TilePartitioner.subtile_slice", "CubedSpherePartitioner.subtile_slice"])

p("C02", "Rank extent and global extent are inverse",
  "For every layout, the extent a partitioner reports for one rank of a global array and the extent it reports for the global array of one rank's piece undo each other exactly, for cell-centred, interface and non-horizontal dimensions alike; the cubed-sphere versions add or remove exactly a leading tile dimension of length 6. All extents are exact integers at any size, and a cubed-sphere array whose first dimension is not the tile dimension is refused.",
  ["inputs", "configurations"],
  "all layouts, all rank sizes, all dimension tuples",
  "The tests use a handful of layouts up to 3x3 whose reciprocals happen to round favourably.",
  ["partitioner.py", "utils.py"],
  [("tile_extent_from_rank_metadata", "partitioner.py"), ("rank_extent_from_tile_metadata", "partitioner.py"), ("list_by_dims", "utils.py:list_by_dims")],
  ["Partitioner.global_extent", "Partitioner.subtile_extent"])

p("C03", "Rank numbering is a bijection onto tile positions",
  "Ranks 0..6*ly*lx-1 correspond one-to-one to (tile, y position, x position), tile-major, then row-major: the tile index, the tile root rank, the subtile position and the four on-edge predicates all follow from that numbering for every layout. A total number of ranks not divisible by 6 is refused.",
  ["inputs", "configurations"],
  "all layouts and all ranks",
  "Tests enumerate small layouts only.",
  ["partitioner.py"],
  [("subtile_index", "partitioner.py:subtile_index"), ("get_tile_index", "partitioner.py:get_tile_index"), ("tile_root_rank", "partitioner.py:CubedSpherePartitioner.tile_root_rank")],
  ["TilePartitioner.subtile_index", "CubedSpherePartitioner.tile_index"])

p("C04", "Cubed-sphere neighbours follow the folded cube",
  "For every square layout, rank and boundary type, the neighbour rank and the number of rotations reported by the cubed-sphere partitioner are those obtained by folding the six tiles into a cube (each even tile joins the next one at its east edge and each odd tile at its north edge, unrotated), and no boundary exists exactly at the cube's corners. Neighbourhood is mutual with opposite rotation, different boundaries of a rank lead to different ranks, and asking repeatedly, in any order, or modifying a returned boundary never changes an answer.",
  ["inputs", "configurations", "histories"],
  "all layouts n x n, all 6*n*n ranks, all 8 boundary types, any earlier sequence of queries",
  "Tests compare against literal tables for 1x1, 2x2 and 3x3 layouts; nothing relates larger layouts or query order to the geometry.",
  ["partitioner.py", "boundary.py"],
  [("CubedSpherePartitioner._cached_boundary", "partitioner.py"), ("rotate_subtile_rank", "partitioner.py"), ("fliplr_subtile_rank", "partitioner.py")],
  ["CubedSpherePartitioner.boundary"])

p("C05", "Tile neighbours are doubly periodic",
  "For every rectangular layout, the tile partitioner's neighbour of a rank in each of the eight directions is the rank one step in that direction with wrap-around in both directions, without rotation, and it never reports a missing boundary. Asking repeatedly, in any order, or modifying a returned boundary never changes an answer.",
  ["inputs", "configurations", "histories"],
  "all layouts (ly, lx), all ranks, all 8 boundary types",
  "Tests sample a few square layouts; swapped layout axes only show on non-square ones.",
  ["partitioner.py"],
  [("TilePartitioner._cached_boundary", "partitioner.py"), ("_get_corner", "partitioner.py:_get_corner")],
  ["TilePartitioner.boundary"])

p("C06", "Boundary views select exactly the halo and its source",
  "For every quantity, boundary direction and width, the receive view of a boundary is exactly the block of halo points of that width beyond that edge or corner of the compute domain, and the send view is the block of the same width just inside it, leaving out the interface point that both neighbours share. Both are writable windows onto the quantity's own data, and a block that would leave the array is refused.",
  ["inputs", "configurations"],
  "all origins, extents, array shapes, widths, dimension orders and staggerings, all 8 directions",
  "Tests use a few fixed shapes with the halo equal to the update width.",
  ["boundary.py", "_boundary_utils.py"],
  [("get_boundary_slice", "_boundary_utils.py:get_boundary_slice"), ("SimpleBoundary._view", "boundary.py")],
  ["Boundary.send_view", "Boundary.recv_view"])

p("C07", "Rotation of scalar and vector data is exact geometry",
  "Rotating data clockwise any integer number of times moves each value to the place the geometry gives it, for every dimension order (also when only one horizontal dimension is present), leaves all non-horizontal dimensions alone, and depends on the count only modulo four; rotations compose and four of them are the identity. For vector data both components are moved the same way and the pair of components is turned by the same angle, including the in-place component rotation offered by a boundary.",
  ["inputs", "configurations"],
  "all array shapes and contents, all integer rotation counts, all dimension orders",
  "Tests check a few literal arrays for counts 0..3.",
  ["rotate.py", "boundary.py"],
  [("rotate_scalar_data", "rotate.py:rotate_scalar_data"), ("rotate_vector_data", "rotate.py:rotate_vector_data"), ("Boundary.rotate", "boundary.py:Boundary.rotate")],
  ["rotate_scalar_data", "rotate_vector_data", "Boundary.rotate"])

p("C08", "Scalar halo update fills halos from the true neighbours",
  "After all ranks complete a halo update of width n of a scalar, every halo point within n points of a rank's compute domain that lies across an edge or an existing corner holds the value the neighbouring rank has at the same place on the cubed sphere. Every other element of the array - the compute domain, the halo at cube corners and halo points farther out - is unchanged, for every size, halo width, dimension order and memory layout, and however the messages are buffered.",
  ["inputs", "configurations", "schedules"],
  "all sizes, origins, widths 1..halo, contents, dimension orders, neighbour orientations; messages read at any time between sending and completion",
  "Tests run a few small cubes with constant or symmetric data; they cannot cover all shapes, widths and orientations, nor late reads of a reused send buffer.",
  ["communicator.py", "boundary.py", "_boundary_utils.py", "rotate.py", "buffer.py"],
  [("start_halo_update", "communicator.py"), ("_Isend_halos", "communicator.py"), ("_Irecv_halos", "communicator.py"), ("rotate_scalar_data", "rotate.py")],
  ["CubedSphereCommunicator.halo_update", "CubedSphereCommunicator.start_halo_update"])

p("C09", "Vector halo update rotates components consistently",
  "After all ranks complete a vector halo update of width n, the halo of both components at every point across an existing boundary holds the neighbour's vector at that place, expressed in the receiving rank's axes (components exchanged and negated according to the orientation change), for cell-centred and staggered components. Nothing else in either array changes.",
  ["inputs", "configurations", "schedules"],
  "all sizes, widths, contents, staggerings and neighbour orientations",
  "Tests use constant fields on small cubes; sign and exchange errors at particular orientations or staggerings can cancel.",
  ["communicator.py", "rotate.py", "boundary.py"],
  [("start_vector_halo_update", "communicator.py"), ("_Isend_vector_halos", "communicator.py"), ("rotate_vector_data", "rotate.py")],
  ["CubedSphereCommunicator.vector_halo_update"])

p("C10", "Vector interface synchronisation makes shared edges agree",
  "After all ranks synchronise a C-grid vector, both ranks bordering an edge hold the same vector value at each shared interface point, namely the value of the rank for which the edge is its south or west edge, expressed in each rank's own axes. All other points, including those edges themselves, are unchanged, for every size and dimension order, and a vector not on the C grid is refused.",
  ["inputs", "configurations", "schedules"],
  "all sizes, contents, dimension orders, extra dimensions and neighbour orientations",
  "Tests use 2-D or constant data; dimension orders with a leading vertical axis across rotated edges are not exercised.",
  ["communicator.py", "rotate.py"],
  [("_Isend_vector_shared_boundary", "communicator.py"), ("_Irecv_vector_shared_boundary", "communicator.py"), ("on_c_grid", "communicator.py:on_c_grid")],
  ["CubedSphereCommunicator.synchronize_vector_interfaces"])

p("C11", "Every halo message is received by its own request",
  "Any number of halo updates, vector updates and synchronisations may be in flight: for every order in which the requests are waited on, each message is received exactly once, by the request of the same operation and boundary on the neighbouring rank, with matching size and type. Sends are started before any blocking receive, so the exchange cannot deadlock, and a zero-width update is refused before anything is sent.",
  ["schedules", "histories"],
  "all sequences of operations from any earlier state, all wait orders",
  "Tests use a mock communicator that ignores tags and delivers in program order.",
  ["communicator.py"],
  [("_get_halo_tag", "communicator.py"), ("HaloUpdateRequest.wait", "communicator.py"), ("_Irecv", "communicator.py")],
  ["messages given to the MPI communicator"], [dict(name="halo tag counter", meaning="last tag used", where=U + "communicator.py")])

p("C12", "Scatter delivers every rank its own piece",
  "After a scatter, each rank's compute domain equals the piece of the root's global array that the partitioner assigns to it (shared interface points included), with the global quantity's type and units and the piece's dimensions and extent; a receive quantity that was passed in is filled and returned, and nothing outside its compute domain changes. The root's data is never modified, only the root needs to provide data, the result shares no memory with it, and earlier or later communications never influence the result. Broadcasting metadata gives every rank the root's.",
  ["inputs", "configurations", "histories"],
  "all layouts, sizes, contents, dimension orders, dtypes, halo sizes of the given quantities, earlier contents of reused buffers",
  "Tests sample small layouts and always use fresh or equal-shaped buffers.",
  ["communicator.py", "partitioner.py", "buffer.py"],
  [("Communicator.scatter", "communicator.py"), ("subtile_slice", "partitioner.py"), ("array_buffer", "buffer.py")],
  ["Communicator.scatter", "CubedSphereCommunicator.scatter"])

p("C13", "Gather assembles the global array and undoes scatter",
  "After a gather, the root's global array holds at every point the value of a rank owning that point (both owners, where their shared interface values agree), and gathering what was scattered reproduces the original exactly, for every layout, size, dimension order, staggering and element type. A receive quantity that was passed in is filled within its compute domain and returned on the root; other ranks get nothing, the sent quantities are never modified, and a later gather leaves the results of earlier ones alone.",
  ["inputs", "configurations", "histories"],
  "all layouts, sizes, contents, dimension orders, dtypes, halo sizes, earlier contents of reused buffers",
  "Tests sample small layouts.",
  ["communicator.py", "partitioner.py", "buffer.py"],
  [("Communicator.gather", "communicator.py"), ("_get_gather_recv_quantity", "communicator.py")],
  ["Communicator.gather", "CubedSphereCommunicator.gather"])

p("C14", "State scatter and gather act name by name",
  "Scattering a state gives every rank exactly the scattered quantities under the same names plus the root's time when it has one; entries of a given receive state are filled in place, and its entries that are not part of the sent state are left as they are. Gathering a state, with names in the same order on all ranks, collects each named quantity on the root likewise, with the root's time; the sent states are not modified.",
  ["inputs", "configurations"],
  "all sets of names, with and without time, with and without pre-existing receive entries",
  "Tests use one or two fixed state dictionaries.",
  ["communicator.py"],
  [("scatter_state", "communicator.py"), ("gather_state", "communicator.py")],
  ["Communicator.scatter_state", "Communicator.gather_state"])

p("C15", "Recycled buffers are exclusive and transparent",
  "While a recycled buffer is in use no other user is given the same memory, and every buffer has the requested shape, type and contiguity, in any nesting and after any history; a use adds to the retained buffers only if none of its kind was free. A send buffer holds exactly the array's values without modifying the array, and leaving a receive buffer puts exactly the received values into the array, for contiguous and non-contiguous arrays alike.",
  ["inputs", "histories"],
  "all shapes, dtypes, memory layouts, nestings and histories of use",
  "Tests check one allocation pattern.",
  ["buffer.py", "utils.py"],
  [("array_buffer", "buffer.py"), ("send_buffer", "buffer.py"), ("recv_buffer", "buffer.py"), ("assign_array", "utils.py")],
  ["array_buffer", "send_buffer", "recv_buffer"], [dict(name="BUFFER_CACHE", meaning="buffers not in use", where=U + "buffer.py")])

p("C16", "Timers account every interval exactly once",
  "For every history of starts and stops, a timer reports for each name the sum of the lengths of its completed intervals and their number, independently of other names and of nesting; starting a running clock is an error and changes nothing. A disabled timer records nothing, a timer cannot be disabled while a clock runs, reset forgets completed intervals, a null timer never records and cannot be enabled, and the reported mappings are copies; reading them warns that intervals are incomplete if and only if a clock is running.",
  ["histories", "inputs"],
  "all histories of operations over any names, all clock readings",
  "Tests check single calls against wall-clock sleeps.",
  ["_timing.py"],
  [("Timer.start", "_timing.py"), ("Timer.stop", "_timing.py"), ("Timer.clock", "_timing.py")],
  ["Timer.times", "Timer.hits"])

p("C17", "Views index the compute domain as documented",
  "Indexing a quantity's view with integers, slices (including omitted, negative and stepped bounds) and names addresses points relative to the compute domain exactly as indexing an array holding only the compute domain would, whatever the halo; only negative integers and non-negative bounds beyond the extent reach into the halo instead (negative slice bounds count from the end of the compute domain). The corner views count from their corner, the interior view counts starts from the first and stops from the last compute point, and reading or writing through any view touches the quantity's own data and nothing else.",
  ["inputs", "configurations"],
  "all origins, extents, shapes, dimension orders, index expressions",
  "Tests sample a few slices on fixed shapes; negative slice bounds with a halo are not covered.",
  ["quantity.py", "_boundary_utils.py"],
  [("BoundedArrayView._get_compute_index", "quantity.py"), ("shift_slice", "quantity.py"), ("shift_boundary_slice_tuple", "_boundary_utils.py")],
  ["Quantity.view", "Quantity.sel", "view.southwest and the other corner views", "view.interior"])

p("C18", "Transposing a quantity only renames the axes",
  "Transposing a quantity to any order of its dimensions (given by name or by family of names) gives a quantity whose value, origin and extent along each named dimension are unchanged and whose data is the same memory; units are kept, and transposing back restores the original. A target that names a missing dimension or is ambiguous is refused.",
  ["inputs", "configurations"],
  "all dimension tuples and permutations, all shapes, origins and contents",
  "Tests sample some permutations.",
  ["quantity.py"],
  [("Quantity.transpose", "quantity.py"), ("_collapse_dims", "quantity.py")],
  ["Quantity.transpose"])

p("C19", "Allocated quantities have consistent halo geometry",
  "For every tile size, layout, halo and dimension tuple, allocated quantities have the rank's share of the tile as extent (one more point on interface dimensions), the halo width as origin on horizontal dimensions and zero elsewhere, and an array that holds the compute domain with a full halo on both sides and has the same shape for centred and interface variants. Zeros and ones are filled everywhere, and the requested units, dimensions and type are kept.",
  ["inputs", "configurations"],
  "all tile sizes, layouts, halos, dimension tuples, extra dimensions",
  "Tests sample a few sizes.",
  ["initialization/sizer.py", "initialization/allocator.py"],
  [("SubtileGridSizer", "initialization/sizer.py"), ("QuantityFactory._allocate", "initialization/allocator.py")],
  ["SubtileGridSizer.get_shape", "QuantityFactory.zeros"])

p("C20", "Nudging moves the state by the exact relaxation step",
  "Nudging changes each named variable's compute domain by timestep/timescale times (reference - state), element by element, returns the tendencies (reference - state)/timescale with per-second units, and changes nothing else: not the reference, not other variables, not halos. Computing tendencies alone modifies nothing.",
  ["inputs", "configurations"],
  "all contents, timesteps, timescales, shapes, halos and sets of variables",
  "Tests use constant arrays without halos.",
  ["nudging.py"],
  [("apply_nudging", "nudging.py"), ("get_nudging_tendencies", "nudging.py")],
  ["apply_nudging", "get_nudging_tendencies"])

p("C21", "A Zarr store receives every rank's data at its place",
  "After any number of stores of states (with a time, and quantities with both horizontal dimensions) by all ranks, in any order in which ranks may run, the store holds at each time index, tile and point the value the owning rank stored at that step, with dimensions time, tile and the quantity's own, its attributes, and one time value per step that decodes to the stored time. No two ranks write the same chunk, so parallel writing is safe, and a state with other names or attributes than before is refused.",
  ["inputs", "configurations", "histories", "schedules"],
  "all layouts, sizes, dimension orders, staggerings and numbers of steps",
  "Tests sample small layouts and few steps; chunk alignment is not checked.",
  ["zarr_monitor.py", "partitioner.py"],
  [("_ZarrVariableWriter.append", "zarr_monitor.py"), ("array_chunks", "zarr_monitor.py"), ("_ZarrTimeWriter", "zarr_monitor.py")],
  ["ZarrMonitor.store"])

p("C22", "Corner filling extends halos around tile corners",
  "Filling corners for stencils along one direction gives each point of a tile-corner halo block, up to the requested width, the halo value that continues the stencil across the tile edge: the value reached by turning around the corner, skipping the shared edge of interface variables. Only the corner blocks of tile corners that the rank actually touches change.",
  ["inputs", "configurations"],
  "all layouts and ranks, sizes, halo widths, staggerings, both directions, contents",
  "Tests compare literal small arrays.",
  ["_corners.py", "quantity.py"],
  [("fill_scalar_corners", "_corners.py:fill_scalar_corners")],
  ["fill_scalar_corners"])

p("C23", "Restart files load into the right variables on every rank",
  "Loading restart data gives each rank, for every variable in its tile's files that is requested (all if no names are given), its own piece of the file's values: known variables (the built-in table and given tracer properties, the table having precedence) under the standard name with the documented units and dimension names, variables with units of their own under their own name, others not at all; and the current model time of the coupler file with its calendar, if there is one and it is requested. Quantities passed in are filled in place, other entries of a given state are left alone. File names follow the tile number and label; required files are always listed and optional ones only if present. Ranks share a tile communicator exactly if they are on the same tile.",
  ["inputs", "configurations"],
  "all sets of variables, labels, tiles, requested names and calendars",
  "Tests use one set of sample files.",
  ["_legacy_restart.py", "io.py", "time.py"],
  [("open_restart", "_legacy_restart.py"), ("map_keys", "_legacy_restart.py"), ("get_current_date_from_coupler_res", "io.py")],
  ["open_restart"])

p("C24", "Captured streams are complete and always restored",
  "Everything written to a stream or directly to its file descriptor inside the capture is returned, in order, and nothing of it reaches the original destination; what was written before, even if still buffered, and what is written afterwards reaches the original destination only. Afterwards the descriptor again refers to the original destination and no descriptor stays open. This also holds when the captured code raises (the exception is passed on), when captures are nested or repeated any number of times, and when a capture cannot begin because descriptors are exhausted.",
  ["histories", "fault_sequences"],
  "all written contents, all exceptions in the captured block, nesting and repetition",
  "Tests capture once without failure.",
  ["_capture_stream.py"],
  [("capture_stream", "_capture_stream.py")],
  ["capture_stream"])

p("C25", "State files reproduce the state",
  "Reading a state file written by this package, locally or remotely, gives back the same names (other than names of dimensions), the same compute-domain values, type, dimensions and units (whatever they look like) for each quantity, and the same time and calendar, independently of what happens to the written state later and of what the file contained before. A state without a time is refused on writing and leaves files as they were; a file whose time is not a single time is refused on reading.",
  ["inputs"],
  "all states: names, dimensions, dtypes, values, calendars",
  "Tests use a couple of sample states.",
  ["io.py", "_xarray.py", "quantity.py"],
  [("write_state", "io.py"), ("read_state", "io.py")],
  ["write_state", "read_state"])

p("C26", "A quantity describes the very array it was given",
  "A quantity made from an array exposes that very array: it is neither copied nor modified, and a change of one is a change of the other. Dimensions, units, origin and extent are those given, the origin otherwise being the first point and the extent everything from the origin on; its metadata, attributes, views and dimension lengths all agree with them, and nothing a caller does later with the lists it passed in or the attributes and lengths it got back changes them. A number or list becomes an array of its values. A number of dimension names, origins or extents other than the number of axes is refused, as are text as an index, a data array without units, and asking for the storage without a backend. data_array is a window onto the compute domain with the quantity's dimensions and units, from_data_array is its inverse, and values shows the compute domain read-only while the quantity stays writeable.",
  ["inputs", "histories"],
  "all shapes, origins, extents, dimension names, types and contents",
  "Tests build a handful of small cubic arrays and compare single attributes.",
  ["quantity.py", "_xarray.py"],
  [("Quantity.__init__", "quantity.py:Quantity"), ("QuantityMetadata", "quantity.py:QuantityMetadata"), ("from_data_array", "quantity.py:Quantity.from_data_array")],
  ["Quantity", "Quantity.metadata", "Quantity.data_array", "Quantity.from_data_array"])

p("C27", "The simulated communicator carries data as MPI would",
  "For ranks simulated in one process by DummyComm, messages between two ranks arrive in the order they were sent, each once, with the content the buffer had when it was sent, whatever happens to the buffers before or afterwards and however the calls of different ranks interleave. The k-th broadcast or scatter on each rank delivers the root's k-th value or that rank's piece of the root's k-th array, and the k-th gather on the root assembles the k-th data of every rank in rank order. A call made before the rank it depends on raises ConcurrencyError, changes nothing and works once that rank has gone; buffers that are not contiguous are refused as MPI refuses them; separate simulations do not hear of each other.",
  ["schedules", "histories", "inputs"],
  "all interleavings of the calls of up to 4 ranks (at most 6 calls), all data",
  "Tests use the simulation in one order of ranks, and only as a means of testing other things.",
  ["testing/dummy_comm.py", "utils.py"],
  [("DummyComm._put_send_recv", "testing/dummy_comm.py"), ("DummyComm.Gather", "testing/dummy_comm.py"), ("DummyComm._get_buffer", "testing/dummy_comm.py"), ("ensure_contiguous", "utils.py:ensure_contiguous")],
  ["DummyComm"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
