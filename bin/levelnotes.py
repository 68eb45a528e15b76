NOTES = {
"C02": ("model_checking", "TLC checks inclusion-exclusion for all small level pairs on the specification; the real generators, set enumerations, file reader and size functions are run on all small level pairs plus random higher-dimensional and very large schemes and every output is compared with the specified set by TLC."),
"C03": ("model_checking", "TLC checks the distribution rules for all small weights and group counts; every recorded distribution of random schemes by the real functions is checked to be a partition."),
"C04": ("model_checking", "TLC checks the index maps and decompositions exhaustively for small grids; the real maps of random grids on up to 8 processes are recorded and validated event by event."),
"C05": ("model_checking", "TLC checks the basis change algebra; the real distributed kernels are run on random grids, decompositions, bases and integer data and compared exactly with the specified transform."),
"C06": ("model_checking", "TLC explores operation histories on a small sparse grid; random operation histories of the real distributed sparse grid are validated against the specification."),
"C08": ("model_checking", "TLC checks the layout rules for all small group and process counts; the roles and communicators the real code builds for random sequences of layouts are recorded on all processes and validated."),
"C01": ("model_checking", "The real workers run whole combination histories (several run/combine steps, all variants, group counts, decompositions, bases) on integer data; every grid value after every step is compared exactly with the combined solution the specification defines, which does not know groups, decompositions or variants."),
"C07": ("model_checking", "TLC explores the reduction protocol for all distributions of subspaces over small numbers of groups and chunk sizes; the real reductions are run on random distributions, sizes and chunk sizes and the resulting data of every process is validated."),
"C16": ("model_checking", "TLC checks the interpolant and norms (partition independence, interpolation property, periodic wrap) for all small grids; the real evaluation, norm, exchange, gather and plot functions are run on random grids and combined solutions with dyadic points and compared exactly with the specification."),
"C09": ("model_checking", "TLC explores the protocol between manager and groups for all interleavings and operation sequences of small configurations (safety, deadlock, termination); the real manager and groups are run with random operation sequences and delays, the events of all processes are recorded in one order and validated against the specification, including all values, norms and interpolated values."),
"C10": ("model_checking", "As C09 with random moves of tasks between groups: owners, levels, coefficients, step counts and all grid values after every move, run and combination are validated; the specification's values do not depend on the owner."),
"C13": ("model_checking", "TLC checks collective writing and chunked collective reading for all small lengths, chunk sizes and interleavings; the real file functions (plain, compressed, whole files, parts, one file per process, reading with reduction of one or two files) are run in random histories including damaged and removed files, and every result and file content is validated."),
"C11": ("model_checking", "TLC explores the file and token protocol of two and three systems for all subspace sets, interleavings and repeated file names (safety, completeness, termination); real systems coupled through files run with random schemes, variants, file parts, directories, delays and copying agents, every file access of every process is recorded in one order and validated together with all grid values and the remaining files."),
"C12": ("model_checking", "TLC checks in the coupling model that all systems agree on the exchanged subspaces; the real size exchange of one to three systems is run for random schemes, group counts, decompositions and variants, and the sizes on every process are compared with the specified rules."),
"C15": ("model_checking", "TLC checks a receiver of arrays for all element sizes, lengths, chunk sizes, fragmentations and ends of the stream within small bounds; the real send, receive, receive-and-add, to-file and forward functions run over real loopback connections whose send and recv calls are split by a random plan (down to single bytes), with both byte orders and senders that stop early, and every result and byte count is validated."),
"C14": ("model_checking", "TLC explores the broker between two systems for all interleavings, operation sequences, message sizes and points where a system ends (safety, no mixing, termination); the real broker process runs between two clients with random operations, sizes, fragmentation and delays, and between two complete managed systems of several groups; every socket operation and every resulting grid value is validated."),
"C17": ("model_checking", "TLC explores all fault sets (over several rounds) of small fault tolerant schemes on the specification: lost grids unused, subspaces counted at most once, base kept, scheme restored; the real manager recomputes coefficients for random schemes and lost sets in up to four dimensions and the coefficients its groups receive are validated, including optimality by enumeration for small schemes and a lower bound for all."),
"C18": ("model_checking", "TLC checks that every single rebalancing move helps for all small placements and durations; random histories of the real load models (several sessions, files) and rescheduling decisions are validated against the specified statistics and the specified set of plans."),
"C19": ("model_checking", "TLC explores all orders in which processes collect and pass on extremes over several reports; the reports of real computations (managed and not, all combination variants, several grids per task, several reports) are compared line by line with the extremes of the specified combined solution."),
"C20": ("model_checking", "TLC explores all interleavings of tasks and parameters on their way from the manager through the first process of each group; the contents of random tasks, parameter sets, durations, containers and files before and after real transfers (point to point, broadcast, manager to groups) are recorded on all processes and validated."),
"C21": ("model_checking", "TLC explores all interleavings of events, partial files and clock readings on two processes; real sessions on one to six processes (several sessions, communicators, idle processes, long and empty lists) are recorded and every written file is parsed and compared with the recorded events."),
"C22": ("model_checking", "TLC checks for all small grid sets of two and three systems that exchanging only the conjoint subspaces gives every system the complete sums; the real tool runs on random parameter and scheme files, and every number in the written files, as stored and as read by the workers' sparse grids, is compared with the specified decomposition."),
}
