#!/usr/bin/env python3
# Generates properties.jsonl (single source for property texts).
import json,sys
P=[]
def prop(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

prop("C01","Combination leaves the combined solution on every grid of every group",
 "After a combination step, every component grid on every process group holds, in each hierarchical subspace of the sparse grid, the sum over all component grids containing that subspace of (combination coefficient x that grid's hierarchical coefficient); subspaces excluded from the sparse grid keep the grid's own values. The result does not depend on which group computed which grid, on the number of groups or processes per group, on the domain decomposition, on the combination variant or on the chunk size, and a grid that was combined can be run and combined again any number of times.",
 ["inputs","configurations","histories"],
 "all combination schemes, coefficients, boundary types, basis functions, group/process counts, decompositions, task-to-group assignments, the four combination variants, chunk sizes, numbers of consecutive run/combine steps and all grid values",
 "Tests use a few fixed schemes and check smooth functions up to a tolerance or only one rank's value; a wrong coefficient in one subspace of one decomposition or variant stays below the tolerance or is never executed.",
 ["src/manager/ProcessGroupWorker.cpp","src/manager/SparseGridWorker.hpp","src/manager/TaskWorker.hpp","src/combicom/CombiCom.hpp","src/sparsegrid/DistributedSparseGridUniform.hpp","src/hierarchization/DistributedHierarchization.hpp"],
 [("component grid values","nodal values each task owns","DistributedFullGrid data of Task"),("sparse grid data","sum of weighted hierarchical coefficients per subspace","DistributedSparseGridUniform::getData"),("combination coefficients","weight of each task","Task/TaskWorker::getTaskWithCoefficient")],
 [("combineAtOnce","src/manager/ProcessGroupWorker.cpp"),("reduceLocalAndGlobal","src/manager/SparseGridWorker.hpp"),("fillDFGFromDSGU","src/manager/SparseGridWorker.hpp")],
 ["values of each task's grid before and after ProcessGroupWorker::combineAtOnce","ProcessManager::combine"])

prop("C02","Combination schemes satisfy inclusion-exclusion",
 "For every minimum and maximum level, the generated combination scheme consists of pairwise distinct grids inside the level box whose coefficients are the inclusion-exclusion coefficients of the scheme's downward-closed index set: for every subspace below some grid of the set the coefficients of the grids containing it sum to one. Dimensions with equal minimum and maximum level stay at that level, every refined dimension's maximum level is reached by some grid, the fault tolerant extension only adds distinct grids of the next two diagonals with coefficient zero, and the downward-closed sets, level enumerations and (per-process) numbers of degrees of freedom computed for a scheme are exactly those of its grids. Reading a scheme file gives, on every process, the listed grids, coefficients and group numbers in file order.",
 ["inputs","configurations"],
 "all dimensions, minimum/maximum level vectors (isotropic, anisotropic, with non-refined dimensions), all scheme generators and all scheme files",
 "Tests check a handful of isotropic schemes; the property is a for-all over level vectors with dimension-dependent case analysis.",
 ["src/combischeme/CombiMinMaxScheme.hpp","src/combischeme/CombiMinMaxScheme.cpp","src/utils/LevelSetUtils.cpp"],
 [("combination spaces","level vectors with coefficients","CombiMinMaxScheme::combiSpaces_/coefficients_"),("downward-closed set","all levels covered","CombiMinMaxScheme::levels_")],
 [("createClassicalCombischeme","src/combischeme/CombiMinMaxScheme.cpp"),("createAdaptiveCombischeme","src/combischeme/CombiMinMaxScheme.cpp"),("computeCombiCoeffs*","src/combischeme/CombiMinMaxScheme.cpp"),("getDownSet/HypercubeDownSetGenerator","src/utils/LevelSetUtils.cpp")],
 ["getCombiSpaces/getCoeffs/getDownSet","scheme files"])

prop("C03","Every component grid is assigned to exactly one process group and one system",
 "Distributing a scheme over process groups (round robin, load balanced, or prescribed by a scheme file) gives every grid, with its coefficient and task number, to exactly one group; round-robin counts differ by at most one and load-balanced loads by at most the largest grid. Splitting a scheme between several systems assigns every grid to exactly one system, with unchanged coefficients and order, in the given fractions.",
 ["inputs","configurations"],
 "all schemes, numbers of groups (up to the number of grids) and systems, weights/fractions, and assignments in scheme files",
 "Tests assert sums for one scheme and one group count; losing or duplicating a grid in other shapes is not observable there.",
 ["src/combischeme/CombiMinMaxScheme.hpp","src/combischeme/CombiMinMaxScheme.cpp","src/combischeme/CombiThirdLevelScheme.cpp","src/utils/LevelSetUtils.cpp"],
 [("assignment","per-group list of (level, coefficient, task number)","getAssignedLevels/getLoadBalancedLevels output")],
 [("getRoundRobinLevels/getLoadBalancedLevels/getAssignedLevels","src/combischeme/CombiMinMaxScheme.hpp"),("CombiThirdLevelScheme::createThirdLevelScheme","src/combischeme/CombiThirdLevelScheme.cpp"),("getConjointSet","src/utils/LevelSetUtils.cpp")],
 ["output vectors of the assignment functions"])

prop("C04","A distributed grid's points are partitioned exactly over its processes",
 "For every level vector, boundary choice and (default or prescribed) decomposition, every grid point belongs to exactly one process, all processes agree on the owner, and the local/global, linear/vector and level/index conversions are mutually inverse and agree with the coordinates of the point. Decompositions agree between grids of different level: points of a coarser grid lie on the process that owns the same coordinate interval of a finer grid whenever the decomposition is derived from the finest one.",
 ["inputs","configurations"],
 "all dimensions, levels, boundary types, process counts per dimension and decomposition vectors",
 "Tests use a few symmetric power-of-two decompositions where wrong strides or bounds coincide with right ones.",
 ["src/fullgrid/DistributedFullGrid.hpp","src/fullgrid/Tensor.hpp","src/mpi/MPICartesianUtils.hpp","src/utils/DecompositionUtils.hpp","src/utils/LevelVector.cpp"],
 [("bounds","lower/upper bound index vectors of each process","DistributedFullGrid::getLowerBounds/getUpperBounds"),("decomposition","first index of each process per dimension","DistributedFullGrid::getDecomposition")],
 [("getDefaultDecomposition/downsampleDecomposition","src/utils/DecompositionUtils.hpp"),("index conversions","src/fullgrid/DistributedFullGrid.hpp")],
 ["public index/coordinate functions of DistributedFullGrid on each rank"])

prop("C05","Hierarchization is an exact, decomposition-independent basis change",
 "Hierarchizing a distributed grid yields exactly the hierarchical coefficients defined by the chosen basis (hat, full weighting or biorthogonal; periodic or not; per dimension; down to the minimum level) of the same nodal values, for any number of processes and any decomposition, and touches only the requested dimensions. An undistributed grid is transformed in the same way with the hat basis. Dehierarchizing restores the nodal values exactly, and truncating coefficients of the conservative bases above the minimum level preserves the grid's mean.",
 ["inputs","configurations"],
 "all level vectors, boundary types, bases, dimension subsets, minimum levels, decompositions and grid values",
 "Tests compare a few smooth functions on symmetric decompositions with tolerances; communication of a single missing neighbour or an off-by-one at a process boundary needs specific level/decomposition combinations.",
 ["src/hierarchization/DistributedHierarchization.hpp","src/hierarchization/Hierarchization.hpp","src/hierarchization/CombiLinearBasisFunction.hpp"],
 [("grid values","nodal or hierarchical values per point","DistributedFullGrid::getData")],
 [("exchangeData1d / exchangeAllData1d","src/hierarchization/DistributedHierarchization.hpp"),("hierarchize*_kernel","src/hierarchization/DistributedHierarchization.hpp")],
 ["grid data before and after DistributedHierarchization::hierarchize/dehierarchize"])

prop("C06","Grid points and sparse-grid subspaces correspond one to one",
 "Every point of a component grid belongs to exactly one hierarchical subspace; registering grids gives each process exactly the local points of each subspace of the sparse grid's downward-closed set that some registered grid has, with the same local count for every grid that has it. Adding a grid to the sparse grid adds coefficient x value to exactly the subspaces present, and extracting writes back exactly those values and leaves all other points of the grid unchanged.",
 ["inputs","configurations","histories"],
 "all sparse-grid level sets, grids (inside or outside the set), decompositions, orders of registration and addition, and coefficients",
 "Needs all subspaces of all grids under all decompositions; tests only spot check sizes.",
 ["src/sparsegrid/DistributedSparseGridUniform.hpp","src/sparsegrid/AnyDistributedSparseGrid.cpp","src/fullgrid/DistributedFullGrid.hpp"],
 [("subspace sizes and data","per-subspace local data","DistributedSparseGridUniform")],
 [("registerDistributedFullGrid","src/sparsegrid/DistributedSparseGridUniform.hpp"),("addDistributedFullGrid","src/sparsegrid/DistributedSparseGridUniform.hpp"),("extractFromUniformSG","src/fullgrid/DistributedFullGrid.hpp")],
 ["getDataSize/getData per subspace","grid data after extractFromUniformSG"])

prop("C07","Group-to-group reduction adds every subspace exactly once",
 "For any distribution of subspaces over process groups and any chunk size, the reduction (sparse-grid, subspace, out-group and chunked out-group) leaves in each group, for every subspace it holds, the sum over all groups holding it, each contribution counted exactly once, and creates no data a group did not request. Groups of subspaces communicated together are disjoint, cover every shared subspace, and all participating processes agree on order and size, so the reduction never hangs. (The out-group variants require that each group shares a subspace with another one.)",
 ["inputs","configurations","schedules"],
 "all sets of subspaces per group, local subspace sizes (including zero), chunk sizes and variants",
 "Chunk borders and partially shared subspaces need specific size/limit combinations; tests use one or two chunk sizes with everything shared.",
 ["src/combicom/CombiCom.hpp","src/sparsegrid/AnyDistributedSparseGrid.cpp","src/sparsegrid/DistributedSparseGridUniform.hpp"],
 [("subspace communicators","sets of groups that share subspaces","AnyDistributedSparseGrid::subspacesByComm_")],
 [("setReductionSubspaceCommunicator / setOutgroupCommunicator","src/sparsegrid/AnyDistributedSparseGrid.cpp"),("getChunkedSubspaces, reduce functions","src/combicom/CombiCom.hpp")],
 ["sparse grid data before and after the reduction on each group"])

prop("C08","Process roles and communicators form a consistent layout",
 "For every number of groups and processes per group, with or without a manager process, each process belongs to exactly one group (or is the manager), each group has exactly one master, processes with the same position in different groups form one reduce communicator ordered by group, and the output group consists of exactly one process per position. All processes agree on the layout after every (re-)initialisation.",
 ["configurations","histories"],
 "all (groups, processes per group, manager) combinations fitting the world size, and sequences of re-initialisations",
 "The test suite runs with 9 processes and a few layouts only.",
 ["src/mpi/MPISystem.cpp","src/mpi/MPISystem.hpp"],
 [("communicators","world, global, local, globalReduce, outputGroup, thirdLevel","MPISystem members")],
 [("initWorldReusable, init*Comm","src/mpi/MPISystem.cpp")],
 ["public getters of MPISystem on each rank"])

prop("C09","Managed runs execute every task exactly once per step and always complete",
 "In a managed computation, whatever the relative speed of the process groups, every task is given to exactly one group, run exactly once per solver step on all processes of its group, and no group takes part in a combination before all its tasks of the step are finished; queries after a step see the state after that step and return exactly the norms and interpolated values of the tasks' grids. A blocking operation returns only after every group has completed it, every operation the manager starts completes, and exit terminates all groups.",
 ["schedules","histories","configurations"],
 "all relative group speeds and interleavings, numbers of tasks/groups/processes per group, load models and sequences of manager operations",
 "A test observes one interleaving; a lost task or a premature combination depends on which group reports first.",
 ["src/manager/ProcessManager.cpp","src/manager/ProcessManager.hpp","src/manager/ProcessGroupManager.cpp","src/manager/ProcessGroupWorker.cpp"],
 [("group status","WAIT/BUSY as seen by the manager","ProcessGroupManager::status_"),("task lists","tasks per group","ProcessGroupManager::tasks_, TaskWorker::tasks_")],
 [("runfirst/runnext/combine/exit","src/manager/ProcessManager.cpp"),("wait signal loop","src/manager/ProcessGroupWorker.cpp")],
 ["Task::init/run calls on all ranks","return of manager operations"])

prop("C10","Moving tasks between groups loses neither tasks nor solution data",
 "Rescheduling after a combination keeps the set of tasks: each task is afterwards owned by exactly one group, with its level, coefficient and identity unchanged, and its grid holds the combined solution it would have had without moving. Subsequent run, combination and query results equal those of a computation that never rescheduled.",
 ["histories","schedules","configurations"],
 "all sequences of moves the rescheduler may request, between any groups, at any step",
 "Tests move tasks in one fixed pattern and check only a constant function.",
 ["src/manager/ProcessManager.cpp","src/manager/ProcessGroupManager.cpp","src/manager/ProcessGroupWorker.cpp","src/rescheduler/TaskRescheduler.hpp"],
 [("task ownership","group owning each task","ProcessGroupManager::tasks_")],
 [("ProcessManager::reschedule","src/manager/ProcessManager.cpp"),("removeTask/addTask signals","src/manager/ProcessGroupWorker.cpp")],
 ["ProcessManager::getLpNorms/interpolation","per-task grid values"])

prop("C11","File-based coupling gives all systems the same, complete sum",
 "When several systems exchange sparse-grid data through files with token files, a system only reads another system's data after it was completely written, each system ends the step with the sum of all systems' data on the shared subspaces and its own sum elsewhere, and each system consumes exactly the files it was told to. This holds for any relative speed of the systems and over consecutive steps, including reuse of file names.",
 ["schedules","histories","configurations"],
 "all interleavings of the systems' steps, numbers of steps, file names, numbers of file parts",
 "Tests run the two systems in lock step in one process set.",
 ["src/manager/ProcessGroupWorker.cpp","src/sparsegrid/DistributedSparseGridIO.hpp","src/io/MPIInputOutput.hpp","src/io/FileInputOutput.cpp","src/manager/SparseGridWorker.hpp"],
 [("token files","signal that data is complete","file system"),("exchange files","sparse grid data","file system")],
 [("combineSystemWideAndWrite","src/manager/ProcessGroupWorker.cpp"),("combineReadDistributeSystemWide","src/manager/ProcessGroupWorker.cpp")],
 ["files appearing in the exchange directory","grid values after the step"])

prop("C12","Coupled systems agree on which subspaces they exchange",
 "When systems exchange their sparse-grid subspace sizes, every system ends up with the same sizes for the exchanged sparse grid: the common subspaces (minimum rule), the subspaces of any system (maximum rule), or those at least two of three systems have, and per-process data layouts are consistent with these sizes.",
 ["inputs","configurations"],
 "all sets of subspaces and sizes per system, numbers of systems and processes",
 "Tests use one scheme split in half.",
 ["src/manager/SparseGridWorker.hpp","src/manager/ProcessGroupWorker.cpp","src/sparsegrid/DistributedSparseGridIO.hpp","src/manager/ProcessManager.cpp"],
 [("subspace sizes","per-subspace counts","AnyDistributedSparseGrid::subspacesDataSizes_")],
 [("reduceSubspaceSizesFileBased / readReduceSubspaceSizesFromFile(s)","src/manager/SparseGridWorker.hpp")],
 ["subspace sizes on each rank","size files"])

prop("C13","Sparse-grid files give back exactly what was written",
 "Data written to disk by any number of processes (uncompressed, compressed, split into parts or one file) is read back bit-identically by the same layout, reading with reduction adds exactly the file's value to every entry (or leaves exactly the sum over several files), and file size and order are independent of the chunk size used for reading. A failed or short file is reported as fewer values read, never as success.",
 ["inputs","configurations","fault_sequences"],
 "all process counts, per-process counts (including zero), values, numbers of parts and read chunk sizes, truncated or missing files",
 "Tests use one size per code path; chunk boundaries and empty ranks are not sampled.",
 ["src/io/MPIInputOutput.hpp","src/io/MPICompression.hpp","src/sparsegrid/DistributedSparseGridIO.hpp"],
 [("file contents","values in rank order","file system")],
 [("writeValuesConsecutive, readValuesConsecutive, readReduceValuesConsecutive","src/io/MPIInputOutput.hpp"),("readReduceCompressedValues","src/io/MPICompression.hpp")],
 ["data buffers after read","file contents"])

prop("C14","The broker pairs two systems and relays their data unchanged",
 "The third-level broker connects exactly the configured systems; for systems that ask for the same operations it lets exactly one of the two send first in each operation, relays size and data messages byte for byte and in order between them (however they are fragmented), and after a combination both systems hold the same sum. The systems may become ready in any order and at any speed, and the broker ends, without error, once all systems have finished, even if nothing was exchanged.",
 ["schedules","histories"],
 "all orders of readiness, kinds of requests (combine, size exchange, data exchange, file-based), numbers of steps and data sizes",
 "The TCP tests are not part of the reliable suite and use one order.",
 ["third_level_manager/thirdLevelManager.cpp","third_level_manager/System.cpp","src/third_level/ThirdLevelUtils.cpp"],
 [("connections","one per system","third_level_manager/System")],
 [("ThirdLevelManager::runtimeLoop / processMessage","third_level_manager/thirdLevelManager.cpp"),("ThirdLevelUtils client functions","src/third_level/ThirdLevelUtils.cpp")],
 ["messages received and sent on the sockets"])

prop("C15","Network transport delivers data exactly for any fragmentation",
 "Whatever way the network splits or coalesces the byte stream, messages and arrays sent over a connection arrive complete, in order and unchanged; receive-and-add operations add each received element exactly once; data sent with the other byte order is converted correctly. The receiving side never consumes bytes of the following message.",
 ["schedules","inputs"],
 "all fragmentations of the stream, message lengths, element counts (at least one), chunk sizes and byte orders",
 "On loopback a stream is hardly ever split inside an element, so tests never see short reads.",
 ["src/third_level/NetworkUtils.hpp","src/third_level/NetworkUtils.cpp"],
 [("socket stream","bytes in flight","ClientSocket")],
 [("recvall*, recvallBinaryAndReduceInPlace, reverseEndianness","src/third_level/NetworkUtils.hpp")],
 ["buffers after the receive functions"])

prop("C16","Interpolation, norms and plot files do not depend on how a grid is distributed",
 "The interpolated value at any point of the closed domain equals the piecewise multilinear interpolant of the grid's nodal values (periodic where a dimension has one boundary point), on every process and in the order of the requested points; the maximum and one norms equal their definition on the full grid and the two norm is the same for every decomposition; exchanged boundary layers and gathered grids hold the neighbours' values; a plot file (raw, with header, VTK, or text for a gathered grid) holds the grid's extents and then every point's value once, in index order. Interpolating a combined solution gives the coefficient-weighted sum over all grids of all groups, and evaluating the sparse grid on a level gives the combined solution on that level.",
 ["inputs","configurations"],
 "all grids, boundary types, decompositions, evaluation points (on points, between processes, at the domain border) and coefficients",
 "Tests evaluate a few interior points of symmetric setups with a tolerance.",
 ["src/fullgrid/DistributedFullGrid.hpp","src/manager/ProcessGroupWorker.cpp","src/manager/InterpolationWorker.hpp","src/manager/SparseGridWorker.hpp","src/manager/ProcessManager.cpp"],
 [("nodal values","grid values","DistributedFullGrid")],
 [("evalLocal/getInterpolatedValue(s)","src/fullgrid/DistributedFullGrid.hpp"),("getLpNorm","src/fullgrid/DistributedFullGrid.hpp"),("interpolateAndPlotOnLevel","src/manager/SparseGridWorker.hpp")],
 ["return values on each rank","plot files"])

prop("C17","After losing grids the recomputed coefficients form a valid combination",
 "After any set of grids has been lost, the manager hands every process new coefficients such that: every lost grid either has coefficient zero (and is redistributed) or is named for recomputation (never a grid of the two finest diagonals), and every lost grid is in exactly one of the two lists; every subspace is counted once or not at all; the kept subspaces are worth as much (4^-|l| each) as without the lost grids is possible, so the coefficients sum to one unless even the coarsest grid is lost. Losses on coarser diagonals only leave the coefficients unchanged, and restoring the scheme brings back the original coefficients, for any number of rounds.",
 ["fault_sequences","inputs"],
 "all schemes and sets of lost grids the recovery accepts",
 "The fault tolerance test is not part of the reliable suite and simulates one fault.",
 ["src/fault_tolerance/FTUtils.cpp","src/fault_tolerance/LPOptimizationInterpolation.cpp","src/manager/ProcessManager.hpp"],
 [("fault list","lost grids","LP_OPT_INTERP::fault_tasks")],
 [("LP_OPT_INTERP","src/fault_tolerance/LPOptimizationInterpolation.cpp")],
 ["get_results / get_recompute_tasks"])

prop("C18","Load estimates and rescheduling decisions are well defined for every history",
 "A load model's estimate is defined for every announced level, equals the documented statistic (linear in the number of points; average of the last n durations, zero microseconds if there are none; average of recorded durations, across sessions through its files) of exactly the durations added for that level, and is independent of durations of other levels and of their magnitude. A rescheduling decision is defined for every history (also without durations), only names existing tasks and groups, each task at most once, is reached by single moves from a slowest to a fastest group (at most as many as allowed and only while the imbalance is as large as asked for), and never increases the maximum load of the groups if the estimates are exact.",
 ["histories","inputs"],
 "all sequences of reported durations, levels and task placements",
 "Tests check two or three values of one model.",
 ["src/loadmodel/AverageOfLastNLoadModel.cpp","src/loadmodel/AveragingLoadModel.cpp","src/loadmodel/LinearLoadModel.cpp","src/loadmodel/LearningLoadModel.hpp","src/rescheduler/RebalancingTaskRescheduler.cpp"],
 [("durations","history per level","load model members")],
 [("eval/addDurationInformation","src/loadmodel"),("RebalancingTaskRescheduler::eval","src/rescheduler/RebalancingTaskRescheduler.cpp")],
 ["return values of eval"])

prop("C19","Reported extreme coefficients are those of the combined solution",
 "The report of minimum and maximum coefficients lists every hierarchical subspace of the sparse grid that some component grid has exactly once, with the smallest and the largest hierarchical coefficient the combined solution has in it, over all processes of all groups, and no other subspace. With the chunked variant it covers exactly the combinations in which values were collected since the previous report, otherwise the last combination. It does not depend on the number of groups and processes, on the decomposition or on whether a manager asks for it, and every grid of a task has its own report.",
 ["inputs","configurations","histories"],
 "all schemes, values, groups, decompositions, combination variants, and sequences of combinations and reports",
 "Tests only call the function and never look at the file.",
 ["src/sparsegrid/DistributedSparseGridIO.hpp","src/sparsegrid/DistributedSparseGridUniform.hpp","src/manager/SparseGridWorker.hpp","src/manager/ProcessManager.cpp"],
 [("collected extremes","smallest and largest coefficient per subspace","DistributedSparseGridUniform::minCoefficientPerSubspace_/maxCoefficientPerSubspace_")],
 [("accumulateMinMaxCoefficients","src/sparsegrid/DistributedSparseGridUniform.hpp"),("writeMinMaxCoefficents","src/sparsegrid/DistributedSparseGridIO.hpp")],
 ["the written text file"])

prop("C20","Tasks and parameters survive transfer between processes unchanged",
 "A task, parameter set, duration record or configuration file sent from one process to another (manager to group, group to manager, root to all) arrives with identical content on every process of the receiving group: level, boundary, coefficient, identity, fault plan, decomposition, bases, mappings between levels, tasks and coefficients, and all combination settings, also if the receiving object had other content before. Objects sent one after the other arrive in order.",
 ["inputs","configurations","histories"],
 "all parameter combinations, tasks and receivers",
 "Tests check one object with default settings.",
 ["src/task/Task.hpp","src/task/Task.cpp","src/manager/CombiParameters.hpp","src/mpi/MPIUtils.hpp","src/io/BroadcastParameters.cpp"],
 [("task fields","dim,l,boundary,coeff,loadModel,isFinished,id","Task"),("parameters","CombiParameters fields","CombiParameters")],
 [("Task::send/receive/broadcast","src/task/Task.cpp"),("MPIUtils::sendClass...","src/mpi/MPIUtils.hpp")],
 ["public getters on the receiving ranks"])

prop("C21","Timing files contain every measured event exactly once",
 "Every event a process starts and stops is recorded with the times of its start and its end, and its duration is the time between them. A partial timing file contains, for every process of the communicator in rank order, all its attributes with their last values and exactly those of its events that ended since the previous partial file (so every event is in exactly one of them, in the first one written after its end, and no running event is in any); the final file contains all events of the session. Times count from the initialisation of the session, partial files are numbered from zero in each session, nothing of an earlier session or an older file of the same name is left, and the files are valid JSON also if a process has nothing to report.",
 ["inputs","configurations","histories"],
 "all sequences of started and stopped events, attributes, partial and final files and sessions on any number of processes",
 "A test calls the functions once and does not read the file.",
 ["src/utils/Stats.hpp","src/utils/Stats.cpp","src/io/FileInputOutput.cpp"],
 [("recorded events","start and end per name","Stats::event_"),("time until which events were written","last partial file","Stats::partially_written_until_")],
 [("startEvent/stopEvent","src/utils/Stats.hpp"),("writePartial","src/utils/Stats.hpp"),("write","src/utils/Stats.hpp")],
 ["the written JSON files","returned durations"])

prop("C22","Subspace size files prepared in advance match the schemes' grids",
 "For every parameter file with one to three scheme files, the subspace_writer tool writes for each scheme a file that the workers of a process group of the same shape can read into the sparse grid they use in the computation: for every process and every subspace, in the sparse grid's order, the number of points of that subspace the process stores if some grid of the scheme contains the subspace, and zero otherwise. The conjoint file has the same number for exactly those subspaces which at least two of the schemes contain, and zero for all others, so that exchanging the conjoint subspaces gives every system the sum over all systems in each of its subspaces. Files of an earlier run are overwritten.",
 ["inputs","configurations"],
 "all scheme files (parts of one scheme or arbitrary grids, including unrefined dimensions), minimum and maximum levels, numbers of processes per dimension and one to three systems",
 "No test runs the tool.",
 ["tools/subspace_writer/subspace_writer.cpp","src/sparsegrid/DistributedSparseGridIO.hpp","src/sparsegrid/DistributedSparseGridUniform.hpp","src/utils/DecompositionUtils.hpp","src/combischeme/CombiMinMaxScheme.hpp"],
 [("subspace sizes","number of points per subspace and process","DistributedSparseGridUniform::subspacesDataSizes_")],
 [("schemeFileToSparseGridAndSizesFile","tools/subspace_writer/subspace_writer.cpp"),("conjoint sparse grid","tools/subspace_writer/subspace_writer.cpp")],
 ["the written .sizes files, and the sizes readSubspaceSizesFromFile gets from them"])

if __name__=="__main__":
    import os
    out=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/properties.jsonl"
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
    with open(out,"w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
    print(len(P))
