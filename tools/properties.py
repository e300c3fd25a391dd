def check(technique, note):
    return {"kind": "check", "technique": technique, "note": note}


def na(reason):
    return {"kind": "na", "reason": reason}


SAMPLED = "Seeded sampling: a quiet run is evidence, not proof. One simulated thread runs at a time; weak-memory effects are represented by the happens-before race check only."

prop("C01", "Parallel loops run every element exactly once and finish before returning",
     "A parallel loop over a range runs its body exactly once for every element of the range and for nothing else, whatever the range (empty, reversed, negative, containers), the grouping of elements, the number of workers and the nesting of loops. It returns only when every body has finished, and what the bodies wrote is then visible to the caller. With a second worker free, an element that takes long holds up no element of another group. Threads that wake up for no reason change nothing about this.",
     [S, I, C, F], "all schedules of the workers, spurious wake-ups, ranges, group sizes, tasks per worker, worker counts 0..5 beside the caller, loops nested up to three deep",
     "The unit tests do not run the pool under contention; whether a chunk is lost, doubled or still running at return depends on how workers interleave and on the sizes of range and groups.",
     ["include/utils/ThreadPool.h", "src/utils/ThreadPool.cpp"],
     [("chunking of the range and count of unfinished chunks", "include/utils/ThreadPool.h parallel_for"), ("caller works along and waits", "include/utils/ThreadPool.h ThreadPool::work_while")],
     ["start and end of each loop body", "return of the loop"],
     check("deterministic simulation: seeded schedules and spurious wake-ups over random loop programs, per-element ledger as reference", "Runs the real pool and loop templates under a simulated scheduler; " + SAMPLED))

prop("C02", "Ordered pipelines consume everything once, in order, within their window",
     "When many producers feed one ordered consumer, every index is produced exactly once, and every product is consumed exactly once, in index order, never two at a time and with everything the producer wrote visible. No index is started further ahead of the oldest unconsumed one than the announced window per worker, and the call always returns, after the last product was consumed and when no producer or consumer is still running. With a second worker free, a producer that takes long holds up none of the elements in the window behind it. Nothing of the call (the conditions it waits on included) is used once it is over. This holds for every index range (also empty or starting at negative indices), window, number of workers and for workers that wake up for no reason.",
     [S, I, C, F], "all schedules, spurious wake-ups, ranges starting between -6 and 14, up to 120 elements, windows of 1..3 or 8 per worker, 0..5 workers beside the caller, nullable product types (unique_ptr, optional, shared_ptr)",
     "Every g-code file is written through this pipeline, but the unit tests never run it; lost wake-ups, early returns and reordering only show under particular interleavings.",
     ["include/utils/ThreadPool.h", "src/FffGcodeWriter.cpp", "src/gcode_export/gcodeExport.cpp"],
     [("ring buffer of products and read/write indices", "include/utils/ThreadPool.h MultipleProducersOrderedConsumer"), ("signals for free slots and for completion", "include/utils/ThreadPool.h worker, consume_many, run")],
     ["producer and consumer calls", "return of the call"],
     check("deterministic simulation: seeded schedules and spurious wake-ups over random pipelines, sequential reference", "Runs the real pipeline template on the real pool under a simulated scheduler; " + SAMPLED))

prop("C03", "The worker pool loses no task and leaves no thread behind",
     "Every task given to the worker pool runs exactly once, holding the queue's lock when it starts, including tasks queued by tasks and tasks still waiting when the pool is destroyed; when destruction returns no worker thread and no task is left. A pool has as many threads as it was asked for; asking for a number of workers gives that number including the caller, asking for none in particular keeps an existing pool and otherwise uses the detected processors (at least the caller alone when the number is unknown). If the system refuses to start a thread the process ends with an error or carries on, but does not hang or lose work.",
     [S, H, C, F], "all schedules, sequences of queueing, helping, restarting and destroying, spurious wake-ups, refused threads, 0..8 processors, 0..5 pool threads",
     "No unit test starts, restarts or destroys a pool while work is queued, and none can make the system refuse a thread or report no processors.",
     ["include/utils/ThreadPool.h", "src/utils/ThreadPool.cpp", "src/Application.cpp"],
     [("queue, lock and condition of the pool", "src/utils/ThreadPool.cpp"), ("choice of the number of threads", "src/Application.cpp startThreadPool")],
     ["task starts", "thread count", "live threads after destruction"],
     check("deterministic simulation: seeded schedules, spurious wake-ups and refused threads over random pool histories", "Runs the real pool and the application's start/restart logic; " + SAMPLED))

prop("C04", "The same slice gives the same g-code on every schedule and machine",
     "For the same model files and settings the engine writes byte-for-byte the same g-code, however its worker threads interleave, however many workers there are, wherever the allocator places objects and whatever the clocks say. Excluded are only settings that ask for random placement of seams.",
     [S, C, I, F], "all schedules, 1..8 workers, allocator layouts, clock jumps; models and settings profiles sampled (walls, infill patterns, supports, adhesion, painting, several extruders and objects)",
     "Unit tests compare small geometric results in one thread; schedule- or address-dependent order anywhere in the pipeline is invisible to them.",
     ["src/FffPolygonGenerator.cpp", "src/FffGcodeWriter.cpp", "src/LayerPlan.cpp", "src/infill/LightningGenerator.cpp", "src/TreeModelVolumes.cpp", "src/TreeSupport.cpp", "src/SkeletalTrapezoidation.cpp", "src/MeshMaterialSplitter.cpp"],
     [("work split by index, results stored by index", "uses of the parallel loop in src/FffPolygonGenerator.cpp, src/slicer.cpp, src/support.cpp"), ("layers handed over in order", "src/FffGcodeWriter.cpp writeGCode"), ("caches filled under a lock", "src/TreeModelVolumes.cpp")],
     ["the output file"],
     check("deterministic simulation of the whole engine: seeded schedules, worker counts, heap layouts and clock jumps, output compared with the sequential run", "Whole engine, real code; " + SAMPLED))

prop("C05", "Slicing has no data race and touches no memory it does not own",
     "However worker threads interleave, slicing any valid model with any valid settings never reads or writes freed memory or memory outside an allocation, and no two threads touch the same data without synchronisation when one of them writes.",
     [S, I, C], "all schedules, 1..4 workers, heap layouts; models and settings profiles sampled",
     "The tests run the algorithms on one thread with valid inputs and no race detector; a race needs two layers processed at once.",
     ["src/FffPolygonGenerator.cpp", "src/FffGcodeWriter.cpp", "src/TreeModelVolumes.cpp", "src/TreeSupport.cpp", "src/TreeSupportTipGenerator.cpp", "src/infill/LightningGenerator.cpp", "src/support.cpp", "src/slicer.cpp"],
     [("workers write to disjoint elements or under a lock", "bodies of the parallel loops"), ("read-only sharing of storage while layers are planned", "src/FffGcodeWriter.cpp processLayer")],
     ["every memory access of the engine's own code"],
     check("deterministic simulation of the whole engine with a happens-before race detector and a checking allocator", "Accesses inside third-party libraries are seen only at their boundaries; stack and global overflow inside one object is not seen; " + SAMPLED))

prop("C06", "Slicing always comes to an end",
     "Slicing any valid model with any valid settings ends with the output written, for every schedule, worker count and for workers that stall or wake up for no reason: no deadlock, no lost wake-up, no endless loop or retry.",
     [S, C, F, I], "all schedules, 1..6 workers, stalls, spurious wake-ups and spurious compare-exchange failures; models and settings profiles sampled",
     "Hangs need particular interleavings or wake-ups that a test run on one machine hardly ever produces.",
     ["include/utils/ThreadPool.h", "src/FffGcodeWriter.cpp", "src/TreeModelVolumes.cpp", "src/MeshMaterialSplitter.cpp", "src/utils/SpatialLookup.cpp"],
     [("completion counts and condition variables", "include/utils/ThreadPool.h"), ("critical sections of caches", "src/TreeModelVolumes.cpp")],
     ["end of the process", "state of every thread when nothing can run"],
     check("deterministic simulation of the whole engine: deadlock and step-bound detection under seeded schedules and stalls", "Liveness is progress within a bounded number of scheduling steps and memory accesses; " + SAMPLED))

prop("C07", "Exit status 0 means the whole g-code file is on disk",
     "If slicing to a file ends with success, the file holds the complete g-code, the same as without any fault, even when writing needed retries or was split up. If the file cannot be opened, the disk fills up, a write or the final close fails, the process reports failure by its exit status and does not hang. A process killed at any moment leaves at most an incomplete file that is a prefix of the right one, never different content.",
     [F, K, S, C], "open failures, full disks, I/O errors, short and interrupted writes, failing close, kills at any I/O operation; output options and schedules sampled",
     "No test writes an output file, none can make the disk fail at a chosen write.",
     ["src/communication/CommandLine.cpp", "src/gcode_export/gcodeExport.cpp", "src/FffProcessor.cpp"],
     [("opening of the output file and end of slicing", "src/gcode_export/gcodeExport.cpp setOutputStream, src/FffProcessor.cpp setTargetFile, finalize")],
     ["exit status", "content of the output file"],
     check("deterministic simulation of the whole engine with I/O fault injection on the output, compared with the fault-free file", SAMPLED))

prop("C08", "A model is loaded completely and correctly, or loading fails",
     "Whatever the storage does while a model file is read - errors, short or interrupted reads, failing opens or seeks - loading either fails visibly or gives exactly the triangles of the file. For every well-formed model file, binary or text, the loaded triangles are those of the file, each once and in order, and joined triangles know each other.",
     [F, I, C], "read errors, short and interrupted reads, failing open and seek at any operation; STL (binary, text, any line ends) and OBJ files sampled",
     "Tests load two small files from a healthy disk; an error at the n-th read needs injection.",
     ["src/MeshGroup.cpp", "src/mesh.cpp"],
     [("reading of STL and OBJ files", "src/MeshGroup.cpp"), ("joining of vertices and faces", "src/mesh.cpp")],
     ["result of loading", "vertices and faces of the loaded mesh"],
     check("deterministic simulation of the loaders with seeded read faults against an independent model of the file", SAMPLED))

prop("C09", "Settings come completely from their definition files, or the run fails",
     "Whatever the storage does while definition files are read - failing opens, errors, short or interrupted reads - a slice that reports success used exactly the values that the files and the command line give, with later and more specific values overriding earlier and more general ones. Otherwise the process reports failure.",
     [F, I, C], "failing opens, read errors, short and interrupted reads of definition files with inheritance and extruder trains; command lines with overrides sampled",
     "Tests parse no definition files from a failing disk.",
     ["src/communication/CommandLine.cpp"],
     [("loading of JSON definitions and inheritance", "src/communication/CommandLine.cpp loadJSON, loadJSONSettings")],
     ["exit status", "g-code, which depends on the settings"],
     check("deterministic simulation of the whole engine with read faults on definition files, compared with the fault-free g-code", SAMPLED))

prop("C10", "Painted textures and image inputs are read correctly, or left out visibly",
     "Texture coordinates, painting images and density images that are read while the storage fails are either exactly those of the file, or the engine reports the problem and goes on without them or stops; it never uses half-read or invented data and never touches memory outside the image.",
     [F, I], "failing opens, read errors, short and interrupted reads; images of 1..4 channels and every size from 1x1, coordinates outside the image",
     "The tests decode no image files.",
     ["src/MeshGroup.cpp", "src/TextureDataProvider.cpp", "src/infill/ImageBasedDensityProvider.cpp", "src/Image.cpp"],
     [("reading of coordinates and images", "src/MeshGroup.cpp loadUVCoordinates, loadPaintData"), ("pixel lookup", "src/TextureDataProvider.cpp, include/geometry/Image.h")],
     ["values looked up", "log"],
     check("deterministic simulation of the readers with seeded faults against an independent model of the image", SAMPLED))

prop("C11", "A front-end gets every layer and all g-code, in order, exactly once",
     "Connected to a front-end, the engine answers one slice request by sending each layer once, the g-code in order (joined, the same as written to a file for the same input), estimates, and the end of slicing exactly once and last. If the connection is refused, lost or carries unexpected messages, the engine ends instead of hanging, and never announces the end of a slice it has not sent completely.",
     [S, F, H, C], "all schedules of engine and connection threads, delays, refusal, loss at any message, foreign messages; requests with several extruders, objects and per-object settings sampled",
     "The tests only use a mocked socket and never connect or slice.",
     ["src/communication/ArcusCommunication.cpp", "src/communication/ArcusCommunicationPrivate.cpp", "src/communication/Listener.cpp"],
     [("message building and order", "src/communication/ArcusCommunication.cpp"), ("unpacking of the request", "src/communication/ArcusCommunicationPrivate.cpp")],
     ["messages sent", "end of the process"],
     check("deterministic simulation of the whole engine against a scripted front-end with network faults", "The socket library is a stand-in; " + SAMPLED))

prop("C12", "Reported progress never goes back and clocks cannot disturb it",
     "While one set of objects is sliced, progress reported to the user never decreases, stays between 0 and 1, and for every stage and layer count is what the finished share of work says, however workers interleave. Clocks that jump forwards, backwards or stand still change reported durations only: never the order or range of progress, the output or the end of the slice.",
     [S, F, H, C], "all schedules, clock jumps in both directions at any reading, stages and layer counts sampled",
     "Tests neither collect progress of a real slice nor move the clock.",
     ["src/progress/Progress.cpp", "src/progress/ProgressEstimatorLinear.cpp", "src/progress/ProgressStageEstimator.cpp", "src/utils/gettime.cpp", "src/FffPolygonGenerator.cpp"],
     [("weights of stages", "src/progress/Progress.cpp"), ("guarded progress counter", "src/FffPolygonGenerator.cpp processWallsAndSkin")],
     ["progress messages", "time keepers"],
     check("deterministic simulation: progress histories under seeded schedules and clock jumps, against a reference model", SAMPLED))

prop("C14", "Layers appear in the g-code once each, in order, complete",
     "In every g-code file the layers of each group of objects follow one another in order, every layer exactly once from the first to the announced last, at non-decreasing heights apart from hops and pauses between objects, and the announced number of layers is the number that follow. This holds for every schedule and worker count.",
     [S, C, H, I], "all schedules, 1..6 workers; settings profiles, objects, one-at-a-time printing sampled",
     "Tests check single layers; order and completeness come from the buffering across layers and threads.",
     ["src/FffGcodeWriter.cpp", "src/LayerPlanBuffer.cpp", "src/LayerPlan.cpp", "src/gcode_export/gcodeExport.cpp"],
     [("ordered hand-over of planned layers", "src/FffGcodeWriter.cpp writeGCode"), ("buffer of layers", "src/LayerPlanBuffer.cpp")],
     ["the output file"],
     check("deterministic simulation of the whole engine: history check of the layer sequence in the g-code under seeded schedules", SAMPLED))

prop("C15", "Collision data for tree supports is the same however it is computed",
     "Collision, avoidance, placeable and wall-restriction areas requested for any radius and layer are the same whether they were calculated in advance or on demand, in which order and from how many threads they are requested, and whatever was requested before.",
     [S, H, I, C], "all schedules of concurrent requests, request orders, with and without precalculation, 0..4 workers; model outlines, radii, layers and settings sampled",
     "Tests never ask for these areas concurrently or in different orders.",
     ["src/TreeModelVolumes.cpp", "include/TreeModelVolumes.h"],
     [("caches per radius and layer, each with its lock", "include/TreeModelVolumes.h"), ("calculation on demand", "src/TreeModelVolumes.cpp")],
     ["areas returned"],
     check("deterministic simulation: concurrent random request histories compared with a fresh sequential instance", SAMPLED))

prop("C16", "Painted areas do not depend on the order in which voxels are visited",
     "The grid of painted voxels and the lookup of the nearest painted point give the same answer as a plain sequential search, however many threads fill and query them and in whatever order: every set voxel is found again once, none is lost or invented, and equally near points are resolved the same way.",
     [S, H, I], "all schedules of concurrent writers, spurious compare-exchange failures, point sets and resolutions sampled",
     "Tests fill grids from one thread.",
     ["include/utils/VoxelGrid.h", "src/utils/VoxelGrid.cpp", "include/utils/SpatialLookup.h", "src/utils/SpatialLookup.cpp", "src/MeshMaterialSplitter.cpp"],
     [("concurrent map of voxels", "src/utils/VoxelGrid.cpp"), ("sorted lookup tree", "src/utils/SpatialLookup.cpp")],
     ["contents and nearest-point answers"],
     check("deterministic simulation: concurrent random histories compared with a sequential reference model", "The concurrent hash map is boost's real code where present; " + SAMPLED))

prop("C17", "Running out of memory or threads never passes for success",
     "When an allocation fails or a thread cannot be started at any point of slicing, the process either still writes the complete and correct g-code and reports success, or ends without reporting success. It does not hang, and it does not corrupt memory on the way. In the same way an exception that leaves the body of a parallel loop or a stage of an ordered pipeline either ends the process or reaches the caller once nothing of the loop or pipeline is running any more; it is never lost.",
     [F, S, C], "failing allocations and thread starts at any operation, also several; exceptions at any element of random loops and pipelines; models, settings profiles and schedules sampled",
     "No test makes an allocation or thread start fail.",
     ["src/Application.cpp", "src/utils/ThreadPool.cpp", "src/communication/CommandLine.cpp", "include/utils/ThreadPool.h"],
     [("unhandled errors end the process", "src/main.cpp"), ("exceptions of workers", "src/utils/ThreadPool.cpp")],
     ["exit status", "content of the output file"],
     check("deterministic simulation of the whole engine with failing allocations and thread starts, and of loops and pipelines whose bodies throw", "Allocations inside third-party libraries other than Clipper are not made to fail; " + SAMPLED))

prop("C18", "What the g-code announces is what its moves add up to",
     "The totals in the finished g-code agree with its moves: filament used per extruder is the sum of what the moves push, the announced extents enclose every extruding move, and the times after each layer never decrease, leave no layer less time than its moves take at their speeds, and end at the announced print time. This holds for every schedule, worker count, number of extruders and whatever the clocks say.",
     [S, C, I, H], "all schedules, 1..4 workers, clock jumps; settings profiles and random mixes of them, objects, extruders and groups sampled",
     "The totals are put together over the whole print, in a header written before the moves are known and replaced afterwards; the tests look at single calls only.",
     ["src/gcode_export/gcodeExport.cpp", "src/FffGcodeWriter.cpp", "src/communication/CommandLine.cpp", "src/LayerPlan.cpp"],
     [("running totals per extruder", "src/gcode_export/gcodeExport.cpp getTotalFilamentUsed"), ("header rewritten at the end", "src/FffGcodeWriter.cpp finalize")],
     ["header and comments of the output file against its moves"],
     check("deterministic simulation of the whole engine: an independent interpreter replays the g-code history and compares totals", SAMPLED))

prop("C20", "The machine is asked only for what its state allows",
     "The start code of the machine comes once, before all moves, the end code once, after them. Through the whole g-code file every command is well-formed with finite numbers, for an extruder that exists, and with a speed, temperature or fan speed in the range the settings allow. Filament is extruded only while none of it is retracted, by software or by the firmware, and, once the file has set the temperature of an extruder, only while that is one of its printing temperatures, which after a change of extruder has been waited for. An extruder that is not used any more is left at its standby temperature or colder while others go on (unless they share a heater). Nothing but extrusion, retraction and its undoing moves filament. This holds for every schedule, worker count and combination of settings.",
     [S, C, I, H], "all schedules, 1..4 workers; settings profiles and random mixes, several extruders, groups and one-at-a-time printing sampled",
     "The state of extruders and heaters is tracked over all layers and across the buffer of planned layers; tests check single commands from a fresh state.",
     ["src/gcode_export/gcodeExport.cpp", "src/LayerPlan.cpp", "src/LayerPlanBuffer.cpp", "src/FffGcodeWriter.cpp"],
     [("state of extruders and heaters", "src/gcode_export/gcodeExport.cpp"), ("preheating over buffered layers", "src/LayerPlanBuffer.cpp")],
     ["the output file"],
     check("deterministic simulation of the whole engine: a reference state machine of the printer replays the g-code history", SAMPLED))

prop("C21", "What is printed keeps to the outline of the model",
     "For every valid model and every layer, walls, skin and infill together fill the cross-section of the model at that height and nothing outside it, within the tolerances the settings give.",
     [I, C], "all models and settings", "The tests compare single geometric operations on hand-made polygons.",
     ["src/WallToolPaths.cpp", "src/skin.cpp", "src/infill.cpp", "src/slicer.cpp"],
     [("walls of variable width", "src/WallToolPaths.cpp, src/SkeletalTrapezoidation.cpp"), ("skin and infill areas", "src/skin.cpp")],
     ["extruding moves of each layer"],
     na("A pure function of model and settings: no schedule, clock, I/O, fault or second party takes part in it once C04 (same result on every schedule) and C08/C09 (input read completely) hold, so that simulated runs would be ordinary random tests of a geometric oracle."))

prop("C22", "Failing plugins cannot change or stop a slice silently",
     "When an engine plugin is slow, refuses, dies or answers with malformed data, slicing either goes on with the engine's own step or ends with an error; a plugin's answer is used exactly once and for the element it was asked for.",
     [S, F], "all plugin slots, answers and failures of the connection", "No test connects a plugin.",
     ["include/plugins/slotproxy.h", "include/plugins/pluginproxy.h", "src/plugins"],
     [("slots and their proxies", "include/plugins/slots.h")],
     ["requests to and answers from plugins"],
     na("The plugin code is compiled only with ENABLE_PLUGINS, which needs gRPC, asio-grpc and the generated protocol code; none of them is in the sandbox, and the build here switches it off."))

prop("C23", "Formulas of settings and templates have the value the language gives them",
     "An expression in a setting or in start and end g-code is evaluated as the formula language defines, for every expression and every setting it refers to.",
     [I], "all expressions", "The tests evaluate a few expressions.",
     ["src/gcode_export/GcodeTemplateResolver.cpp", "src/settings"],
     [("resolving of templates", "src/gcode_export/GcodeTemplateResolver.cpp")],
     ["resolved text"],
     na("The evaluator is the library cura-formulae-engine, which the sandbox does not have (the simulator and the build here use a stand-in), and evaluation is a pure function without schedule, time or I/O."))

prop("C24", "Estimated times are those of a printer with the given limits",
     "The estimated duration of a sequence of moves is that of a machine which keeps the configured speeds, accelerations and jerks, for every sequence.",
     [I, C], "all sequences of moves and limits", "Tests compare a few sequences.",
     ["src/timeEstimate.cpp"],
     [("trapezoids of planned moves", "src/timeEstimate.cpp")],
     ["TIME comments", "estimates sent to the front-end"],
     na("A pure function of the moves; no clock of the engine takes part (estimates use no wall time), and there is no reference planner other than the formula itself. That announced times are consistent with each other over a print is C18."))
