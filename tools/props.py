import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

TOOLS=["cmd/goosli/goosli.go","cmd/goosli_cutter/goosli_cutter.go","cmd/goosli_simplifier/goosli_simplifier.go","cmd/goosli_colorizer/goosli_colorizer.go","cmd/goosli_analyzer/goosli_analyzer.go"]

p("C01","Same job, same bytes: output independent of scheduling, cores and clock",
"Running the slicing (any slicing type, for meshes of up to 2500 triangles), cutting, colorizing or analysing tool twice on the same input files with the same options gives the same exit status and byte-for-byte the same output files. This holds whatever the number of CPU cores, the interleaving of worker threads, the iteration order of hash maps and the wall-clock time; the only permitted difference is the G-code header's 'Sliced at' line, which carries the time of the run.",
["schedules","inputs","configurations"],"all goroutine interleavings, CPU counts 1..64, map iteration orders, clock values and jumps; all input meshes and option sets",
"The tests run each model once on whatever schedule the OS gives and only compare layer counts; they never compare two runs, core counts or map orders.",
["slicers/slice_by_vector.go","primitives/utils.go","primitives/stl.go","primitives/mesh.go"]+TOOLS,
[("worker results re-sorted by layer order","slicers/slice_by_vector.go SliceByVector"),("strided disjoint writes by worker index","primitives/stl.go loadSTLBinary, primitives/mesh.go CopyTriangles"),("placeholder substitution over a map","primitives/utils.go PrepareDataFile")],
obs=["output files and exit status of each tool"])

p("C02","Parallel slicing yields every layer exactly once, in order, complete",
"Slicing a closed mesh of extent H along a direction with layer height t returns its ceil(H/t) layers in ascending order along that direction (only an empty first or last layer may be left out), and layer i holds, as closed loops lying in its plane, exactly the outline of the mesh's cross-section at height (i+1/2)*H/ceil(H/t) above the lowest point. No layer is lost, duplicated, swapped or mixed with another layer's contours, and solid outlines and hole outlines keep opposite orientations, for every number of workers and every interleaving.",
["schedules","inputs","configurations"],"all interleavings of the slicing workers and CPU counts 1..64; all closed meshes in general position, directions and layer heights",
"Tests count layers of five models with one schedule; contents, order and worker interaction of layers are never inspected.",
["slicers/slice_by_vector.go","primitives/plane.go","primitives/path.go","primitives/triangle.go"],
[("job/result channels with order tags, results sorted by order","slicers/slice_by_vector.go"),("active-triangle sweep copied per job","slicers/slice_by_vector.go"),("joining of segments into loops","primitives/path.go JoinPaths3")],
state=[("active","triangles crossing the current plane","slicers/slice_by_vector.go"),("paths","per-worker reused segment buffer","slicers/slice_by_vector.go slicingWorker")],
obs=["layers returned by slicing along a vector"])

p("C03","Parallel stages finish: no deadlock, lost share, or stranded worker",
"Every parallel operation (parallel-and-wait, fire-and-forget parallel, binary model loading, triangle copying, slicing) hands each of the N worker indices 0..N-1 its share exactly once, where N is the number of CPUs (or of the threads the runtime may use). The waiting form returns only after every share has finished, and every operation, including slicing meshes that are empty, flat, or thinner than one layer, returns within a bounded number of scheduling steps without panicking, for every interleaving, every core count from one up, and arbitrarily slow or stalled workers. Once it has returned, no worker remains blocked.",
["schedules","configurations","inputs"],"all interleavings, worker stalls, CPU counts 1..64; meshes from empty to hundreds of triangles, layer counts from 0 to hundreds",
"Tests run on one machine's core count with one schedule, never check for stranded goroutines, and never slice flat or empty meshes.",
["primitives/utils.go","slicers/slice_by_vector.go","primitives/mesh.go","primitives/stl.go"],
[("wait group around workers","primitives/utils.go DoInParallelAndWait"),("job channel closed after the last job; both channels buffered to the job count","slicers/slice_by_vector.go")],
obs=["return of the call; goroutines alive afterwards"])

p("C04","Concurrent callers are isolated and free of data races",
"Several threads of one program may at the same time load, copy, measure, slice, cut, rotate, colorize, analyse and save, sharing the same read-only mesh, and each gets exactly the result it would get alone. No interleaving of such calls, or of the library's own worker threads, contains two unsynchronised conflicting memory accesses.",
["schedules","histories"],"all interleavings of 1..6 caller threads and the library's own workers; all mixes of the listed operations",
"The suite has no concurrent test and is not run with the race detector; a race shows only on schedules that line up.",
["slicers/slice_by_vector.go","primitives/utils.go","primitives/path.go","primitives/mesh.go","primitives/stl.go","helpers/cut_mesh.go"],
[("per-call channels, per-worker buffers, no shared package state","slicers/slice_by_vector.go slicingWorker"),("triangles copied before sorting","primitives/mesh.go CopyTriangles")],
obs=["results of concurrent calls; memory accesses under the simulated schedule"])

p("C05","Results do not depend on call history; read-only calls leave inputs alone",
"Within one process, the result of loading, copying, measuring, slicing, cutting, rotating, simplifying, colorizing, analysing or emitting G-code depends only on that call's arguments and files, not on how many or which calls came before it or on how they were scheduled. None of these calls changes the mesh, plane, path or settings it was given.",
["histories","schedules","inputs"],"all sequences (1..12) of operations over a pool of meshes, repeated and interleaved with failing calls",
"Each test performs one call on fresh data; a leak of state from one call into the next is invisible to it.",
["slicers/slice_by_vector.go","helpers/cut_mesh.go","primitives/mesh.go","helpers/simplify_mesh.go","helpers/colorize_triangles.go","slicers/vip/analyze.go","gcode/gcode.go"],
[("copies before mutation; no mutable package state","primitives/mesh.go, slicers/slice_by_vector.go"),("emission state created per emission","gcode/gcode.go ToOutput")],
obs=["return values and arguments after the call"])

p("C06","Loading an STL gives all of its triangles in order, or an error",
"Loading a well-formed binary or ASCII STL returns without error exactly its triangles in file order with single-precision coordinates and normals recomputed from the vertices, however the reads are split and however the parallel decoding is scheduled. If the file cannot be read completely, if a binary file's length disagrees with its triangle count, or if ASCII data ends inside a facet or contains an unparsable vertex coordinate, an error is returned: a torn or unreadable model is never accepted as a smaller one (an ASCII file that ends exactly between two facets counts as well-formed).",
["fault_sequences","schedules","inputs"],"all short-read patterns, read/stat/seek/open errors, truncations and extensions at any byte including while the file is being read; all interleavings of decoding workers",
"Tests only load five intact ASCII files; binary loading, short reads, I/O errors and damaged files are never exercised.",
["primitives/stl.go","primitives/utils.go"],
[("size check against header count, full read of the body","primitives/stl.go LoadSTL, loadSTLBinary"),("scanner error returned","primitives/stl.go loadSTLAscii")],
obs=["mesh and error returned by loading"])

p("C07","A save reported as successful is complete on disk",
"If saving a mesh reports success, the file holds the complete binary STL (84-byte header with the triangle count, then 50 bytes per triangle with float32 normal and vertices in mesh order), and loading it gives the same triangles in single precision. If any write, flush or close fails, the save reports an error.",
["fault_sequences","crash_points","inputs"],"disk full after any number of bytes, write/close errors at any system call, short writes; meshes from 0 to hundreds of triangles",
"No test saves anything; disk faults are never injected.",
["primitives/stl.go"],
[("buffered writer with final flush, error returns","primitives/stl.go SaveSTL")],
obs=["error returned by saving; bytes of the file"])

p("C08","Exit status is honest for every tool under I/O faults",
"Each of the five command-line tools exits with status 0 only if it read all of its inputs without error and every output file it was asked for is complete, with exactly the bytes a fault-free run writes. If any input cannot be opened or read, or any output cannot be created, written or closed without error, the tool exits with a non-zero status and says so on standard error.",
["fault_sequences","schedules","inputs"],"any single or double I/O fault (open, stat, read, seek, create, write, disk-full, close) at any system call of a run, short reads and writes throughout",
"No test runs the tools; I/O errors are never injected.",
TOOLS+["primitives/stl.go","primitives/utils.go","slicers/vip/utils.go"],
[("log.Fatal on errors","cmd/*/*.go"),("error returns of load/save","primitives/stl.go"),("planes file reading","slicers/vip/utils.go readPlanes")],
obs=["exit status, standard error, output files"])

p("C09","Tools change only the files they were told to write",
"At every instant of every run, including one that is killed or fails part-way, the input model, the planes file, the templates and the configuration are unchanged, and the only files created, changed or removed are the output files named by the options (or their documented defaults). The one exception is the debug trace file named in the configuration, and that only while debugging is enabled there.",
["crash_points","fault_sequences","configurations"],"every system call and scheduling step of a run as crash point; any I/O fault; all tools and option sets, debugging on and off",
"Tests never look at the file system, crash a run or toggle debugging.",
TOOLS+["debug/debug.go","primitives/stl.go","primitives/utils.go"],
[("inputs opened read-only","primitives/stl.go LoadSTL, slicers/vip/utils.go readPlanes"),("debug flag","debug/debug.go")],
obs=["file system state after every system call"])

p("C10","A run that fails before its result is ready leaves old outputs intact",
"A tool replaces an existing output file only once its result has been computed: when loading, slicing, cutting, simplifying, template reading or option parsing fails, or the process is killed before that point, an output file left by an earlier run still has its old content. This also makes it safe to name the input file as the output: the run gives the same output as with a separate file.",
["crash_points","fault_sequences","inputs"],"any fault or kill at any step before the first output write; outputs pre-existing or absent; output path equal to the input path",
"Tests never run the tools, never kill them and never pre-populate outputs.",
TOOLS,
[("outputs created after all computation","cmd/*/*.go")],
obs=["content of pre-existing output files after a failed or killed run"])

p("C11","Cutting conserves the surface: nothing lost, duplicated or misplaced",
"When the cutter exits with status 0, every piece of the input model's surface is in exactly one of the two output files: the upper one holds what lies in front of the plane (on the side its normal points to), the lower one what lies behind it, and a face exactly in the plane is in either one, also for models that touch the plane in vertices, edges or faces. Any other surface in the outputs lies in the cutting plane (the caps that close the cut), added to both outputs with opposite orientation.",
["fault_sequences","schedules","inputs"],"all closed meshes and planes (including planes through vertices, edges and faces), under short reads/writes, disk faults, kills and any schedule",
"Nothing tests cutting; conservation must hold for every mesh, plane and I/O behaviour.",
["helpers/cut_mesh.go","cmd/goosli_cutter/goosli_cutter.go","primitives/plane.go","primitives/stl.go"],
[("per-triangle split into both lists","helpers/cut_mesh.go CutMesh, splitOnThree")],
obs=["the two STL files written by the cutter"])

p("C12","Colorizer writes one correct verdict byte per triangle, in file order",
"When the colorizer exits with status 0, its output file holds exactly one byte per input triangle, in file order: 1 if the angle between the triangle's normal and the reversed reference direction is below 90 degrees minus the given angle, else 0. This holds however reads and writes are split and whatever the worker schedule; under any I/O fault it either still holds or the exit status is non-zero.",
["fault_sequences","schedules","inputs"],"all meshes, directions and angles; short reads/writes, any I/O fault at any system call, any schedule",
"Nothing tests the colorizer; completeness of its output under faults needs injected faults.",
["cmd/goosli_colorizer/goosli_colorizer.go","helpers/colorize_triangles.go","primitives/stl.go"],
[("buffered binary write and flush","cmd/goosli_colorizer/goosli_colorizer.go"),("normal/direction comparison","helpers/colorize_triangles.go")],
obs=["output file of the colorizer"])

p("C13","Simplifier meets its budget and keeps closed models closed in any hash order",
"When the simplifier exits with status 0, its output has at most the requested number of triangles, and if the input already has no more than that, the output holds exactly the input's triangles in order. A closed input gives a closed output (every edge is used equally often in both directions) that stays within the input's bounding box up to its own size, for every hash-map iteration order, schedule and I/O behaviour.",
["schedules","fault_sequences","inputs"],"all hash-map iteration orders, schedules and I/O faults; closed meshes and triangle budgets the reduction can reach",
"Nothing tests simplification, and its internal order is randomised per run, so one observed run says little.",
["helpers/simplify_mesh.go","cmd/goosli_simplifier/goosli_simplifier.go"],
[("size check and reduction factor","helpers/simplify_mesh.go SimplifyMesh"),("conversion to and from the reduction library","helpers/simplify_mesh.go")],
obs=["STL file written by the simplifier"])

p("C14","G-code keeps a printer's state consistent over the whole job",
"A printer executing the produced G-code from its start traces every wall and fill path of every layer in order (layers numbered consecutively from 0), each printing move extruding 4*w*h*L/(pi*d^2) of filament for its length L, line width w, layer height h and bar diameter d, at the speed configured for that kind of path (first layer, wall, fill). Around bed tilts and rotations, filament retractions and resets of the extruder counter, the extruder position, active tool, bed angles and print speed the printer holds are exactly those the following commands assume: retraction pulls back the configured distance and is undone before printing resumes, and the fan is on from the first layer, or from the second if so configured.",
["histories","schedules","configurations"],"all sequences of layer groups, tilts and rotations produced by simulated slicing runs; all settings, including retraction, fan-off and thresholds of extruder resets, and any worker schedule",
"No test inspects G-code; the modal state depends on the whole history of commands.",
["gcode/cmds.go","gcode/gcode.go","primitives/point.go"],
[("state threaded through commands","gcode/gcode.go ToOutput, gcode/cmds.go")],
state=[("eOff, feedrate, fan, t1, t2, layerIndex","assumed printer state","gcode/cmds.go State")],
obs=["G-code text executed by a simulated printer"])

p("C15","A planes file is applied whole or the run fails",
"Slicing with a planes file either applies every line of it, in order (one more part than planes, each part preceded by the bed rotation and, when tilt changes, the tilt command of its line), or exits with a non-zero status: a planes file that exists but cannot be opened or read to its end is never treated as missing or shorter. Only a planes file that does not exist or is empty makes the tool choose a strategy by itself.",
["fault_sequences","inputs"],"open/read errors, short reads and truncation-inducing faults at any point of reading the planes file; 0..6 planes",
"Nothing tests planes files or read errors on them.",
["slicers/vip/utils.go","slicers/vip/slice_by_planes.go","slicers/vip/analyze.go"],
[("line scanner and its error","slicers/vip/utils.go readPlanes"),("per-plane rotate/tilt commands","slicers/vip/slice_by_planes.go")],
obs=["rotation/tilt commands in the G-code, exit status"])

p("C16","Header and footer carry this run's settings, fully substituted",
"When the slicer exits with status 0, the G-code file is the header template, the job, and the footer template, with every occurrence of a supported placeholder (date/time, layer height, wall thickness, fill density, bed and extruder temperature, print speed, layer count) replaced by this run's value and all other template text unchanged, whatever the substitution order, clock value or template content. The layer count in the header equals the number of layers in the file.",
["schedules","configurations","fault_sequences"],"all map iteration orders, clock values, templates and settings; short reads and I/O faults on the templates",
"No test renders the templates; substitution goes through a randomly ordered map.",
["cmd/goosli/goosli.go","primitives/utils.go","slicers/settings.go","data/header_template.txt","data/footer_template.txt"],
[("placeholder map and replace loop","primitives/utils.go PrepareDataFile, slicers/settings.go ToMap")],
obs=["G-code output file"])

p("C17","Debug tracing never changes the result",
"Enabling debug tracing changes neither the G-code nor the exit status of a run whose trace file can be written, and a run that cannot write its trace either fails with a non-zero status or still produces the same G-code. With tracing disabled or the configuration file missing, no trace file is opened, created or changed.",
["configurations","fault_sequences"],"debug on/off/absent/garbled trace path; any I/O fault on the configuration or trace file; all slicing types",
"No test enables debugging or makes its file fail.",
["debug/debug.go","debug/config.go","primitives/utils.go"],
[("debug flag guards","debug/debug.go")],
obs=["G-code and exit status with and without tracing; trace file"])

p("C18","Every call releases its file handles, on success and on failure",
"Loading or saving a model, reading the planes file, and appending to the debug trace leave no file open once they return, on success and on every error path, so that a long-lived program can repeat them indefinitely. No operation uses a handle after closing it or closes it twice.",
["fault_sequences","histories"],"any sequence of successful and failing calls, faults at any system call",
"Handle leaks need an I/O error and a look at the handle table; tests do neither.",
["primitives/stl.go","primitives/utils.go","slicers/vip/utils.go","debug/debug.go"],
[("deferred closes","primitives/stl.go, slicers/vip/utils.go, primitives/utils.go")],
obs=["open-handle table of the simulated kernel"])

# pure ones
def na(id,title,stmt,files,mech,why="No test covers it beyond a few points."):
    p(id,title,stmt,["inputs"],"all inputs",why,files,mech)
p("C19","A tool never crashes or hangs",
"Whatever model file it is given (closed, open, torn, with degenerate, duplicate, flipped or missing triangles), for every set of options with a non-negative tolerance and a triangle budget of at least 8, any planes file, schedule, core count and I/O fault, a tool ends with status 0 or with a reported failure. It never dies of an internal error (an index out of range, a nil pointer, an exhausted stack, a write to a closed channel), never deadlocks, and never loops for ever.",
["inputs","configurations","schedules","fault_sequences"],"well-formed and damaged model files, ordinary and extreme options, all schedules, I/O faults at every system call",
"The tests slice a handful of well-formed models with default options and never run the tools' entry points.",
TOOLS+["slicers/vip/analyze.go","slicers/vip/slice_main.go","helpers/cut_mesh.go","primitives/path.go"],
[("every strategy handles empty layers, paths and parts","slicers/vip, slicers"),("errors end the tool through log.Fatal","cmd/*/*.go")],
obs=["how the process ends"])

p("C20","A torn model left by a dead run is never taken for a whole one",
"When the cutter or the simplifier is killed or fails while it writes its results, each of its output files is absent, the old one, byte for byte the complete one, or recognisably incomplete: every tool that is given it next refuses it with a non-zero exit status. No tool ever processes part of a model as if it were the whole.",
["crash_points","fault_sequences","histories"],"a kill at every step and system call of the writing run, torn writes, full disks and I/O errors; every tool as the reader; outputs pre-existing or absent",
"Tests never kill a writer and never feed one tool's leftovers to another.",
["primitives/stl.go","cmd/goosli_cutter/goosli_cutter.go","cmd/goosli_simplifier/goosli_simplifier.go"],
[("triangle count written before the triangles","primitives/stl.go SaveSTL"),("file size checked against the count","primitives/stl.go LoadSTL")],
obs=["exit status of the second tool; bytes of the file between the two runs"])

p("C21","Running a job again after dead runs gives what a first run gives",
"After any number of earlier runs of a job, with the same or another model, that were killed at any point, ran out of disk space or failed on an I/O error, running it once more without faults ends with the same exit status and leaves exactly the same output and trace files as on a fresh disk. Nothing a dead run leaves behind blocks, changes or lengthens a later result, and nobody has to clean up first.",
["crash_points","fault_sequences","histories"],"histories of one to three dead runs, each killed at any step or system call or failing on any I/O fault, before the final run; all tools and option sets",
"Tests never run a tool twice on one disk and never kill one.",
TOOLS+["primitives/stl.go","primitives/utils.go","debug/debug.go"],
[("outputs truncated when created","primitives/stl.go SaveSTL, cmd/*/*.go"),("no lock files, no state kept between runs","cmd/*/*.go")],
obs=["exit status and output files of the last run"])

p("C22","The printed parts fit together into the model",
"Undoing the bed rotation and tilt in force when each outline of the G-code is printed puts the outline back inside the model, for every slicing type, planes file, rotation centre and origin, and for convex models the parts together fill it: no region thicker than two layers is left out or printed twice. When a strategy tilts the bed by itself it does so because something overhangs and towards it, whatever direction that faces, so that the part printed just before lies below the first layer of the next one; slicing by profile stands each section of the model's axis upright. The analyzer writes planes, at most six, until nothing unsupported overhangs on the bed as it stands then: each starts at the lowest point of what does and, when tilted, is turned towards it, and the slicer reads it with that meaning.",
["schedules","histories"],"convex solids and pairs of them leaning in every direction, upright prisms, pyramids, stars, L shapes and rings, planes files and the analyzer's proposals, all slicing types, rotation centres, origins and layer heights; schedules and core counts",
"Tests look at single functions; nothing executes a whole job, with the history of its bed movements, and compares what was printed with the model.",
["slicers/vip/slice_default.go","slicers/vip/slice_bridge.go","slicers/vip/slice_rotation.go","slicers/vip/slice_by_planes.go","slicers/slice_5axes.go","slicers/slice_by_profile.go","slicers/slice_by_vector.go","slicers/vip/analyze.go","helpers/cut_mesh.go","primitives/mesh.go","gcode/cmds.go"],
[("bed commands added beside the rotation of the mesh","slicers/vip/slice_default.go SliceDefault2, slice_by_planes.go SliceByPlanes"),("cut planes tilted towards the overhang","slicers/slice_5axes.go CalculateFails, slicers/vip/slice_bridge.go")],
obs=["G-code executed by a simulated printer; planes file between the two tools"])

na("C30","Walls are offset copies of the outline by multiples of the line width",
"Additional walls of a layer are copies of its outlines moved towards the inside of the solid by 1, 2, ... line widths, as many as the wall thickness allows; the skirt is the same towards the outside of the first layer.",
["slicers/vip/offset_path.go","slicers/vip/utils.go"],[("edge shifting and re-intersection","slicers/vip/offset_path.go MakeOffset")])
na("C31","Infill covers the interior at the configured density",
"Fill lines lie inside the innermost wall, at the spacing implied by fill density, pattern and line width, and bottom and top layers are filled solidly.",
["slicers/fill_layer.go"],[("fill planes and intersection pairing","slicers/fill_layer.go")])
na("C32","Cut caps close both halves",
"Both meshes produced by cutting a closed mesh are closed and their volumes add up to the original's.",
["helpers/cut_mesh.go"],[("fan triangulation of joined cut outlines","helpers/cut_mesh.go")])
na("C33","Bed rotations are rigid motions about the configured centre",
"Rotating a mesh preserves all distances and orientations and leaves the rotation centre fixed; rotating back restores it.",
["primitives/mesh.go","primitives/rotation_matrix.go","primitives/vector.go"],[("rotation about a point","primitives/mesh.go Rotate")])
na("C34","Automatic strategy fits the model's shape",
"Without a planes file, two-legged models are sliced as bridges, rotational models as rotations and others by the default strategy, and overhangs above the fail angle trigger a tilt.",
["slicers/vip/slice_main.go","slicers/vip/slice_bridge.go","slicers/vip/slice_rotation.go","slicers/vip/slice_default.go","slicers/slice_5axes.go"],[("outline classification","slicers/vip/slice_main.go")])
na("C36","Line simplification stays within its tolerance",
"Simplifying a poly-line keeps its end points and no original point is further than the tolerance from the result.",
["helpers/simplify_line.go"],[("Douglas-Peucker recursion","helpers/simplify_line.go")])
na("C37","Supports reach from overhangs to the lowest plane outside the model",
"With supports enabled, walls are added from the outline of every overhanging region down to the base plane wherever they do not cross the model.",
["helpers/supports_by_vector.go","slicers/slice_by_vector.go"],[("projection of overhang outlines","helpers/supports_by_vector.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
