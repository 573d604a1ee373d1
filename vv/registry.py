"""The properties, in one place. `python3 -m vv.registry` writes properties.jsonl
and MANIFEST.json from it."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = (
    "The tests run a handful of fixed scripts and compare a few numbers; "
)


def P(pid, title, statement, over, text, why, files, mech, tech, note, level="model_checking",
      observe=()):
    return dict(
        pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mech=mech, tech=tech, note=note, level=level, observe=list(observe),
    )


def M(name, where):
    return {"name": name, "where": where}


PROPS = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


add(
    "P01", "Simulation clock arithmetic is exact",
    "Times (the current time, the step, and the save, streak and profile periods) are exact "
    "fractions: giving a time as a fraction, a pair or a decimal number denotes exactly that number "
    "(or the nearest representable one), and adding steps to it never accumulates an error. "
    "Whether a time is a whole multiple of a period is answered exactly, a zero period having no "
    "multiples. A malformed time is refused and leaves the previous value in place.",
    ["inputs", "histories"],
    "all pairs of times whose exact result fits a 32-bit numerator and denominator, all decimals, "
    "all numbers of steps",
    TESTS + "no test looks at time arithmetic except through runs with one step size.",
    ["libvvhd/headers/TTime.hpp", "utils/vvflow/getset.cpp", "libvvhd/src/TSpace_save_hdf.cpp"],
    [M("TTime::add, divisibleBy, makeWithSecondsDecimal", "libvvhd/headers/TTime.hpp"),
     M("getTTime / setTTime", "utils/vvflow/getset.cpp")],
    "TLA+ specification TimeArith checked with TLC; trace validation of TTime and of the Lua setters",
    "TimeArith is checked exhaustively on small fractions; every answer of the code on an "
    "exhaustive grid, on large times and on all decimals with up to three places is validated "
    "against it.",
    observe=["TTime", "saved files"],
)
add(
    "P02", "Runs follow the declared output schedule exactly",
    "A run steps time by exactly one time step per iteration, from the starting time through "
    "the step nearest to the finish time. It writes one full snapshot, named by the step number, at "
    "exactly the non-negative times that are multiples of the save period, one diagnostic row per "
    "step in every diagnostic dataset with that step's time, and releases streak particles at "
    "exactly the multiples of the streak period. A zero period turns the respective output off, "
    "and invalid set-ups (no viscosity given) are refused without touching anything.",
    ["configurations", "histories"],
    "all start times (negative, off-grid), steps, periods and finish times; several runs in a row in "
    "one script; runs with and without bodies and profile output",
    TESTS + "one fixed schedule is run and only the last file is looked at.",
    ["utils/vvflow/vvflow.cpp", "libvvhd/src/MStepdata.cpp", "libvvhd/src/TSpace.cpp"],
    [M("simulate", "utils/vvflow/vvflow.cpp"), M("Stepdata", "libvvhd/src/MStepdata.cpp")],
    "TLA+ specification RunLoop checked with TLC; trace validation of real runs",
    "the loop is model-checked for all small schedules; the output (files, rows, particle counts) "
    "of real runs over the same schedules and random larger ones is validated against it",
)
add(
    "P03", "A resumed run continues the interrupted one",
    "A run continued from a saved snapshot of an earlier run produces the same further snapshots as "
    "the run that was not interrupted. The diagnostic file it appends to keeps all rows before the "
    "resumed time untouched, replaces the later ones, and ends with the same rows as the "
    "uninterrupted run's file: no row is missing, duplicated or out of order, even when the run is "
    "resumed several times or from an earlier snapshot.",
    ["histories", "configurations"],
    "all sequences of interrupting a run and resuming it from any of its snapshots, over flows with "
    "several bodies, joints, motion, sensors and streak particles",
    TESTS + "no test resumes a run.",
    ["utils/vvflow/vvflow.cpp", "libvvhd/src/MStepdata.cpp", "libvvhd/src/TSpace_save_hdf.cpp",
     "libvvhd/src/TSpace_load_hdf.cpp"],
    [M("simulate", "utils/vvflow/vvflow.cpp"), M("Stepdata::create, append", "libvvhd/src/MStepdata.cpp"),
     M("Space::save, load", "libvvhd/src/TSpace_save_hdf.cpp")],
    "TLA+ specification RunLoop (Resume action) checked with TLC; trace validation of interrupted "
    "and resumed real runs",
    "states are compared through digests of everything the snapshot holds; diagnostic rows "
    "bit for bit",
)
add(
    "P04", "A killed run can always be continued from its files",
    "If a run is killed at any moment, every file in its results directory is a complete snapshot, and "
    "none of the earlier ones is lost or damaged, not even the one it was resumed from. Continuing from "
    "the latest produces the snapshots and the diagnostic rows of the uninterrupted run.",
    ["crash_points"],
    "all points between two file-system operations of a run",
    TESTS + "no test kills a run.",
    ["libvvhd/src/MStepdata.cpp", "libvvhd/src/TSpace_save_hdf.cpp", "utils/vvflow/vvflow.cpp"],
    [M("Stepdata::flush", "libvvhd/src/MStepdata.cpp"), M("Space::save", "libvvhd/src/TSpace_save_hdf.cpp")],
    "TLA+ specification RunLoop with a Crash action checked with TLC; killed and continued real runs "
    "validated against it",
    "kills the real process at its n-th file-system operation (a preloaded shim) and continues it",
)
add(
    "P05", "Saving and loading a flow preserves it",
    "Loading a saved flow gives exactly the flow that was saved: every number, particle, body, joint "
    "relation, expression and caption, and saving it again writes the same content. Loading "
    "replaces the previous content of the flow completely, keeping nothing of it.",
    ["inputs", "histories"],
    "all flows: any mix of free particles, sources, streak lists, bodies (any number, joined in any "
    "forest), expressions, captions, times; any order of saves and loads into the same space",
    TESTS + "one saved file's existence is checked.",
    ["libvvhd/src/TSpace_save_hdf.cpp", "libvvhd/src/TSpace_load_hdf.cpp", "libvvhd/src/TSpace.cpp",
     "libvvhd/src/vvhdf.cpp"],
    [M("Space::save", "libvvhd/src/TSpace_save_hdf.cpp"), M("Space::load", "libvvhd/src/TSpace_load_hdf.cpp")],
    "TLA+ specification Store (a space and files as maps) checked with TLC; trace validation of "
    "save/load/modify sequences on the real code",
    "numbers are compared bit for bit as strings",
)
add(
    "P06", "Circulation is accounted for",
    "Vorticity is never lost without a trace: at every step the circulation of the free vortices "
    "plus what is bound in the bodies' attached layers and the circulation a body is recorded to "
    "have taken back stays balanced, whatever is shed, merged, absorbed by a body, or too weak and "
    "removed. A vortex that ends up inside a body is absorbed by that body, and only such vortices "
    "and those weaker than the removal threshold disappear.",
    ["histories", "inputs"],
    "all sequences of shedding, merging, moving and cleaning over all particle sets and bodies",
    TESTS + "no test sums the circulation.",
    ["libvvhd/src/MFlowmove.cpp", "libvvhd/src/MEpsilonFast.cpp"],
    [M("vortex_shed, move_and_clean", "libvvhd/src/MFlowmove.cpp"),
     M("MEpsilonFast::merge", "libvvhd/src/MEpsilonFast.cpp")],
    "TLA+ specification Ledger checked with TLC; trace validation of the real operations with "
    "integer-valued scenarios",
    "scenarios carry dyadic circulations so that all sums are exact",
)
add(
    "P07", "Heat is accounted for",
    "Heat in the flow changes only by what bodies report: a segment giving a constant flux emits its declared "
    "strength (heat constant times length squared) every step, one of an insulated body gives back what it took, "
    "and one of a body at constant temperature keeps exactly one particle of its declared strength in the layer "
    "next to it, wherever the body moves. "
    "A particle that gets into a body, or is one too many in the layer, is taken off the flow and off the sum of "
    "the nearest segment, to the last bit; uniting particles keeps the total. "
    "Otherwise only too weak particles and those too far downstream leave, all others go on unchanged.",
    ["histories", "inputs"],
    "all sequences of shedding, moving, merging, cropping and reporting around any bodies, still and moving; "
    "whole runs of the program (not resumed ones: snapshots do not hold the sums)",
    TESTS + "no test uses heat.",
    ["libvvhd/src/MFlowmove.cpp", "libvvhd/src/TBody.cpp", "utils/vvflow/vvflow.cpp"],
    [M("heat_shed, move_and_clean, heat_crop", "libvvhd/src/MFlowmove.cpp"),
     M("TBody::isPointInHeatLayer", "libvvhd/src/TBody.cpp"),
     M("main loop", "utils/vvflow/vvflow.cpp")],
    "TLA+ specification Heat checked with TLC (balance, wrapped and insulated invariants); recorded operations "
    "of the real library, and snapshots of real runs, validated as behaviours of it (HeatTrace)",
    "dyadic strengths so that all sums are exact; outlines on the integer grid",
)
add(
    "P08", "Merging vortices keeps circulation and centre",
    "With merging on (viscous flow) a vortex takes in its nearest neighbour exactly when there is a third one "
    "near and either the pair is closer than the local resolution allows (0.16 dl^2 (1 + distance) from the "
    "nearest body segment; nothing without bodies) or both its nearest neighbours are of the other sign; heat "
    "particles likewise by distance alone; with merging off (inviscid flow) never. "
    "Merging keeps the total exactly, a pair of one sign keeps its centre, of two signs the place of the "
    "stronger, and all others are untouched. "
    "Every particle's size is the distance to its second nearest neighbour, but at least a third of the "
    "nearest segment's length.",
    ["inputs"],
    "all sets of vortices and heat particles around any bodies, for all tree granularities; runs without bodies",
    TESTS + "no test looks at merging.",
    ["libvvhd/src/MEpsilonFast.cpp", "utils/vvflow/vvflow.cpp"],
    [M("MEpsilonFast::CalcEpsilonFast", "libvvhd/src/MEpsilonFast.cpp"), M("merging only in viscous flow", "utils/vvflow/vvflow.cpp simulate")],
    "TLA+ specification Merge checked with TLC; trace validation of the real merging pass and of runs",
    "vortices on integer grids so that distances and centres are exact",
)
add(
    "P09", "The sorted tree covers everything exactly once",
    "The spatial tree puts every particle and every body segment into exactly one leaf whose "
    "rectangle contains it, and for every leaf the near and far cells together cover the whole "
    "tree exactly once, with far cells satisfying the declared separation. Each cell's "
    "positive and negative centres carry exactly the circulation it contains.",
    ["inputs"],
    "all particle and segment sets, clustered and degenerate ones included, and all cell-size limits",
    TESTS + "no test looks at the tree.",
    ["libvvhd/src/TSortedTree.cpp", "libvvhd/headers/TSortedTree.hpp"],
    [M("TSortedTree::build", "libvvhd/src/TSortedTree.cpp")],
    "TLA+ specification SortedTree checked with TLC; every tree the code builds is validated "
    "against it",
    "integer/dyadic coordinates; the whole tree is dumped through its public fields",
)
add(
    "P10", "Bodies on springs respect their collision limits",
    "A body free to move is stopped exactly at its declared limits: no component of its offset ever "
    "passes a limit, whatever the other components and other bodies do, the step in which it hits "
    "is shortened so that it lands on the limit, and it leaves the limit with the declared bounce. "
    "Bodies without limits are unaffected.",
    ["histories", "configurations"],
    "all combinations of limits, speeds and components over several bodies and steps",
    TESTS + "no test sets a limit.",
    ["libvvhd/src/MFlowmove.cpp", "libvvhd/src/MConvectiveFast.cpp"],
    [M("move_and_clean", "libvvhd/src/MFlowmove.cpp"), M("fill_matrix", "libvvhd/src/MConvectiveFast.cpp")],
    "TLA+ specification Rigid (limits, shortening of the step, bouncing) checked with TLC; trace validation of real runs",
    "runs with and without flow; offsets and the collision state read from the saved files",
)
add(
    "P11", "Bodies move rigidly and joints hold",
    "Moving a body by any sequence of shifts and turns keeps its shape, its area and the distances to its "
    "axis; a body attached to another follows it so that their joint stays where it is on both. "
    "A prescribed motion is followed exactly, and time-dependent expressions are taken at the "
    "current time.",
    ["histories", "inputs"],
    "all sequences of moves of all trees of joined bodies",
    TESTS + "a single rotation of one body is tested.",
    ["libvvhd/src/MFlowmove.cpp", "libvvhd/src/TBody.cpp"],
    [M("TBody::move", "libvvhd/src/TBody.cpp"), M("move_and_clean", "libvvhd/src/MFlowmove.cpp")],
    "TLA+ specification Rigid checked with TLC; trace validation of real runs with quarter-turn motion",
    "lattice motions (quarter turns and integer shifts) so that positions are exact",
)
add(
    "P12", "Body geometry is computed exactly",
    "Area, centre of mass, moment of inertia, bounding box, segment lengths and the inside test of a "
    "body follow from its outline alone, whatever its orientation, starting corner, "
    "concavity or position; a closed outline listed counter-clockwise describes a "
    "hollow whose inside is the allowed region. Every point of the plane is either inside or "
    "outside, and for a point that is not allowed the nearest segment is reported.",
    ["inputs"],
    "all simple polygons on a grid, both orientations, all query points",
    TESTS + "one square and one thin plate are tested.",
    ["libvvhd/src/TBody.cpp", "utils/vvflow/lua_tbody.cpp", "utils/vvflow/lua_tvec.cpp"],
    [M("TBody::doUpdateSegments, doFillProperties, isPointInvalid", "libvvhd/src/TBody.cpp"),
     M("getters of bodies in scripts", "utils/vvflow/lua_tbody.cpp")],
    "TLA+ specification Polygon checked with TLC; trace validation of the real body on grid polygons",
    "grid polygons so that areas, moments and the inside test are exact",
)
add(
    "P13", "Time-dependent expressions evaluate consistently",
    "An expression assigned to a body or the space has the value it denotes at the queried time, "
    "whatever was queried before, however often it was reassigned or copied; a refused assignment "
    "leaves the previous expression in force, and an empty one means zero.",
    ["histories"],
    "all sequences of assignments (valid and invalid), copies and queries at any times",
    TESTS + "constants and single expressions are evaluated once.",
    ["libvvhd/src/TEval.cpp", "utils/vvflow/lua_teval.cpp"],
    [M("TEval", "libvvhd/src/TEval.cpp")],
    "TLA+ specification Eval checked with TLC; trace validation of call sequences on the real class",
    "random call sequences on the class, also from several threads at once, and through the scripting interface",
)
add(
    "P14", "The flow solution never depends on the solver's history",
    "Solving the linear system gives the solution of the matrix and right-hand side as last filled "
    "in, whatever was solved, resized or cached before, and reports failure "
    "rather than a stale solution.",
    ["histories"],
    "all sequences of resizing, filling and solving with the cached inverse or without it",
    TESTS + "each run solves one family of systems.",
    ["libvvhd/src/TMatrix.cpp", "libvvhd/src/MConvectiveFast.cpp"],
    [M("Matrix::solveUsingInverseMatrix", "libvvhd/src/TMatrix.cpp"), M("MConvectiveFast::calc_circulation", "libvvhd/src/MConvectiveFast.cpp")],
    "TLA+ specification Solver (a solver that keeps matrix and inverse) checked with TLC; trace validation of histories of the real class, and of flows solved by a solver used all along and by a new one",
    "integer systems up to 40 equations with integer solutions, including pairs of matrices with the same 32-bit hash; singular ones must fail; flows of 1-3 bodies (still, stopping, turning, springs, collisions) at every step; a right column alone is given only while the solver says its matrix is filled",
)
add(
    "P15", "Results do not depend on the number of threads",
    "The snapshots, diagnostic rows and sampled fields a script produces are identical however many "
    "threads the computation is spread over and however they are scheduled.",
    ["schedules", "configurations"],
    "all thread counts and interleavings, for flows with bodies, heat and merging",
    TESTS + "the runs use whatever the machine has.",
    ["libvvhd/src/MConvectiveFast.cpp", "libvvhd/src/MDiffusiveFast.cpp", "libvvhd/src/MEpsilonFast.cpp",
     "libvvhd/src/MFlowmove.cpp", "libvvhd/src/XVelocity.cpp"],
    [M("parallel loops over the leaves", "libvvhd/src/MConvectiveFast.cpp")],
    "TLA+ specification ParallelStep checked with TLC over all interleavings; runs under several "
    "thread counts validated step by step against one behaviour",
    "model: leaves as tasks that may only write their own particles; code: digests of every step's "
    "state must coincide for all thread counts",
)
add(
    "P16", "The scripting objects keep their contracts",
    "Every field of the space and the bodies reads back exactly what was last successfully assigned "
    "to it, and an assignment of the wrong kind is refused with an error and changes nothing. Particle "
    "lists behave like sequences under appending, clearing, indexing and iterating, and the list of "
    "bodies likewise under inserting (a body once) and erasing; a body's joint target is the body last "
    "assigned to it as long as that body exists.",
    ["programs", "histories"],
    "all programs of assignments, valid and invalid, and list operations",
    TESTS + "one script exercises each operation once in one order.",
    ["utils/vvflow/lua_space.cpp", "utils/vvflow/lua_tbody.cpp", "utils/vvflow/lua_objlist.cpp",
     "utils/vvflow/lua_bodylist.cpp", "utils/vvflow/getset.cpp", "utils/vvflow/lua_tvec.cpp",
     "utils/vvflow/lua_tvec3d.cpp", "utils/vvflow/lua_tobj.cpp"],
    [M("getset tables", "utils/vvflow/getset.cpp")],
    "TLA+ specification Scripting (objects as maps of leaves, lists as sequences) checked with TLC; trace "
    "validation of generated Lua programs",
    "TLC explores all short programs of the list operations; random long programs over all fields",
)
add(
    "P17", "Extracted tables reproduce the stored data",
    "The extraction tool prints exactly the stored data: every selected column of every row in "
    "order, "
    "profiles and particle lists completely, and the "
    "summary with the right number for each kind of object. It refuses files and selections that "
    "do not exist instead of printing something else.",
    ["inputs", "configurations"],
    "all files the program writes and all selections",
    TESTS + "the tool is run on one file without looking at the numbers.",
    ["utils/vvxtract/vvxtract.cpp", "utils/vvxtract/optparse.cpp"],
    [M("main", "utils/vvxtract/vvxtract.cpp")],
    "TLA+ specification Extract checked with TLC; trace validation of real invocations against "
    "independently read files",
    "the file is read by an independent dumper",
)
add(
    "P18", "The table filters compute what they declare",
    "Over the rows with time strictly between xmin and xmax (none given: all rows) the command-line table filters "
    "compute the average, the standard deviation about it, the interpolated times of zero crossings, and the "
    "amplitude: the mean of the local maxima less the mean of the local minima, each the highest or lowest (ties allowed) of the window of `span` rows centred on it, limits included. The derivative filter "
    "replaces the column by its differences times the given divisor, and the moving average by the mean of the "
    "last `span` rows, keeping the other columns; lines starting with # are not rows and any table length works.",
    ["inputs"],
    "all tables of small integers and all ranges",
    TESTS + "the scripts are not tested.",
    ["utils/scripts/vvawk.avg", "utils/scripts/vvawk.sd", "utils/scripts/vvawk.drv",
     "utils/scripts/vvawk.mavg", "utils/scripts/vvawk.ampl", "utils/scripts/vvawk.zeros"],
    [M("awk programs", "utils/scripts")],
    "TLA+ specification Filters checked with TLC; trace validation of the real scripts on all small tables",
    "integer tables so that results are exact rationals",
)
add(
    "P19", "Isolines separate the field exactly",
    "Isolines are complete and connected: every grid edge whose end values lie on different sides of "
    "the level is crossed exactly once, at the linearly interpolated point, no other edge is "
    "crossed, no piece is lost or doubled when the pieces are joined into lines, and a line is closed "
    "or ends on the border of the grid unless the level meets a node.",
    ["inputs"],
    "all small integer fields and levels",
    TESTS + "isolines are only drawn, never inspected.",
    ["libvvhd/src/XIsoline.cpp"],
    [M("XIsoline", "libvvhd/src/XIsoline.cpp")],
    "TLA+ specification Isoline checked with TLC; every output of the code on generated fields "
    "validated against it",
    "models exhaustive over small grids with small integer values; the code on random integer fields up to 5 by 5; "
    "fields with gaps (streamfunctions of flows with bodies) are not generated",
)
add(
    "P20", "Field maps survive storing and answer queries",
    "A sampled field stored in its binary form and read back is the same field, a malformed form (wrong length, fewer "
    "than two rows or columns, spacings not positive or not equal) is refused, and minimum, maximum, quantiles of the "
    "non-zero values and values at nodes are those of the samples.",
    ["inputs"],
    "all small fields, stored forms and queries",
    TESTS + "one field is parsed and evaluated at a few points.",
    ["libvvhd/src/XField.cpp"],
    [M("XField", "libvvhd/src/XField.cpp")],
    "TLA+ specification FieldMap checked with TLC; trace validation of the real class",
    "integer fields",
)
add(
    "P21", "Pictures match the request",
    "The plotting tool's archive holds exactly the requested layers over exactly the requested "
    "viewport: a missing size or axis limit is inferred so that nothing is stretched, contradictory or "
    "impossible requests are refused and leave nothing behind, and every layer's data describe the flow that was loaded. "
    "Lines over a map are all its lines of the given levels, whole, and continuous across the jumps behind sources. "
    "An image is drawn of exactly what the archive holds and replaces whatever was at its place.",
    ["configurations", "inputs"],
    "all combinations and orders of viewport, size, layer, frame and decoration options; flows of several bodies "
    "with arbitrary labels, vortices and sources; maps given in files",
    TESTS + "a dozen option sets are run and only the exit code is looked at.",
    ["utils/vvplot/optparse.cpp", "utils/vvplot/vvplot.cpp", "utils/vvplot/gnuplotter.cpp", "libvvhd/src/XIsoline.cpp",
     "libvvhd/src/XField.cpp", "libvvhd/src/XStreamfunction.cpp"],
    [M("options and inference of the viewport", "opt::parse, utils/vvplot/optparse.cpp"),
     M("layers", "main_hdf, utils/vvplot/vvplot.cpp"),
     M("archive and image", "Gnuplotter::save, load and exec, utils/vvplot/gnuplotter.cpp"),
     M("isolines", "XIsoline::process_rect and merge_lines, libvvhd/src/XIsoline.cpp")],
    "TLA+ specifications Viewport and Streamlines checked with TLC; trace validation of real command lines, archives and lines",
    "viewports of integer limits in units of 1, 1/1024 or 10^-6; maps in the archive are compared with the library's, which P31 "
    "decides; gnuplot itself is replaced by a stand-in that records what it is given",
)
add(
    "P22", "Generated bodies match their parameters",
    "The body generators produce closed outlines of exactly the requested shape, size, place and "
    "orientation, discretised with the requested number of segments or step, and refuse parameters that "
    "are missing, unknown or meaningless.",
    ["inputs"],
    "all generators and parameter combinations",
    TESTS + "each generator is called once or twice.",
    ["utils/vvflow/gen_box.cpp", "utils/vvflow/gen_cylinder.cpp", "utils/vvflow/gen_ellipse.cpp",
     "utils/vvflow/gen_parallelogram.cpp", "utils/vvflow/gen_plate.cpp",
     "utils/vvflow/gen_savonius.cpp", "utils/vvflow/gen_gis.cpp", "utils/vvflow/gen_body.cpp"],
    [M("generators", "utils/vvflow/gen_body.cpp")],
    "TLA+ specification Generators checked with TLC; trace validation of the real generators",
    "outlines checked in integer units of the requested dimensions",
)
add(
    "P23", "Circulation is conserved and bodies are tight after every solve",
    "Every solution of the flow places exactly the circulation around each body that conservation "
    "demands, given what the body absorbed and how its rotation changed, and keeps the total of the flow "
    "at the declared value. No fluid passes through a segment of a body, relative to it, except the one "
    "segment that carries the circulation condition; a segment declared to shed nothing sheds nothing.",
    ["histories", "configurations"],
    "all configurations of bodies, motions, joints, vortices and sinks, and all steps of runs",
    TESTS + "no test looks at the circulation.",
    ["libvvhd/src/MConvectiveFast.cpp", "libvvhd/src/TMatrix.cpp"],
    [M("fill_matrix, calc_circulation", "libvvhd/src/MConvectiveFast.cpp"),
     M("Matrix::solveUsingInverseMatrix", "libvvhd/src/TMatrix.cpp")],
    "TLA+ specification Dynamics (Circulation, Tight) with the model DynamicsMC checked with TLC; "
    "solutions of the real solver and every step of real runs validated",
    "bodies on an integer grid, results within rounding; sums of runs within 1e-5",
)
add(
    "P24", "Force bookkeeping follows the circulation",
    "The forces and pressure and friction profiles reported for a step are those of exactly that "
    "step's circulation and momentum changes (absorbed vortices included), cleared before the next, and each body's total is the "
    "sum over its own contributions.",
    ["histories"],
    "all sequences of accumulating, reporting and clearing",
    TESTS + "forces of one run are compared with a loose tolerance.",
    ["libvvhd/src/TSpace.cpp", "libvvhd/src/MStepdata.cpp"],
    [M("calc_forces, zero_forces", "libvvhd/src/TSpace.cpp")],
    "TLA+ specification Forces checked with TLC; trace validation of the real calls, absorption in the step included",
    "dyadic scenarios; absorbed moments compare within quantisation",
)
add(
    "P25", "Imports take all of a file or refuse it",
    "Importing particles appends exactly the rows of the file in their order (of a text: up to the first place "
    "without three numbers, in any notation; of a binary file: every whole triple), and a body outline is read "
    "line by line completely (x, y and an optional slip flag, none meaning no slip) or refused. A flow saved by "
    "version 1.3 loads with the same meaning. A file that is missing or cannot be read is refused with an error and "
    "leaves the flow, its lists and bodies untouched.",
    ["inputs"],
    "all files: notations, layouts, words between the numbers, missing columns, truncated records, old sections in any order",
    TESTS + "only a few good and two bad files are loaded.",
    ["libvvhd/src/TSpace.cpp", "libvvhd/src/TBody.cpp", "libvvhd/src/TSpace_load_v13.cpp", "utils/vvflow/lua_objlist.cpp",
     "utils/vvflow/lua_space.cpp"],
    [M("load_list_txt, load_list_bin, load", "libvvhd/src/TSpace.cpp"), M("load_txt", "libvvhd/src/TBody.cpp"),
     M("load_v13", "libvvhd/src/TSpace_load_v13.cpp"), M("load, load_bin", "utils/vvflow/lua_objlist.cpp")],
    "TLA+ specification Import checked with TLC; trace validation of real imports of generated files, through the library "
    "and through scripts",
    "numbers compare bit by bit; what else than 0 or 1 may follow a corner is left open",
)
add(
    "P26", "Sensors report every step at every probe",
    "With sensors requested, each step adds exactly one line holding the step's time followed by the "
    "flow velocity at every probe in the order given, however many runs or resumed runs the script makes. "
    "Lines already in the file are kept, without probes no file is written, and a missing probe file is "
    "reported.",
    ["configurations", "histories"],
    "all probe files and schedules",
    TESTS + "sensors are not tested.",
    ["utils/vvflow/sensors.cpp", "utils/vvflow/vvflow.cpp"],
    [M("Sensors", "utils/vvflow/sensors.cpp")],
    "TLA+ specification RunLoop (sensor lines) checked with TLC; trace validation of real runs",
    "velocities compared with those computed through the library",
)
add(
    "P27", "Solutions satisfy the equations of motion",
    "Every solution obeys the declared equations: the force and moment of the fluid on each body, Newton's "
    "law for each body with gravity, the bodies attached to it and its own mass, and for each component "
    "either the law of its spring or, when stiff, the prescribed motion relative to the body it is "
    "attached to, at their joint. Nothing the solver computed before shows in a solution.",
    ["configurations", "histories"],
    "all configurations of bodies, densities, joints, springs, prescribed motions and previous states",
    TESTS + "no test looks at forces of moving or attached bodies.",
    ["libvvhd/src/MConvectiveFast.cpp", "doc/documentation.tex"],
    [M("fillHydro*, fillNewton*, fillHooke*, fillSpeed*", "libvvhd/src/MConvectiveFast.cpp")],
    "TLA+ specification Dynamics (ForceX/Y, Moment, NewtonX/Y/O, Joint) evaluated with TLC on "
    "solutions of the real solver",
    "bodies on an integer grid, results within rounding",
)

add(
    "P28", "The flow does not depend on how it is looked at",
    "Nothing that happens to bodies, vortices, ink, forces or motion depends on where the origin of "
    "coordinates is, on turning the whole set-up by a quarter turn (inviscid flow), on the moment the "
    "clock was started when nothing prescribed depends on it, or on the order in which bodies are listed "
    "(inviscid flow at zero inf_g around bodies of equal segments): from the second step on, two runs of "
    "one set-up seen two ways are each other's image. Excluded: limits of motion touched to the last bit, "
    "which rounding decides, and the forces of the very first step, in which circulation appears from nothing.",
    ["inputs"],
    "any number of bodies (rigid, sprung, rooted, slipping, moving as expressions of time say), vortices, "
    "clumps, sinks and ink; any shift, quarter turn, delay and reordering; every step of the two runs",
    "An assertion on numbers cannot tell a wrong number from a right one unless somebody computed it; a pair "
    "of runs can. A coordinate used where a difference was meant, x where y was meant, or a quantity left "
    "over from the body before shows only when the set-up is moved, turned or reordered.",
    ["libvvhd/src/MConvectiveFast.cpp", "libvvhd/src/MFlowmove.cpp", "libvvhd/src/TSortedTree.cpp",
     "libvvhd/src/TBody.cpp", "libvvhd/src/MDiffusiveFast.cpp", "utils/vvflow/vvflow.cpp"],
    [M("Equations of motion", "libvvhd/src/MConvectiveFast.cpp fillHydro*/fillNewton*Equation"),
     M("Moving and shedding", "libvvhd/src/MFlowmove.cpp"),
     M("Near and far particles", "libvvhd/src/TSortedTree.cpp")],
    "TLA+ specification Symmetry checked with TLC; trace validation of pairs of real runs",
    "Symmetry.tla says when two flows are one seen two ways; TLC checks that the specifications Rigid and "
    "Dynamics have these symmetries themselves; pairs of real runs, one set-up written down twice, are "
    "compared step by step on the specification's relation. Mirror images and moving frames are not claimed: the code treats neither alike by design "
    "(orientation of bodies, the choice of segment).",
)

add(
    "P29", "Everything is carried by exactly what induces velocity",
    "The velocity the code gives to every vortex, heat particle, ink particle and asked-for point is the stream at "
    "infinity plus the swirl of every vortex and every slipping segment (g/2pi r, smoothed by the size of the one who "
    "induces), the outflow of every source (smoothed so that no time step overshoots it) and the field of every "
    "moving wall, each exactly once. Cells far away may be taken as one vortex of each sign, but for no more than "
    "the error their distance bounds. It is finite everywhere, also where something lies alone, at its own place, or "
    "at the place of another, and where strengths are zero.",
    ["inputs"],
    "any vortices, heat, ink, sources (of strength zero, coinciding, of either sign), bodies with slipping "
    "segments and moving or turning walls, any stream, any cell sizes; every particle and sensor point",
    "The sum has as many terms as the flow has particles, split between near cells, far cells, their expansion and "
    "four kinds of inducers; the rare branches (a point on a segment, a lone vortex, the edge between near and far) "
    "each depend on geometry no handful of examples reaches, and a term left out or doubled stays a plausible flow.",
    ["libvvhd/src/MConvectiveFast.cpp", "libvvhd/src/TSortedTree.cpp", "libvvhd/src/MEpsilonFast.cpp"],
    [M("process_all_lists (near, far, expansion)", "libvvhd/src/MConvectiveFast.cpp process_all_lists"),
     M("Velocity at a point", "libvvhd/src/MConvectiveFast.cpp velocity"),
     M("Sources and walls", "libvvhd/src/MConvectiveFast.cpp sink_list_influence, body_list_influence, SegmentInfluence_linear_source"),
     M("Size of what is alone", "libvvhd/src/MEpsilonFast.cpp CalcEpsilonFast")],
    "TLA+ specification Velocity checked with TLC; trace validation of velocities computed by the real code",
    "Velocity.tla states the induced velocity in integers (units 10^-6) and the bound on the error of a far cell; TLC "
    "checks on all flows of few vortices that it has the symmetries of the plane, adds up, and that the bound bounds. "
    "Velocities of every particle and of sensor points of generated flows are validated against it. Points within "
    "12 units of a moving wall of segments 48 long are compared to a refined sum only.",
)
add(
    "P30", "Viscosity and conduction spread by one rule",
    "Each vortex drifts from the vortices of its own sign it sees (weight exp(-distance/size), nothing beyond 8 sizes), "
    "divided by the density of them, which counts as no less than a tenth of its own strength, and is pushed off by walls, "
    "which count for no more than half of what is around it; over Re. Heat does the same among heat, over Re Pr, with its "
    "own account of walls. What a vortex's weight leaves on a segment is that segment's friction, heat leaves none, and "
    "what has no strength or nobody around does not drift.",
    ["inputs"],
    "any vortices and heat particles of both signs, coinciding or alone, inside, at and far off any bodies; any Re, Pr and cell sizes",
    "The weights reach across cells of the tree and each branch (other sign, beyond reach, too thin a density, wall in "
    "the way) is decided by the surrounding particles; an assertion on one vortex pair exercises none of the rest.",
    ["libvvhd/src/MDiffusiveFast.cpp", "libvvhd/src/MEpsilonFast.cpp", "libvvhd/src/TSortedTree.cpp"],
    [M("Vortices", "libvvhd/src/MDiffusiveFast.cpp process_vort_list, vortex_influence"),
     M("Heat", "libvvhd/src/MDiffusiveFast.cpp process_heat_list"),
     M("Walls and friction", "libvvhd/src/MDiffusiveFast.cpp segment_influence")],
    "TLA+ specification Diffusion checked with TLC; trace validation of velocities and friction computed by the real code",
    "Diffusion.tla states weights, drift, the account of walls and friction in integers; TLC checks on all small "
    "arrangements that what is alike drives apart, what is not leaves each other alone, walls push off and that it "
    "turns with the picture. Drift of every particle and friction of every segment of generated flows, with the "
    "neighbourhood the code's tree gives (P09 decides that), are validated against it. Heat whose density nearly "
    "cancels against the wall's account (cold heat at a wall) is left open.",
)

add(
    "P31", "Maps show the flow that is there",
    "Maps of velocity, stream function, vorticity and pressure show, at every node, what the flow of the space has there: "
    "the velocity that moves particles, its stream function up to a constant, vortices spread as Gaussians over their "
    "smoothing (nothing inside bodies), and the pressure of what bodies drag along, shed and vortices carry, with half the "
    "squares of the speeds. All take the vortices at the walls of the saved step into account and are relative to the chosen frame of reference "
    "(at rest, with the stream, with the first body; refused without one). Drawing a map changes nothing of the space, nor any other map of it.",
    ["inputs"],
    "any vortices, sources and up to two bodies (still, moving, turning, slipping), streams, frames, smoothing, grids and units of length",
    "The maps have no test; a picture looks plausible when a term is missing, and each sums different things: far cells, "
    "slipping and moving walls, shed circulation, drift.",
    ["libvvhd/src/XVelocity.cpp", "libvvhd/src/XStreamfunction.cpp", "libvvhd/src/XVorticity.cpp", "libvvhd/src/XPressure.cpp"],
    [M("Velocity and stream function", "libvvhd/src/XVelocity.cpp, libvvhd/src/XStreamfunction.cpp evaluate, streamfunction"),
     M("Vorticity", "libvvhd/src/XVorticity.cpp"),
     M("Pressure", "libvvhd/src/XPressure.cpp")],
    "TLA+ specification Maps (on Velocity and Diffusion) checked with TLC; trace validation of maps drawn by the real code",
    "Maps.tla has logarithm, angle, stream function, Gaussians and pressure in integers; TLC checks on all small flows that "
    "differences of the stream function are the velocity of Velocity.tla, that Gaussians sum up to the circulation and what "
    "taking vortices together misses at most. Six maps of each generated flow are validated against it node by node, with "
    "the cells of the code's trees (P09 decides those) and the velocities of vortices (P29, P30 decide those). "
    "Vorticity near a wall is bounded only: the wall's own part is cosmetic.",
)

# Properties not decided here, with the reason.
NOT_APPLICABLE = {}


def implemented(pid):
    return os.path.exists(VERIF + "/vv/props/%s.py" % pid.lower())


def main():
    with open(VERIF + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["pid"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": p["mech"],
                    "state": [],
                    "observe_at": p["observe"],
                    "hook_needed": False,
                },
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["pid"] in NOT_APPLICABLE:
            na.append({"property": p["pid"], "reason": NOT_APPLICABLE[p["pid"]]})
        elif implemented(p["pid"]):
            checks.append({
                "property": p["pid"],
                "quick_cmd": "./check.sh %s quick" % p["pid"],
                "thorough_cmd": "./check.sh %s thorough" % p["pid"],
                "technique": p["tech"],
                "level": p["level"],
                "level_note": p["note"],
            })
        else:
            na.append({"property": p["pid"], "reason": "check not built yet"})
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "./setup.sh",
            "hooks": {"guard": "none", "enable": "no hooks are needed: everything is observed through "
                      "the public interface, saved files and preloaded libraries", "source_commits": []},
            "checks": checks,
            "not_applicable": na,
            "notes": "TLA+ with TLC; see DESIGN.md",
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
