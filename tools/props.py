"""Single source of properties.jsonl (run: python3 tools/props.py)."""
import json
import pathlib

SG = "pyGCodeDecode/state_generator.py"
ST = "pyGCodeDecode/state.py"
PB = "pyGCodeDecode/planner_block.py"
JH = "pyGCodeDecode/junction_handling.py"
GI = "pyGCodeDecode/gcode_interpreter.py"
UT = "pyGCodeDecode/utils.py"
TO = "pyGCodeDecode/tools.py"
AB = "pyGCodeDecode/abaqus_file_generator.py"
CL = "pyGCodeDecode/cli.py"
HE = "pyGCodeDecode/helpers.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "G-code syntax never changes meaning",
    "The effect of a G-code line depends only on its command words and their parameter values: spacing, parameter order, "
    "number notation (sign, decimals, leading zeros of the command number), several commands sharing a line, and line endings never change it. "
    "Everything from the first semicolon on is a comment, in whatever encoding: its text is kept, but it never affects position, settings, dwell or timing. "
    "Commands outside the supported set, including ones whose name merely begins like a supported one, leave position, settings and dwell untouched.",
    ["inputs"],
    "every line of a bounded grammar (command x parameter subset x order x spacing x number notation x comment x foreign command), read in context",
    "The tests parse one fixed file of about twenty lines in one notation; equivalence over all spellings of a line is a statement about all inputs.",
    [SG],
    [("regular-expression search per known command, longest match, comment cut", SG + ": arg_extract"), ("file reading", SG + ": read_gcode_to_dict_list")],
    ["states returned by the state generator", "states of a simulation"],
)
prop(
    "C02",
    "Commanded positions follow the coordinate modes",
    "After any sequence of lines the commanded position equals what linear moves, absolute/relative positioning, absolute/relative extrusion, "
    "set-position and inch/millimetre units mean, expressed in millimetres and for each of X, Y, Z and E independently. "
    "Setting a position, changing a mode or changing units never moves any axis, and axes a line does not name keep their place. "
    "Extrusion mode is independent of positioning mode, and both start absolute, in millimetres, at the setup's initial position.",
    ["histories", "inputs"],
    "all sequences of mode, unit, set-position and move commands up to a depth, from several initial positions",
    "Tests run one sequence; offsets, modes and units interact over histories (offset under relative mode, repeated set-position with non-zero values, unit switches in between).",
    [SG, ST],
    [("virtual machine with per-axis offsets", SG + ": dict_list_traveler")],
    ["position of each state"],
    [("machine coordinates and offsets", "logical position plus accumulated offset per axis", SG + ": dict_list_traveler")],
)
prop(
    "C03",
    "Settings, comments, layers and dwells are modal per line",
    "Every input line yields exactly one state, in file order, after one initial state that carries the setup's values; each state has its line number, its comment and links to both neighbours. "
    "Feed rate, printing acceleration, jerk and per-axis maximum speeds apply from the line that sets them until set again and never alter other states or each other. "
    "With a layer cue, a state's layer is the number of comments so far equal to the cue (surrounding blanks ignored), and a dwell (milliseconds or seconds) belongs to its own line only.",
    ["histories", "inputs"],
    "all sequences of setting, comment, cue, dwell, blank and move lines up to a depth",
    "Tests look at one state after each command once; persistence, non-interference and non-retroactivity quantify over histories.",
    [SG, ST],
    [("per-line settings snapshot", SG + ": dict_list_traveler"), ("neighbour list", ST)],
    ["settings, comment, layer, pause, line number and neighbours of each state"],
)
prop(
    "C04",
    "The trajectory visits every commanded position, gap-free",
    "The simulated trajectory starts at time zero at the initial position, and each piece begins at the time and at the four-axis position where the previous piece ended, with time never decreasing. "
    "Every line that displaces any axis (including extruder-only lines) is executed exactly once, in order, from its start to its commanded target; lines that displace nothing and do not dwell add no motion. "
    "The trajectory's end time and place are those of the last commanded move or dwell.",
    ["inputs", "configurations", "histories"],
    "all move/dwell/setting sequences up to a depth x all firmwares x initial positions",
    "Tests check three stand-alone moves and one total time; correction passes that shift and rewrite neighbouring moves only show over longer sequences.",
    [GI, PB, JH, UT],
    [("block generation", GI + ": generate_planner_blocks"), ("forward correction and time shift", PB + ": self_correction, timeshift")],
    ["segments of the simulation's block list"],
    [("block list", "doubly linked planner blocks", GI)],
)
prop(
    "C05",
    "Motion obeys physics and the configured limits",
    "Within every piece of the trajectory velocity changes linearly in time and the displacement on all four axes equals average velocity times duration. "
    "The path of a move is the straight line to its target with extrusion proportional to travelled distance, and it never runs backwards. "
    "Path speed never exceeds the feed rate in force for that move and path acceleration never exceeds (and, where it is not zero, equals) the printing acceleration in force for it; for extruder-only moves the same holds for the filament speed.",
    ["inputs", "configurations", "histories"],
    "all move/dwell/setting sequences up to a depth x all firmwares, with settings changing between moves",
    "The package's own consistency check ignores extrusion, acceleration and path; tests check three profiles.",
    [PB, UT, JH],
    [("trapezoid / triangle / single ramps", PB + ": move_maker2"), ("segment self check", UT + ": segment.self_check")],
    ["segments of the simulation's block list"],
)
prop(
    "C06",
    "Cornering speed follows the selected firmware's rule",
    "With ample acceleration distance, the speed at which one move hands over to the next equals the selected firmware's cornering rule (full stop without firmware, Marlin junction deviation, Klipper square-corner velocity, Marlin classic jerk, MKA per-axis jerk) for the two directions and speeds, capped by both programmed speeds; lines without displacement in between do not matter. "
    "A straight continuation at unchanged speed is passed at full speed with every cornering firmware at non-zero jerk, and a zero jerk setting makes every change of velocity a stop. "
    "The path starts from rest, and ends at rest except for the instantaneous stop that classic jerk allows.",
    ["inputs", "configurations"],
    "all pairs of directions on a lattice x speed pairs x jerk x acceleration x firmwares x separating lines",
    "Tests only exercise a straight-line junction with one firmware.",
    [JH, PB],
    [("junction classes", JH), ("firmware selection", PB + ": planner_block.__init__")],
    ["speed at the boundary between consecutive blocks"],
)
prop(
    "C07",
    "Look-ahead yields the fastest feasible speed profile",
    "For every program the head's path speed is continuous across consecutive moves, and each boundary speed is the largest one compatible with the cornering limits, both programmed feed rates and with accelerating and braking at the printing acceleration over the available lengths, before and after. "
    "Consequently each move's duration is that of the fastest profile between its boundary speeds. "
    "This holds for any number of consecutive short moves, so braking is propagated back over as many moves as needed.",
    ["inputs", "configurations", "histories"],
    "all sequences of short/long, slow/fast moves, dwells and setting changes up to a depth x firmwares, plus long chains of tiny moves",
    "Needs multi-move chains where braking propagates backwards over several moves; tests say 'self correction is not being tested'.",
    [PB, GI, JH],
    [("backward propagation", PB + ": self_correction"), ("trajectory correction sweep", GI + ": simulation.trajectory_self_correct")],
    ["boundary speeds and end times of blocks"],
)
prop(
    "C08",
    "A dwell stops the machine for exactly its duration",
    "A dwell holds all axes at the position commanded so far for exactly the stated time (P in milliseconds, S in seconds, S winning over P), wherever it occurs: before the first move, between moves, repeated, last, of zero length, or on the same line after a move. "
    "The head comes to rest before it and starts from rest after it. "
    "It changes nothing else: the path is the one without the dwell, and the total time is the sum of the dwell and of the parts before (brought to rest) and after it simulated separately.",
    ["inputs", "histories", "configurations"],
    "all sequences of moves and dwells up to a depth x firmwares",
    "Tests only read the pause value of one state; no test simulates a dwell.",
    [PB, SG, JH],
    [("dwell segment", PB + ": planner_block.__init__"), ("dwell parsing", SG + ": dict_list_traveler")],
    ["segments of dwell blocks and their neighbours"],
)
prop(
    "C09",
    "Queries by time depend on the time only",
    "For every time from zero to the end of the trajectory, both inclusive, asking for position and velocity gives the values of the trajectory at that instant, with the piece that begins there deciding the velocity at a boundary. "
    "The answer does not depend on which times were asked before, in what order or how often, nor does asking change the simulation. "
    "Searching a list of pieces with gaps while holding the position returns standstill at the end of the previous piece inside a gap, whatever index the search was started from.",
    ["histories", "inputs"],
    "all query sequences up to a length over all critical times (boundaries, interior points, end) of several trajectories, and all start indices",
    "No test queries a simulation; the search keeps a cursor between calls, so correctness is about query histories.",
    [GI, UT],
    [("cursor-optimised search", GI + ": find_current_segment, simulation.get_values"), ("interpolation", UT + ": segment")],
    ["return values of the query functions"],
    [("cursor", "last found index kept between queries", GI + ": simulation.last_index")],
)
prop(
    "C10",
    "Unit systems scale lengths uniformly, never time",
    "Choosing an output unit system (metre, millimetre, inch) for the simulation or for one call multiplies every reported length and speed (values at a time, extents, maximum speed, summary, event series) by the same factor and leaves times, flags and the simulated motion unchanged; a per-call choice affects that call only and overrides the simulation's choice. "
    "Initial positions given in a unit system are converted to millimetres with the inverse factor. "
    "Unknown unit systems are rejected.",
    ["inputs", "configurations", "histories"],
    "all (simulation unit, call unit) pairs, including sequences of calls, x all result functions x programs",
    "Tests use millimetres only.",
    [GI, AB],
    [("scaling factors", GI + ": simulation.get_scaling_factor, setup.get_scaling_factor")],
    ["all result functions with a unit argument"],
)
prop(
    "C11",
    "The printer setup reflects exactly the calls made on it",
    "After any sequence of selecting printers, setting properties and setting initial positions, the setup reported for the selected printer consists of that printer's preset values overridden by the properties set for that printer, the last initial position, the printer's name and the layer cue if one was given. "
    "Other printers' values never change, a rejected call changes nothing, and setting a property without a selected printer, selecting an unknown printer or giving a malformed initial position is rejected. "
    "A setup already handed to a caller or to a simulation is not altered by later calls, nor does altering it alter the setup.",
    ["histories"],
    "all sequences of setup calls up to a depth, with handed-out dictionaries kept and re-inspected",
    "The test runs one sequence of six calls; aliasing between handed-out dictionaries needs other histories.",
    [GI],
    [("setup class", GI + ": setup")],
    ["returned setup dictionaries", "later simulations"],
    [("preset dictionary", "all printers' values, overwritten in place", GI + ": setup.setup_dict")],
)
prop(
    "C12",
    "Invalid or incomplete setups are rejected, valid ones run",
    "A simulation starts if and only if its setup has all required keys, no unknown key, a consistent machine name and a known output unit system; otherwise it is refused with an error before anything is simulated. "
    "Naming a machine without a setup is the same as using that machine from the shipped default presets at the origin. "
    "Every shipped preset is complete and is simulated with its own firmware.",
    ["configurations"],
    "all single and double omissions and additions of keys, all machine-name/setup combinations, all shipped presets",
    "Tests never pass an invalid setup.",
    [GI, "pyGCodeDecode/data/default_printer_presets.yaml"],
    [("setup validation", GI + ": simulation.check_initial_setup, simulation.__init__")],
    ["constructor outcome"],
)
prop(
    "C13",
    "Simulations are reproducible and independent",
    "Simulating the same G-code with the same setup gives the same result whatever was simulated, queried, exported or changed before in the process, and in any order. "
    "Creating, refreshing or querying one simulation, or changing the setup it was made from, never changes another simulation's results. "
    "Refreshing without new states reproduces the simulation; refreshing with another state list equals simulating those states afresh with the same firmware.",
    ["histories"],
    "all interleavings up to a depth of create / query / export / refresh / setup-change operations on several simulations",
    "Hidden shared state only shows over histories of several simulations in a process; each test uses one.",
    [GI, SG, PB],
    [("per-simulation state", GI + ": simulation"), ("refresh", GI + ": simulation.refresh")],
    ["trajectories of all live simulations after each operation"],
)
prop(
    "C14",
    "The ABAQUS event series is the trajectory",
    "The event series starts with the trajectory's start at time zero and then lists time and X, Y, Z of every end of a piece in order, in the chosen unit system, so linear interpolation between constant-speed points reproduces the path. "
    "The flag of a row is 1 exactly when filament advances (by more than the tolerance) until the next row and 0 otherwise, and 0 in the last row. "
    "The written file, which is created with its directory at the path given (without one: at the documented name in the working directory), contains the same rows as the returned tuple (lengths rounded to eight decimals), and generating it does not change the simulation.",
    ["inputs", "configurations"],
    "all sequences of extruding, travel, retract and dwell lines up to a depth x firmwares x unit systems x tolerances",
    "The test only checks that the file exists.",
    [AB],
    [("event generation", AB + ": generate_abaqus_event_series")],
    ["returned tuple", "file contents"],
)
prop(
    "C15",
    "Layer metrics partition the print",
    "Layer metrics attribute every move and dwell to exactly one layer: each layer with motion is listed once in increasing order, preceded by layer 0 when motion or the start of the print precedes the first cue. "
    "Durations add up to the total print time and travel distances to the total path length, a layer's duration is the time from its first piece to the first piece of the next layer, and average speed is distance over duration (NaN for zero duration). "
    "The written table (at the path given, otherwise at its documented name in the working directory) holds the same numbers with the chosen delimiter (by default a semicolon), and nothing is written or returned when no cue was configured.",
    ["inputs", "configurations"],
    "all sequences of moves, dwells and layer cues up to a depth, including empty layers and single-move layers at either end",
    "The test only checks that a file exists; boundary layers need enumeration of cue/move patterns.",
    [TO],
    [("layer accumulation", TO + ": save_layer_metrics")],
    ["returned lists", "csv file"],
)
prop(
    "C16",
    "Extent, maximum speed and summary match the trajectory",
    "The extrusion extent is the smallest axis-aligned box around the start and end points of all moves that advance filament, and the maximum extrusion speed is the largest path speed reached during those moves; pure travel, retractions and dwells never contribute. "
    "The summary file states the file name, the trajectory's end time, this extent and this speed, in the simulation's unit system, and creates missing directories. "
    "The summary printed on the console tells the file, the numbers of states and planner blocks, and the end time to the hundredth of a second. "
    "When nothing is extruded, asking for the extent is refused with an error.",
    ["inputs", "configurations"],
    "all sequences of extruding, travel, retract, prime and dwell lines up to a depth x firmwares x units",
    "The test only checks that a file exists.",
    [GI, PB],
    [("extent and maximum", GI + ": simulation.extrusion_extent, extrusion_max_vel, save_summary"), ("block flag", PB + ": is_extruding")],
    ["returned arrays", "yaml file"],
)
prop(
    "C17",
    "Submodel entry and exit times are true crossing times",
    "For any axis-aligned box, each time at which the path passes from outside to inside is reported as an entry and each time it passes from inside to outside as an exit, in chronological order, and nothing else is reported. "
    "At each reported time the trajectory's position lies on the box's surface, whether the head is accelerating, cruising or braking there. "
    "The total process time and the number of entries are reported with them, a path that never crosses the box yields empty lists, and the file (under the name given or the documented one) holds the same data as the returned result, extra information included.",
    ["inputs", "configurations"],
    "all paths of up to a few moves on a lattice around a box (through faces, ending inside, starting inside, missing it) x firmwares x speed profiles",
    "No test covers it; correctness of times depends on the phase of motion at the crossing.",
    [TO, PB, UT],
    [("plane intersection", TO + ": write_submodel_times"), ("time at distance", PB + ": inverse_time_at_pos"), ("inversion of a ramp", UT + ": segment")],
    ["returned dictionary", "yaml file"],
)
prop(
    "C18",
    "Timing depends on geometry, not on how it is written",
    "Translating the whole program and its initial position, mirroring an axis, exchanging axes among X, Y and Z, or scaling all lengths, speeds, accelerations and jerk by one factor leaves every time unchanged and transforms positions and velocities accordingly. "
    "Writing the same path with absolute or relative coordinates, with inch or millimetre units, with re-zeroed coordinates, or interspersed with comments, blank lines and unsupported commands gives the same trajectory. "
    "Splitting a straight constant-speed move into collinear parts does not change its timing under junction deviation, classic jerk and MKA cornering.",
    ["inputs", "configurations"],
    "all move sequences up to a depth x firmwares x all transformations",
    "Relational over pairs of programs; tests run single programs.",
    [SG, JH, PB],
    [("junction classes", JH), ("virtual machine", SG), ("planner", PB)],
    ["trajectories of transformed programs"],
)
prop(
    "C19",
    "The 3D mesh shows exactly the extruded path",
    "The mesh built for 3D plotting consists of tubes along exactly those maximal runs of pieces that advance filament (or along the whole path when asked for everything), each vertex of the path lying on the tube's axis and carrying the path speed at that vertex. "
    "No tube spans a travel move, a retraction or a dwell when only extrusion is asked for. "
    "The saved VTK file holds the same mesh, a mesh passed in is reused unchanged, and building it does not change the simulation. A screenshot of the mesh is taken exactly when a path for it is given, and the interactive view opens exactly when none is given, both only where a display is available.",
    ["inputs", "configurations"],
    "all sequences of extruding, travel, retract and dwell lines up to a depth x both plotting modes",
    "The test only checks that a file exists.",
    [GI],
    [("polyline splitting", GI + ": simulation.plot_3d")],
    ["returned mesh", "vtk file"],
)
prop(
    "C20",
    "The velocity plot draws the simulated velocities",
    "The curves of the velocity plot are the simulated axis velocities, path speed and axis positions at the plotted times, for any selection of axes; the times are all ends of pieces plus zero, or the requested number of times which divide the duration evenly, starting at zero. "
    "Block and piece markers, when shown, stand at the end times of moves and pieces, and junction markers at the planned junction velocities. "
    "An image is written exactly when a path for it is given, under that name; an invalid time-step choice is refused, and plotting does not change the simulation.",
    ["inputs", "configurations"],
    "all axis selections x time-step modes x marker switches over enumerated programs",
    "The test only checks that a file exists.",
    [GI],
    [("plot data gathering", GI + ": simulation.plot_vel")],
    ["line data of the returned figure"],
)
prop(
    "C21",
    "The command line acts on the right inputs and outputs",
    "The plot command simulates the G-code file given, or the only one in the working directory, with the given or default presets, printer and layer cue, and stops without writing anything when the file or presets do not exist or the choice is ambiguous. "
    "With an output directory (given, or accepted when asked) it writes exactly summary, mesh, and (with a layer cue) layer metrics named after the G-code file into that directory, with the contents the library functions produce; when the user declines it writes nothing, and it asks again until the answer is yes or no. "
    "The extruded path is then shown once, and with a display a screenshot of it is among the outputs. Files outside the output directory are never touched.",
    ["configurations", "inputs", "fault_sequences"],
    "all combinations of arguments x directory contents x answer sequences",
    "No test runs the command line.",
    [CL],
    [("argument handling", CL + ": _main, _plot")],
    ["files written, exit, prompts"],
)
prop(
    "C22",
    "Every well-formed program simulates to completion",
    "Any program made of supported commands with positive feed rates, accelerations and non-negative jerk is simulated to the end without an error, for every firmware, however short, long, slow, fast, collinear or reversed its moves are, whatever the mix of extruder-only moves and dwells, and however many moves it has. "
    "A program without any motion yields an empty trajectory with duration zero rather than an error. "
    "Rounding in speeds or positions never turns a valid program into a failure.",
    ["inputs", "configurations"],
    "all short programs over a numerically adversarial move set x firmwares x offsets; chains of increasing length",
    "Failures come from last-digit rounding and from length; tests use round numbers and at most seven moves.",
    [PB, JH, UT, GI],
    [("case selection", PB + ": move_maker2"), ("self check", UT + ": segment.self_check"), ("recursive correction", PB + ": self_correction")],
    ["constructor outcome"],
)
prop(
    "C23",
    "Unsupported commands are counted and reported exactly",
    "The report on known but unsupported commands lists each such command (arc moves, retract/unretract by firmware, homing, bed levelling) with exactly the number of lines on which it occurs outside comments, and nothing else. "
    "Supported commands, comments mentioning commands and unknown commands are never reported, and a file without any yields an empty report and no warning. "
    "Reporting never changes the parsed program.",
    ["inputs", "histories"],
    "all sequences up to a depth over supported, unsupported, unknown and commented lines, in several spellings",
    "No test covers the report.",
    [SG],
    [("counting", SG + ": check_for_unsupported_commands"), ("recognition", SG + ": arg_extract")],
    ["returned counts", "printed warning"],
)
prop(
    "C24",
    "Extrusion width conserves material",
    "At any time with head motion, reported extrusion width times layer height times travel speed equals the filament cross-section times filament speed, independent of the unit system's choice for velocities; it is zero where the head does not move. "
    "It is zero for pure travel and scales with the square of the filament diameter and inversely with the height. "
    "Asking for it does not change the simulation.",
    ["inputs", "histories"],
    "all critical times x heights x diameters x programs x units",
    "No test covers it.",
    [GI],
    [("width", GI + ": simulation.get_width")],
    ["return value"],
)
prop(
    "C25",
    "Four-axis vectors obey vector algebra",
    "Addition, subtraction, scaling and division of four-axis vectors act on each component, keep the kind of vector (position or velocity), accept vectors of the same kind, lists, tuples and arrays of length four and (for scaling and division) integers and floats, and reject anything else. "
    "Operands are never modified. "
    "Equality holds exactly within rounding tolerance on all four components; norms and distances cover X, Y, Z or all four as asked; and movement, extrusion and direction queries agree with the component differences. "
    "A vector prints as its kind and its four components with all their digits. "
    "Limiting a velocity to the axis maxima of printing settings gives the fastest velocity of the same direction, not faster than itself, that exceeds none of the four maxima.",
    ["inputs"],
    "all operand pairs over a component lattice x operand kinds x operations",
    "No test covers the vector operations beyond one equality.",
    [UT],
    [("vector classes", UT + ": vector_4D, velocity, position")],
    ["results of operations"],
)
prop(
    "C26",
    "Trajectory pieces evaluate and validate correctly",
    "A piece of trajectory evaluated at a time inside its interval returns the linearly interpolated velocity and its time integral as position, meets its stored end values at both ends, and refuses times outside. "
    "Constructing or checking a piece accepts it if and only if its end position on X, Y and Z agrees (within tolerance) with its velocities and duration and time does not run backwards, and, when settings are given, its speeds do not exceed the target speed. "
    "Shifting in time moves both ends equally and changes nothing else. The initial piece is at rest at the given position (the origin when none is given), at time zero and without duration. "
    "Calculated results of a piece are its own begin and end speed, their relative shortfalls from the target speed and, while the speed changes, the shortfall integrated along the way; results that were not calculated are refused.",
    ["inputs"],
    "all pieces over a lattice of times, velocities and positions, consistent and perturbed in each field",
    "Tests evaluate three pieces at their ends.",
    [UT],
    [("segment", UT + ": segment")],
    ["evaluation results", "acceptance or rejection"],
)
prop(
    "C27",
    "Move-level queries agree with the trajectory",
    "For every simulated move, the time reported for a distance along it is the time at which the trajectory has covered that distance from the move's start, from the start to the end inclusive and in every phase of motion. "
    "The reported travel length is the distance between its end points, its extrusion flag says whether filament advances over it, and its maximum speeds while extruding are the largest absolute axis speeds in it (none when not extruding). "
    "Distances beyond the move are refused, and asking changes nothing.",
    ["inputs", "configurations"],
    "all moves of all enumerated programs x distances on a grid including both ends and every phase boundary",
    "No test covers these queries.",
    [PB, UT],
    [("inverse time", PB + ": inverse_time_at_pos"), ("block queries", PB + ": get_block_travel, extrusion_block_max_vel")],
    ["return values"],
)
prop(
    "C28",
    "The 2D position plot draws the simulated path",
    "The 2D plot draws one uninterrupted line in the XY plane that runs through the start and the end of every piece of the trajectory in order, to the very end of the path, and nothing beside it. "
    "Coloured by velocity, a part of the line has a speed which lies between the speeds of its piece, progresses from the begin to the end speed, and covers no more than the chosen resolution while the speed changes; with any other colouring the line is plain. "
    "Marked points are the ends of the planner blocks, all of the path lies within the axes, an image is written under the path given (by default one in the working directory, none if refused), each plot has its own figure, and plotting changes nothing.",
    ["inputs", "configurations", "histories"],
    "all move/dwell sequences up to a depth x firmwares x colouring, marks, resolution, scaling, file and showing, and all sequences of plots in one process",
    "No test plots in 2D; left out pieces and overdrawn figures need particular paths and histories.",
    [GI],
    [("2D plot", GI + ": simulation.plot_2d_position")],
    ["matplotlib artists of the figure", "image file"],
)
prop(
    "C29",
    "The console tells the truth, in plain text inside ABAQUS",
    "Every progress report on the console names its phase and shows the share of the work done, in per cent to the tenth and as a bar filled in proportion. "
    "Within a phase it never decreases, and the phase ends at 100 % with 'Done' exactly once, for programs of any length and whatever was simulated or plotted before in the process. "
    "A progress that is no number is shown as an error, one below zero as a halt, one from 1 on as done. "
    "Each simulation tells the number of lines parsed, the G-code file, the printer and the firmware, and in the end the numbers of states and planner blocks and the estimated time; each export names the file it has written. "
    "Inside ABAQUS everything the library prints is the same text without its non-ASCII characters, whatever is printed, and the simulated results are the same. "
    "A console which cannot show some characters gets the text without them, and the work goes on as on any other.",
    ["inputs", "configurations", "histories"],
    "all sequences of progress reports over an alphabet, programs of every length, all sequences of plots in one process, the same session inside and outside of ABAQUS",
    "No test reads the console; reports that end early depend on the length of the program and on what was reported before.",
    [GI, HE],
    [("progress", GI + ": update_progress"), ("printing", HE + ": custom_print")],
    ["standard output"],
)

prop(
    "C30",
    "The bundled examples do what they announce",
    "The brace example simulates the bundled brace G-code with the shipped default presets of the Anisoprint A4, shows its extruded path and saves nothing. "
    "The benchy example simulates the bundled benchy G-code with the Prusa MINI of the presets bundled with the examples and the layer cue LAYER_CHANGE, and saves to output_benchy_example in the working directory exactly the summary, layer metrics, ABAQUS event series, mesh and (with a display) screenshot which the library yields for this simulation in millimetres, then shows the same mesh once. "
    "This holds whatever the bundled files contain, whatever lies in the working directory, however the example is started (command line, function, module) and whatever was run before. "
    "The package, other files and the working directory are left alone.",
    ["inputs", "histories", "configurations"],
    "all sequences of runs and exchanges of the bundled files in one process x working directories x display; all short bundled programs x presets",
    "No test runs the examples; they depend on packaged data, the working directory, the display and former runs in the process.",
    [CL, "pyGCodeDecode/examples/benchy.py", "pyGCodeDecode/examples/brace.py"],
    [("selection", CL + ": _run_example"), ("benchy", "pyGCodeDecode/examples/benchy.py: benchy_example"), ("brace", "pyGCodeDecode/examples/brace.py: brace_example")],
    ["files written", "mesh, screenshots and windows"],
)
prop(
    "C31",
    "Results depend on the inputs alone, not on where and how the process runs",
    "The same G-code, presets and arguments give the same states, trajectory, queried values, mesh, saved files (byte for byte, apart from images and the name of the G-code as it was given) and the same report of unsupported commands in every process. "
    "This does not depend on hash randomisation, locale and encoding of the process, optimisation or other flags of the interpreter, whether there is a console, what it can show and whether anything listens, time zone, home directory and size of the terminal, "
    "on the working directory and what lies in it, on whether a file is named by an absolute or relative path, a string or a Path, through links or with blanks, special characters and umlauts, "
    "or on whether the library is used in the main thread, another thread, a forked process or interactively. Nothing appears in the working directory which was not asked for.",
    ["configurations", "inputs"],
    "all environments which differ from an ordinary one in up to two of eight axes x programs x firmwares, each in a fresh process",
    "The tests run in one environment of one machine; a dependency on any other shows at the user's.",
    [GI, SG, TO, AB, CL, HE],
    [("reading of files", SG + ": read_gcode_to_dict_list"), ("shipped presets", GI + ": simulation.__init__"), ("saved files", TO + ": save_layer_metrics"), ("console", HE + ": custom_print")],
    ["states, trajectory and values", "bytes of saved files", "console output"],
)
prop(
    "C32",
    "Threads of one process do not influence each other",
    "When several threads of a process simulate different programs with different setups at the same time, change setups, refresh simulations, query them or save summaries, layer metrics, event series and submodel times, "
    "each of them gets exactly the result it gets alone, whenever and wherever the threads take turns. "
    "Several threads may also read and export the same simulation at the same time, each in its own unit system. Only console output may mix.",
    ["schedules", "inputs"],
    "all interleavings of two threads with one preemption at any executed line, and pairs of preemptions at calls, over all pairs of operations; three threads",
    "A test runs one thread; a shared buffer only shows under some interleavings, which a test can not provoke.",
    [GI, SG, PB, JH, TO, AB],
    [("state of the parser", SG + ": dict_list_traveler"), ("planning", GI + ": generate_planner_blocks"), ("queries", GI + ": simulation.get_values")],
    ["states, trajectory and values of each thread", "saved files"],
)
prop(
    "C33",
    "Failing file operations are reported and do no damage",
    "If a G-code or presets file can not be opened, or reading it fails at any point, the call ends with an error: nothing is simulated from a part of it, and no other file takes its place. "
    "If a summary, layer metrics, event series, submodel times, VTK mesh or plot can not be written completely (device full at any point, a directory or file in the way, unusable path), the call ends with an error; it never returns, or announces a saved file, as if the file were there and complete. "
    "In either case the simulation, the setup and all other files stay as they were, nothing else is left behind, no file stays open, and the same call succeeds with the complete result once the trouble is over.",
    ["fault_sequences", "inputs"],
    "every point at which reading or writing a file can fail (every number of bytes) x operation x error x obstacle in the path",
    "The tests never see a failing file operation; each export has hundreds of points at which it can fail.",
    [GI, SG, TO, AB],
    [("reading", SG + ": read_gcode_to_dict_list"), ("presets", GI + ": setup.load_setup"), ("summary", GI + ": simulation.save_summary"), ("mesh", GI + ": simulation.plot_3d"), ("metrics", TO + ": save_layer_metrics"), ("submodel", TO + ": write_submodel_times"), ("events", AB + ": generate_abaqus_event_series")],
    ["error or normal return of the call", "files on disk", "simulation afterwards"],
)
prop(
    "C34",
    "An interrupted operation does no lasting damage",
    "When the user interrupts a simulation, refresh, query, export or setup call at any point (Ctrl+C, or it runs out of memory), the interrupt reaches the caller: the call never returns an unfinished result as if it were complete. "
    "Afterwards everything works in the same process as if the interrupted call had never been made: other simulations, queries and exports give their usual results, the setup which was used for a simulation is unchanged, "
    "a simulation which was being queried or exported answers as before, and repeating the interrupted call gives the complete and correct result.",
    ["crash_points", "histories"],
    "all operations, interrupted at every executed line of the package, followed by the same and by other operations",
    "A test can not choose where an interrupt hits; the damage shows in later operations of the process.",
    [GI, SG, PB, TO, AB],
    [("parsing", SG + ": read_gcode_to_dict_list"), ("planning", GI + ": generate_planner_blocks"), ("queries", GI + ": simulation.get_values"), ("setup", GI + ": setup")],
    ["the exception which reaches the caller", "results of later operations"],
)

prop(
    "C35",
    "Edited states are simulated exactly as edited",
    "The states of a simulation can be edited and simulated again: after any sequence of changes to their positions, settings and pauses, of states taken out or put in, and of refreshes and queries in between, "
    "a refresh (with or without handing over the list of states) gives the pieces, values by time, extent, maximum speed, move data and layer metrics of the program that says the same as the edited states. "
    "Editing one state changes that state alone, and a refresh never changes the states themselves.",
    ["histories", "inputs"],
    "all sequences of edits, refreshes and queries up to a depth; every single edit of every state",
    "The tests never edit a state; whether something computed earlier or shared between states survives an edit shows only over histories.",
    [GI, PB, SG, JH, "pyGCodeDecode/state.py"],
    [("refresh", GI + ": simulation.refresh"), ("settings of a state", "pyGCodeDecode/state.py: state, p_settings"), ("planning", GI + ": generate_planner_blocks")],
    ["states, trajectory and derived values after each refresh"],
)

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), "properties")
