"""What each check runs, and how its evidence is to be read (no imports here)."""

COMMON = [
    "the generated worlds and histories stand for real ones; sampling, not enumeration",
    "random draws, solver failures, clocks, disk and interruptions are those of the simulator",
    "numpy and scipy compute the same results for the same inputs in one process",
]
LIB = "all of rascal, unmodified; numpy and scipy computations"
META = {}


def add(prop, rule, real, stub, quick, thorough, wall=(150, 3000), assume=()):
    META[prop] = {
        "rule": rule,
        "real": real,
        "stub": stub,
        "runs": {"quick": quick, "thorough": thorough},
        "wall": {"quick": wall[0], "thorough": wall[1]},
        "assumptions": COMMON + list(assume),
    }


add(
    "C01",
    "one run = a generated world and a history of fits, atlas edits and setting "
    "changes on one calibrator, under a hostile or fair draw sequence and transient "
    "solver failures; non-trivial if at least one fit returned a solution; distinct "
    "by the sequence of operation outcomes, matches accepted and failures fired",
    LIB,
    "outcomes of numpy.random.choice (adversary), solver failures, clock",
    1200,
    40000,
)

add(
    "C02",
    "one run = a noise-free world and one fit whose draws are hostile (decoys, "
    "near misses, clustered and rejected samples) except for one or two all-true "
    "samples at chosen positions, or an exhaustive search; non-trivial if an "
    "all-true sample was really drawn and every true pair was a candidate; "
    "distinct by outcome, number of hypotheses and returned values",
    LIB,
    "outcomes of numpy.random.choice (adversary), clock",
    900,
    60000,
)
add(
    "C03",
    "one run = a world and configuration chosen so that samples keep being "
    "rejected for one stated reason (intercept, monotonicity, error, matches, "
    "utilisation, persistent solver failure, ...), random or exhaustive search; "
    "non-trivial if more than three hypotheses were tried or the search was "
    "exhaustive; distinct by reason, outcome, draws and solver calls",
    LIB + " (robust solver replaced by plain least squares when rejections are forced)",
    "outcomes of numpy.random.choice (adversary), solver failures, least_squares "
    "result when rejections are forced, clock",
    1600,
    60000,
    assume=["a fair generator eventually draws a line not yet used in the sample"],
)


add(
    "C08",
    "one run = a history of saves, loads, concurrent readers, truncations and "
    "restarts of generated Hough transforms on the simulated disk, with I/O errors, "
    "short and torn writes, full disk, crashes and interrupts at chosen operations; "
    "non-trivial if a fault fired or a reader saw the file during a save; distinct "
    "by the sequence of operations, outcomes and faults that fired",
    "rascal.houghtransform and the calibrator's save/load, unmodified; numpy and json encoders",
    "the disk (in-memory model of open/write/replace/remove under SimDisk), clock",
    8000,
    400000,
    assume=["a crash keeps what had reached the file system when it struck (no reordering of directory updates)"],
)
add(
    "C09",
    "one run = a calibrator that makes and saves a transform, and other calibrators "
    "(restarted, in other settings, loading with I/O errors and retries) that resume "
    "from it and fit under the same random stream; non-trivial if both fits ran and "
    "one found a solution; distinct by format, history, faults fired and results",
    LIB,
    "the disk (SimDisk), outcomes of numpy.random.choice (adversary), clock",
    1200,
    60000,
)
add(
    "C17",
    "one run = a world, a fit and a history of refinements (given, stored, shifted or "
    "straightened starting solution), fits, atlas, pair and setting edits, some of them "
    "interrupted at a line, hit by solver failures or failing by themselves; every "
    "refinement whose matches are unambiguous is compared with the pairs, the residuals, "
    "rms, utilisations and the robust fit computed from the peaks and the atlas; "
    "non-trivial if one was; distinct by the sequence of operations, outcomes, number of "
    "pairs and values",
    LIB,
    "solver failures, interruptions, random draws, clock",
    1800,
    90000,
)
add(
    "C16",
    "one run = a history of constraint changes, generations, extensions, binnings, "
    "saves, loads, interrupts and retries over two transforms, compared with a list "
    "model after every step; non-trivial if points were generated or an operation "
    "was interrupted; distinct by the sequence of operations and sizes",
    "rascal.houghtransform, unmodified; numpy computations",
    "the disk (SimDisk), clock",
    20000,
    500000,
)
add(
    "C04",
    "one run = a history of settings, seedings and fits executed twice: plainly, and "
    "with other calibrators' history before the seeding, other clocks (jumps, "
    "backwards), progress bars, log levels, unrelated calls in between, other system "
    "entropy, and for a fifth of the runs another process with another hash seed; "
    "non-trivial if a seeded fit found a solution; distinct by the results",
    LIB,
    "clock, unseeded entropy, the disk",
    1000,
    40000,
    assume=["PYTHONHASHSEED and a second process stand for all other processes on this machine"],
)
add(
    "C05",
    "one run = two or three tasks (threads) with calibrators, atlases and transforms "
    "of their own or sharing a read-only atlas and peaks, executed alone and then "
    "together, pre-empted at lines of rascal, random draws, solver calls and disk "
    "operations as the schedule says; non-trivial if at least one switch happened; "
    "distinct by the sequence of (task, place) at the switches",
    LIB + "; real threads, one running at a time",
    "the thread scheduler, the disk (SimDisk); each task has a random stream of its own",
    640,
    30000,
    assume=["pre-emption between lines of rascal's source (not inside numpy or scipy calls)"],
)
add(
    "C06",
    "one run = an operation on a calibrator with a history, cut short one to three "
    "times at chosen lines or by a failing solver or disk, then issued again with the "
    "same random stream, against an uninterrupted twin; or completed twice; "
    "non-trivial if an interruption struck or the operation was repeated; distinct "
    "by operation, place struck and result",
    LIB,
    "interruptions, solver failures, the disk (SimDisk), clock",
    2000,
    60000,
    assume=["an interrupt strikes between lines of rascal's source", "no second interrupt while an exception is being handled"],
)
add(
    "C07",
    "one run = a calibrator holding a solution, attacked by operations that fail "
    "(impossible arguments, solver failures) or are interrupted at a chosen line, the "
    "held solution compared bit for bit after each, then used further against a twin "
    "that was never attacked; non-trivial if an attack really failed; distinct by "
    "operation, exception, place struck and later results",
    LIB,
    "interruptions, solver failures, clock",
    800,
    60000,
    assume=["an interrupt strikes between lines of rascal's source", "no second interrupt while an exception is being handled"],
)
add(
    "C10",
    "one run = a history of additions (from line lists on the simulated disk and from "
    "the caller), removals, clearings and queries over two atlases, directly or through "
    "a calibrator, with the lists rewritten or damaged in between, read errors, short "
    "reads, missing files, interrupts and retries, compared with a list model after "
    "every call; non-trivial if lines were read or removed or a fault struck; distinct "
    "by operations, outcomes, places struck and sizes",
    "rascal.atlas and rascal.util's line-list reading, unmodified; numpy's text reader",
    "the disk (SimDisk), interruptions",
    12000,
    400000,
    assume=["refraction correction (C19) and separation filter (C20) are taken from the library"],
)
add(
    "C11",
    "one run = a calibration history, then plots of all kinds with both libraries, "
    "displayed, saved or returned, with disk errors, full disk, short writes, crashes, a "
    "failing display or an interrupt, then further operations against a twin that "
    "never plotted; files of saves that returned are decoded; non-trivial if a plot was "
    "drawn or a fault struck; distinct by library, kind, options, outcome and what "
    "followed",
    LIB + "; matplotlib (Agg) and its writers, plotly and its HTML writer",
    "the disk (SimDisk), the screen, plotly's static images (kaleido is a browser)",
    500,
    30000,
    assume=["an interrupt strikes between lines of rascal's source"],
)
add(
    "C13",
    "one run = a spectrum with clean, overlapping, edge, saturated, dead and missing-data "
    "peaks, and a list of starting positions refined one at a time, together, in sub-lists, "
    "with chosen Gaussian fits failing to converge or giving unusable values, and again "
    "after an interrupt; non-trivial if several peaks were refined together or a fit was "
    "made to fail; distinct by what each refinement returned",
    "rascal.util.refine_peaks, unmodified; scipy's curve_fit except where made to fail",
    "outcome of chosen curve_fit calls, interruptions",
    5000,
    200000,
)
add(
    "C12",
    "one run = a history of all kinds of operations given the caller's lists, tuples, "
    "arrays, views, integer and read-only arrays, some made to fail by the solvers or "
    "interrupted at a chosen line; everything handed in or returned is compared bit for "
    "bit after every operation; then the caller overwrites its arrays and the calibrator "
    "goes on against a twin; non-trivial if an operation ran; distinct by operations, "
    "outcomes and later results",
    LIB,
    "interruptions, solver failures, the disk; the experimental minimiser runs fewer iterations",
    1000,
    30000,
    assume=["an interrupt strikes between lines of rascal's source"],
)
add(
    "C14",
    "one run = a fitted calibrator (or one given pairs as lists or arrays, whole or "
    "fractional pixels, in order or not) and a history of additions, removals, listings "
    "and refits, valid and not, with solver failures and interrupts and retries, compared "
    "with a list model after every step; non-trivial if an edit was performed; distinct by "
    "operations, outcomes and sizes",
    LIB,
    "interruptions, solver failures, clock",
    3500,
    150000,
    assume=["an interrupt strikes between lines of rascal's source"],
)
add(
    "C15",
    "one run = a history of setting, replacing, wrongly setting, clearing and interrupted "
    "setting of known pairs around random and exhaustive fits, some with failing solvers "
    "or interrupted; the points of every trial polynomial are compared with the pairs in "
    "force, and each completed fit with that of a calibrator given only those; non-trivial "
    "if a hypothesis was tried with known pairs in force; distinct by steps, outcomes and "
    "number of hypotheses",
    LIB,
    "interruptions, solver failures, clock",
    1000,
    50000,
    assume=["an interrupt strikes between lines of rascal's source", "trial polynomials are fitted by numpy.polynomial's polyfit, legfit or chebfit"],
)
add(
    "C21",
    "one run = a history of models, limits, refused values, caller's changes to its own "
    "lists, failing inversions and interrupted calls issued again on one or two "
    "generators; every answer is put back through the polynomial and compared with that "
    "of a new generator; non-trivial if pixels were returned; distinct by operations, "
    "outcomes and sizes",
    "rascal.synthetic and rascal.models, unmodified; pynverse except where made to fail",
    "outcome of chosen inversions, interruptions",
    30000,
    600000,
    assume=["an interrupt strikes between lines of rascal's source", "a line is given as intercept and gradient, a curve with its highest order first, as the code has it"],
)
add(
    "C18",
    "one run = a history of setting calls in any order, with settings left out, "
    "atlases replaced and edited, known pairs, refused values among good ones, calls "
    "interrupted at a line and issued again (at once or later), transforms and fits in "
    "between; then the transform, the plotting library and a seeded fit are compared with "
    "those of a fresh calibrator given the final values; non-trivial if that calibrator "
    "can be transformed; distinct by the sequence of calls, outcomes and results",
    LIB,
    "interruptions, random draws, clock",
    1400,
    90000,
)
