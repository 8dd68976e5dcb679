"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when its rule exists)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    a = {"files": ["arcticpy/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a,
                  _technique=technique, _note=note, _na=na))


AI = "abstract interpretation of the Python and Cython source (value numbering, heap locations)"
TRUST = ("Assumes the caller described in DESIGN.md and trusts the analyser in /verif/sa (front end, value numbers, models of numpy/scipy/copy); "
         "constructs it cannot model are reported as undecided in the evidence and never raise an alarm.")

prop("C01", "Inputs are never modified and results are not aliases of them",
     "Adding or removing trails leaves every object the caller passed (image, traps, CCD, clock sequences, windows) exactly as it was, and the returned "
     "image never shares memory with an argument, even when there is nothing to do. A trap manager's step changes its own state only, and building a CCD, clock sequence or trap manager leaves the lists and "
     "species it is given as they were.",
     ["inputs", "configurations"], "every image type, combination of directions, traps, clock sequence, window and express setting",
     "Tests compare a handful of outputs; none looks at the arguments afterwards, nor at every combination of early exits and in-place numpy operations.",
     ["main.py", "main_utils.pyx", "trap_managers.py", "traps.py", "ccd.py", "roe.py"],
     [("add_cti / remove_cti copy of the image", "arcticpy/main.py"), ("in-place clocking", "arcticpy/main_utils.pyx"), ("species copies per phase", "arcticpy/trap_managers.py")],
     "escape/effect analysis: " + AI, "Every store reachable from the public entry points is resolved to abstract heap objects; none may be an argument of the caller. " + TRUST)

prop("C02", "Repeating a call gives the same result: no hidden state between calls",
     "The outcome of every public operation is a function of its arguments alone: nothing is remembered in modules, classes, default arguments or in the "
     "objects the caller passes, and random draws come from a generator seeded by the arguments. Calling twice with equal arguments gives equal results.",
     ["histories", "inputs"], "every sequence of calls, in any order, with any arguments",
     "Each test runs its own fresh sequence; state that leaks from one call to the next only shows for particular histories.",
     ["main.py", "main_utils.pyx", "roe.py", "traps.py", "trap_managers.py", "ccd.py", "util.py"],
     [("default arguments", "all signatures"), ("module and class attributes", "all modules"), ("Poisson trap numbers", "arcticpy/traps.py: poisson_trap")],
     "effect analysis over the syntax tree and " + AI, "No store reaches a module, class, closure or default-argument object; every random draw is dominated by a seeding with the given seed. " + TRUST)

prop("C03", "Reported release/capture is the exact change in trapped charge",
     "The number of electrons a trap manager reports as released, captured or net released equals the decrease (increase for captured) of the charge its traps "
     "hold, for every state and cloud size. No more is captured than there are free electrons, and the charge held is the sum over levels and species of volume x fill x density, and that of all traps the sum over every phase and group.",
     ["inputs", "histories"], "every reachable trap state, number of free electrons, dwell time, CCD filling, species mix and trap type",
     "Tests check a few states with hand-computed numbers; the statement quantifies over all watermark states and code paths (first capture, new highest cloud, cloud below watermarks, not enough electrons).",
     ["trap_managers.py", "trap_managers_utils.pyx"],
     [("release, capture and combined steps of the three managers", "arcticpy/trap_managers.py"), ("trapped charge", "arcticpy/trap_managers_utils.pyx")],
     "path-sensitive symbolic value analysis: " + AI,
     "On each return path of each step the returned value number plus the change of the trapped charge cancels identically; the limited capture and the population sum are checked on their own. " + TRUST,
     state=[("watermarks", "levels: volume in column 0, fill fraction or elapsed time per species in the others")])

prop("C04", "Image change is the net reported charge, share and multiplicity applied once",
     "At every clocking step the pixel a phase releases to changes by the sum over all trap groups of the reported net release, times the share released to that pixel, times "
     "the express multiplicity, and by nothing else; each group of traps acts exactly once per phase, step and pixel. Charge not reported as released is never added, and captured charge is taken from the pixel it was captured from.",
     ["inputs", "configurations"], "every clock sequence, number of phases, traps and express setting",
     "A dropped or doubled contribution is compensated or small in the configurations the tests use (single phase, one trap group).",
     ["main_utils.pyx", "trap_managers.py", "roe.py"], [("clocking loop", "arcticpy/main_utils.pyx"), ("per-phase managers", "arcticpy/trap_managers.py: AllTrapManager")],
     "symbolic store analysis: " + AI, "The value stored into the image is compared, as a value number, with old value + (sum of the step results) x share x multiplicity. " + TRUST)

prop("C05", "Clocking never makes a pixel negative",
     "Whatever the traps capture or release, a pixel value written while adding trails is never below zero, for any image, including images with negative pixels.",
     ["inputs", "configurations"], "every image, trap set and clocking configuration", "Only images without such pixels and with enough charge are exercised.",
     ["main_utils.pyx"], [("pixel update", "arcticpy/main_utils.pyx")],
     "interval analysis with value guards: " + AI, "Every store into the clocked image is preceded on all paths by a clamp at zero, or stores a value with lower bound zero. " + TRUST)

prop("C06", "Pixels outside the windows are returned unchanged",
     "Only pixels whose row lies within the row window (or the destinations of charge released from them) and whose column lies within the column window are changed; every other pixel of the result equals the input, and the result has the input's shape with no padding left.",
     ["inputs", "configurations"], "every image shape, window, offset and clock sequence", "Tests use one or two windows on small images and compare only with another run of the same code.",
     ["main.py", "main_utils.pyx", "roe.py"], [("rows and columns processed", "arcticpy/main_utils.pyx"), ("padding for charge released away from readout", "arcticpy/main_utils.pyx")],
     "index-range analysis of all image stores: " + AI, "For each store into the image, the row and column index value numbers are shown to lie in the window ranges; the result is the trimmed buffer. " + TRUST)

prop("C07", "Each direction uses its own parameters; removal forwards them all",
     "Parallel clocking uses exactly the parallel CCD, clock sequence, traps, express, offset and window, serial clocking the serial ones with rows and columns exchanged; the time window "
     "counts parallel transfers, so for serial clocking it only restricts the rows that have been read. Removing trails simulates the addition with exactly the caller's options.",
     ["configurations", "inputs"], "every combination of given and defaulted options", "Existing tests use the same parameters for both directions or only one direction, so an exchange does not show.",
     ["main.py"], [("the two clocking calls", "arcticpy/main.py: add_cti"), ("forwarding", "arcticpy/main.py: remove_cti")],
     "symbolic argument-flow analysis: " + AI, "Each argument of each clocking pass is compared by object identity / value number with the caller's option for that direction. " + TRUST)

prop("C08", "Serial clocking is parallel clocking of the transposed image",
     "Serial clocking acts on the image as left by the parallel pass, with rows and columns exchanged, and the result is returned in the original orientation and shape; with only one direction requested, only that one acts.",
     ["inputs", "configurations"], "every image, frame or array, and combination of directions", "Square symmetric test images hide a missing or doubled transposition for many code paths.",
     ["main.py"], [("axis exchange", "arcticpy/main.py: add_cti")],
     "symbolic content tracking: " + AI, "The content of the result is the term T(serial(T(parallel(image)))) and nothing else, per combination of directions. " + TRUST)

prop("C09", "Frames come back as frames with their metadata",
     "When the image is a frame, the result is a frame of the same class carrying the input's mask, readout corner, scan regions and exposure information; when it is a plain array the result is a plain array.",
     ["inputs", "configurations"], "every combination of directions, both for adding and removing", "Only one frame scenario is tested.",
     ["main.py"], [("re-wrapping of the result", "arcticpy/main.py: add_cti, remove_cti")],
     "symbolic object tracking: " + AI, "Class and each metadata field of every returned object are compared with those of the input. " + TRUST)

prop("C10", "Removal is the fixed-point correction, the given number of times",
     "Removing trails starts from the input and, exactly as many times as requested, adds to the current estimate the difference between the input and the simulated addition on the current estimate; with zero iterations the input comes back.",
     ["inputs", "histories"], "every image, number of iterations and option set", "The convergence tests accept any correction that moves in the right direction.",
     ["main.py"], [("correction loop", "arcticpy/main.py: remove_cti")],
     "loop summary by value numbering: " + AI, "The result for 0..4 iterations equals the unrolled recurrence with the addition as an uninterpreted function; the loop count is the requested number. " + TRUST)

prop("C11", "Watermark bookkeeping conserves volume and never overflows",
     "The trap state always has room for the levels the next transfer may create, whatever the number of transfers; inserting a cloud splits levels without changing the total volume, and merging or discarding full levels leaves no stale level behind.",
     ["histories", "inputs"], "every sequence of captures and releases, of any length", "Tests run short histories that stay far from the capacity and check a few snapshots.",
     ["trap_managers.py", "trap_managers_utils.pyx"], [("capacity check", "arcticpy/trap_managers.py: extend_watermarks_if_almost_full"), ("level insertion and removal", "arcticpy/trap_managers.py")],
     "symbolic array-content analysis: " + AI, "The capacity is restored before every step that creates levels; level updates are compared with the conserving form. " + TRUST)

prop("C12", "Fill fractions and probabilities stay between 0 and 1",
     "Trap occupations and the probabilities used to update them lie between 0 and 1 for every dwell time, time scale and history; with no time elapsed nothing is released, after infinite time everything is, and two successive dwells act as one of the summed duration.",
     ["inputs", "histories"], "every non-negative dwell time and time scale, including zero and instant capture", "Tests sample a few dwell times; limits and composition are not checked.",
     ["trap_managers.py", "traps.py"], [("fill probabilities", "arcticpy/trap_managers.py: fill_probabilities_from_dwell_time"), ("exponential release", "arcticpy/traps.py")],
     "interval and value-number analysis: " + AI, "Bounds by interval arithmetic on the symbolic expressions; limits and the composition law by substitution in the value numbers. " + TRUST)

prop("C13", "A cloud fills between none and all of a pixel, monotonically",
     "The fraction of a pixel filled by a charge cloud lies between 0 and 1, never decreases when electrons are added, is 0 at or below the notch (or the bloom level for surface traps) and reaches 1 at the full well depth.",
     ["inputs", "configurations"], "every number of electrons, notch, full well, fill power and bloom level, for bulk and surface traps", "Tests sample a few electron counts at default settings.",
     ["ccd.py"], [("well filling functions", "arcticpy/ccd.py")],
     "interval and monotonicity analysis: " + AI, "Bounds by intervals, monotonicity by structural sign analysis of the expression, limits by substitution. " + TRUST)

prop("C14", "Results do not depend on the unit of time",
     "Scaling every dwell time and every trap time scale by a common factor leaves all occupations and pixel values unchanged: times only enter through ratios or products with rates.",
     ["inputs", "configurations"], "every clock sequence and trap species", "No test rescales the time unit.",
     ["trap_managers.py", "traps.py", "roe.py", "main_utils.pyx"], [("release and capture probabilities", "arcticpy/trap_managers.py, arcticpy/traps.py")],
     "dimensional (units) analysis: " + AI, "Every sum, comparison, min/max and transcendental argument is checked for dimensional consistency in time. " + TRUST)

prop("C15", "Results scale with the unit of charge",
     "Scaling image, trap densities, well depth, notch and bloom level by a common factor scales the result by the same factor: no absolute number of electrons is built in.",
     ["inputs", "configurations"], "every image, CCD and trap set", "No test rescales the unit of charge.",
     ["trap_managers.py", "trap_managers_utils.pyx", "ccd.py", "main_utils.pyx"], [("filling and population arithmetic", "arcticpy/ccd.py, arcticpy/trap_managers.py")],
     "dimensional (units) analysis: " + AI, "Every sum, comparison, min/max is checked for dimensional consistency in charge. " + TRUST)

prop("C16", "Columns and express passes start from the right trap state",
     "Traps carry over from one column to the next only if the clock sequence says so, and each column's result then does not depend on other columns; each express pass starts from the state saved by the previous one, and a saved state is a true snapshot that later steps cannot alter.",
     ["histories", "configurations"], "every image, express setting and clock sequence", "Tests mostly use single columns or one express pass, where a leaked or aliased state does not show.",
     ["main_utils.pyx", "trap_managers.py", "roe.py"], [("reset between columns", "arcticpy/main_utils.pyx"), ("save and restore", "arcticpy/trap_managers.py: AllTrapManager")],
     "path and alias analysis: " + AI, "On every path into a column the state is emptied when requested, restore precedes each pass, and the snapshot shares no storage with the live state. " + TRUST)

prop("C17", "Traps are simulated by the model of their type, shared over phases",
     "Each trap species is handled by the model of its kind (gradual capture, instant capture, distribution of release times), no species is dropped or handled twice, and each phase of a pixel holds the phase's share of every species, so that the shares add up to the given density.",
     ["configurations", "inputs"], "every grouping of species whose states are stored alike (as the documentation requires), number of phases and phase shares", "Tests use one group of one kind, mostly in a single phase.",
     ["trap_managers.py"], [("manager choice and density shares", "arcticpy/trap_managers.py: AllTrapManager")],
     "type-dispatch and symbolic heap analysis: " + AI, "For each kind of species the manager class is resolved and the density in each phase's manager is compared with share x density. " + TRUST)

prop("C18", "A time window selects what is recorded, not what happens to the traps",
     "Restricting the transfers that are recorded changes neither which transfers the traps experience nor when their state is saved or emptied; it only zeroes the recorded effect of the other transfers.",
     ["configurations", "inputs"], "every time window, express setting and offset", "One time-window partition is tested at one express setting.",
     ["roe.py", "main_utils.pyx"], [("monitoring and saving matrices", "arcticpy/roe.py"), ("recording", "arcticpy/main_utils.pyx")],
     "information-flow (taint) analysis: " + AI, "No data or control dependence from the time window to the trap state except through an always-monitored superset. " + TRUST)

prop("C19", "Invalid configurations are rejected",
     "Inconsistent arguments are reported as errors rather than silently giving a wrong image: trap densities that do not match the species, per-phase CCD parameters of the wrong length, a clock sequence whose phases do not match those of the CCD, dates before launch, express matrices of an unsupported type, trap pumping with an odd number of steps. Valid arguments of these kinds are accepted.",
     ["inputs", "configurations"], "every invalid configuration of the listed kinds", "Only a couple of invalid inputs are tested.",
     ["main.py", "main_utils.pyx", "roe.py", "ccd.py", "trap_managers.py"], [("validation", "arcticpy/main.py, arcticpy/main_utils.pyx, arcticpy/roe.py, arcticpy/ccd.py, arcticpy/trap_managers.py")],
     "reachability analysis: " + AI, "Under the assumption that the configuration is invalid, no normal return is reachable. " + TRUST)

prop("C20", "No input reaches an undefined name, attribute or wrong call",
     "No combination of options leads to a reference to an undefined variable or attribute, a call with the wrong arguments, or an index of the wrong kind; such failures would depend on rarely used option combinations.",
     ["programs", "configurations"], "every function and option combination of the package", "Python binds names at run time; tests execute only some of the paths.",
     ["main.py", "main_utils.pyx", "roe.py", "ccd.py", "traps.py", "trap_managers.py", "util.py"], [("every name, attribute and call", "whole package")],
     "whole-program name, attribute and arity resolution: " + AI, "Every name load is definitely assigned, every attribute of known objects exists, every resolved call binds. " + TRUST)

prop("C21", "The HST/ACS preset follows its published model at every date",
     "For every date from launch on, the preset has three instant-capture species whose densities grow linearly with time from launch in the calibration of the date's era (before the cooling, before the repair, after it) and keep the published proportions, whose release times are those published for the operating temperature of the era, and a single-phase CCD and clock sequence with the published well depth, filling power and dwell time.",
     ["inputs"], "every Julian date", "Tests sample a few dates.",
     ["main.py"], [("preset", "arcticpy/main.py: model_for_HST_ACS")],
     "symbolic evaluation with a case split on the date: " + AI, "The returned densities and times are compared, per era, with the published formulas as value numbers. " + TRUST)

prop("C22", "Clock sequences route every electron, and count every transfer once",
     "At every step of a clock sequence the charge is held under exactly one phase and captured from the cloud that is there; what a phase releases goes to the nearest clouds (one further from readout where that is forced), in non-negative equal shares that sum to one, and only to pixels known to be accessed. "
     "Over the express passes every transfer of each pixel is counted exactly once: multiplicities are never negative, add up to the pixel's number of transfers (pumps), are whole when whole numbers are asked for, and the first transfer through empty traps counts once only.",
     ["configurations", "inputs"], "every number of steps and phases, options of the clock sequence, image height, offset, number of transfers or pumps, and express setting",
     "Tests spell out the tables for a few step counts and express matrices for a few sizes.",
     ["roe.py"], [("clock sequence generation", "arcticpy/roe.py: _generate_clock_sequence"), ("express matrices", "arcticpy/roe.py: express_matrix_and_monitor_traps_matrix_from_pixels_and_express")],
     "abstract interpretation of the table construction with constant folding over enumerated sizes, against geometric and counting invariants",
     "The tables that the source builds are derived for every size up to the bound stated in DESIGN.md (9 phases, 5 rows, 12 pumps; more with --thorough) and compared with invariants written independently of the code; larger sizes are not covered. " + TRUST)

prop("C23", "Compiled code never reads or writes outside its arrays",
     "No input makes the compiled kernels, which run without bounds checks, access memory outside an array, use memory after it was released, or fail to release what they allocated.",
     ["inputs", "configurations"], "every image shape, window, trap state and species count", "Out-of-bounds accesses mostly go unnoticed in tests.",
     ["main_utils.pyx", "trap_managers_utils.pyx"], [("index computations", "arcticpy/main_utils.pyx, arcticpy/trap_managers_utils.pyx"), ("allocation of row buffers", "arcticpy/main_utils.pyx")],
     "abstract interpretation with constant folding over enumerated sizes for every index of compiled code; case analysis over the comparisons an index depends on; allocation typestate over the control flow", "Kernel: every index on images of up to 4 (thorough: 8) rows, all clock sequences, windows, offsets and express settings is a constant inside its extent. Managers' helpers: every level index, for states of up to 6 levels, and in every step of the managers. Each allocation is released once on every way out. " + TRUST)

prop("C24", "Occupation and elapsed time convert into each other consistently",
     "Converting an occupation to an elapsed time and back gives the same occupation for every species, the electrons released over a dwell equal the drop in occupation over that dwell, and the state conversions used for release-time distributions leave volumes untouched.",
     ["inputs"], "every occupation in (0,1], elapsed time and time scale", "Tests check a few values for one species.",
     ["traps.py", "trap_managers.py"], [("conversions", "arcticpy/traps.py"), ("state conversions", "arcticpy/trap_managers.py: TrapManagerTrackTime")],
     "value-number identities (inverse and difference), refuted only by a counterexample on the value number: " + AI, "Compositions of the conversion functions reduce to the identity as value numbers. " + TRUST)

prop("C25", "Time windows share out the readout; without one all of it is recorded",
     "A time window records of each pixel exactly those transfers that fall inside it, so that windows which follow one another add up to the whole readout for every pixel and express pass; when no window is given, every transfer is recorded, however many the clock sequence involves.",
     ["configurations", "histories"], "every partition of the readout into windows, image height, offset, number of transfers and express setting",
     "One partition is tested at one express setting, with a tolerance.",
     ["roe.py", "main.py"], [("restriction of the express matrix", "arcticpy/roe.py: restrict_time_span_of_express_matrix"), ("default window", "arcticpy/main.py: add_cti")],
     "abstract interpretation with constant folding over enumerated sizes and windows; symbolic argument tracking for the default",
     "Recorded multiplicities are derived for every size up to the bound stated in DESIGN.md and compared with those of the whole readout; the default window is followed symbolically from add_cti to the clocking kernel. " + TRUST)

prop("C26", "A transfer releases and captures by the model, wherever the cloud ends",
     "In one transfer, traps above the charge cloud only release, by the exponential law of their time scale (or age by the dwell time, where elapsed times are tracked); traps within it reach the occupation the rates of release and capture give, or are filled at once for instant capture; the cloud is as large as the free electrons and those released into it make it; and when there are fewer electrons than the traps would take, exactly those there are get trapped.",
     ["inputs", "histories"], "every occupation of the levels, density, time scale and dwell time (value numbers), for states of up to 3 (thorough: 5) levels and every position of the cloud among them",
     "Tests compare a few states of one or two levels with numbers worked out by hand; a mistake at one position of the cloud among the levels, or for a second species, goes unnoticed.",
     ["trap_managers.py", "trap_managers_utils.pyx"], [("gradual capture", "arcticpy/trap_managers.py: TrapManager"), ("instant capture", "arcticpy/trap_managers.py: TrapManagerInstantCapture"), ("elapsed times", "arcticpy/trap_managers.py: TrapManagerTrackTime")],
     "abstract interpretation of one transfer on states of a few levels with symbolic occupations, densities, time scales and dwell; the occupation at every point of the pixel volume is compared, as a value number, with the model's",
     "What is compared is the occupation as a function of the volume, so the number and order of levels used to represent it do not matter; conditions that depend on symbols are decided by their value under sampled valuations that agree with the path, or left open. " + TRUST)

prop("C27", "Species drawn from a distribution follow the distribution asked for",
     "The lifetimes of a log-normal species follow, for every lifetime, median and width, the normalised log-normal density of that median and width. A Poisson realisation of a set of species has one species of each kind per column, with that kind's release time and a density that is a count of whole traps in the column divided by the rows, whose mean is the kind's density, each drawn on its own.",
     ["inputs", "configurations"], "every lifetime, density, release time and number of rows (value numbers), for up to 2 (thorough: 4) species and columns; the density of lifetimes is told apart from the closed form at 8 points",
     "Tests check a handful of seeded draws for being near the expected mean; a wrong width, normalisation or scale with the shape of the image stays inside their tolerances or outside their cases.",
     ["traps.py"], [("log-normal lifetimes", "arcticpy/traps.py: TrapLogNormalLifetimeContinuum.log_normal_distribution"), ("Poisson densities", "arcticpy/traps.py: Trap.poisson_trap")],
     "abstract interpretation of the constructors of species with symbolic parameters; draws are atoms holding their mean, so the mean and step of each density are read off its value number; the lifetime density is compared with the closed form",
     "Draws of unmodelled form (e.g. all columns in one array) are undecided. The quality of numpy's generator is outside.")

NA = [
    ("C30", "Express approximations agree with full computation",
     "Computing only some transfers and multiplying their effect gives an image close to computing each transfer, and exactly the same total number of transfers is represented.",
     "Agreement is numerical closeness of iterated non-linear maps; the total over passes is a statement about sums of clipped cumulative matrices for every image size that needs induction on runtime extents outside the reach of the analyser.",
     ["roe.py"], ["inputs", "configurations"]),
    ("C31", "Removal recovers the image",
     "After enough iterations the corrected image converges to the image before trailing.",
     "Convergence of a non-linear fixed-point iteration is a numerical-analysis statement about run-time values, not decidable from the source by dataflow.",
     ["main.py"], ["inputs"]),
    ("C32", "Total charge is conserved up to what remains in traps",
     "The sum of the image plus the charge left in the traps is unchanged by adding trails, for clock sequences without express multiplicity.",
     "The per-step halves are decided (C03, C04); the end-to-end sum depends on run-time clamps at zero, multiplicities and charge carried out of the image, for which no static bound is in reach.",
     ["main_utils.pyx", "trap_managers.py"], ["inputs", "histories"]),
    ("C33", "Distributions of release times equal mixtures of many species",
     "A continuum of release times gives the same trails as many species sampling the distribution.",
     "Equality holds only in a numerical limit (quadrature and root finding at run time).",
     ["traps.py", "trap_managers.py"], ["inputs"]),
    ("C34", "Consecutive time windows add up to the whole readout",
     "Recording disjoint time windows one after another on the successive images gives the image of the full readout.",
     "The sum over windows is a relation between several executions on different images, through the non-linear traps; that the windows share out the transfers (C25) and do not affect the traps (C18) is decided, the sum of images is not.",
     ["roe.py", "main_utils.pyx"], ["histories", "configurations"]),
    ("C35", "Results reproduce the previous implementation",
     "Images agree with those of the earlier ArCTIC implementation within tolerance.",
     "A comparison of numbers with an external program; nothing in the source decides it.",
     ["main.py"], ["inputs"]),
]


def main():
    checks, na = [], []
    lines = []
    for p in P:
        t, n, a = p.pop("_technique"), p.pop("_note"), p.pop("_na")
        lines.append(p)
        rule = os.path.join(ROOT, "sa", "rules", p["id"].lower() + ".py")
        if os.path.exists(rule):
            c = "python3-vt sa/run.py %s" % p["id"]
            checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c + " --thorough", "technique": t, "level": "proof" if p["id"] not in OTHER else "other", "level_note": n})
        else:
            na.append({"property": p["id"], "reason": a or "no check has been built for it yet"})
    for id, title, st, why, files, over in NA:
        lines.append(dict(id=id, title=title, statement=st, quantifier={"over": over, "text": "every input"}, why_tests_cant="Tests sample a few images and settings.",
                          anchors={"files": ["arcticpy/" + f for f in files], "mechanism": [{"name": "numerical behaviour", "where": "arcticpy/" + files[0]}]}))
        na.append({"property": id, "reason": why})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in lines:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


OTHER = {"C22", "C23", "C25"}
if __name__ == "__main__":
    main()
