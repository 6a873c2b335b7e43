"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
CAL="src/rascal/calibrator.py"; HT="src/rascal/houghtransform.py"; AT="src/rascal/atlas.py"
UT="src/rascal/util.py"; MO="src/rascal/models.py"; PL="src/rascal/plotting.py"; SY="src/rascal/synthetic.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","A calibration result is a one-to-one match of real peaks to real lines",
 "Whatever is drawn during the random search and whichever solver calls fail along the way, a fit either reports that it found nothing (an error) or returns distinct supplied peaks matched one-to-one with distinct lines of the atlas as it stands at that call, in number greater than the polynomial degree and meeting every acceptance limit in force (minimum number of matches, minimum peak utilisation, minimum fit error). "
 "The returned coefficients, residuals, rms and the two utilisation fractions all describe exactly those pairs (residual magnitudes capped at the inlier tolerance), no returned pair being further than the inlier tolerance from the polynomial of a sample that was drawn, which rises from peak to peak and starts within the range configured, and the solution the calibrator stores is the one it returned.",
 ["schedules","inputs","histories","fault_sequences"],
 "every sequence of random draws (fair, biased and hostile), every placement of transient linear-algebra failures in the solvers, every world (peaks, atlas, missing lines, decoys, ambiguous lines, settings, polynomial basis) and every earlier history of atlas edits and fits on the same calibrator",
 "The tests run a handful of worlds with fixed seeds and no solver failure, and compare a few coefficients loosely; which samples the search visits, in which order it accepts candidates, and what an earlier fit left behind are never varied.",
 [CAL,MO],[("RANSAC candidate search and acceptance","src/rascal/calibrator.py _solve_candidate_ransac"),("one-to-one matching","src/rascal/calibrator.py _match_bijective"),("result assembly","src/rascal/calibrator.py fit"),("robust refit","src/rascal/models.py robust_polyfit")],
 [("solution","matched peaks and lines, coefficients, rms, residuals, utilisations","Calibrator attributes")],["value returned by Calibrator.fit","public solution attributes"])
p("C02","The correct solution is never lost once the search has drawn it",
 "In a world in which every peak has an exact true line inside the configured ranges and no wrong polynomial within those ranges fits equally well (the minimum number of matches being set above degree + 1, so that overfits do not count), if any one sample drawn during the search consists of true peak-line pairs only, the fit returns the true pairs for every peak and the true polynomial. "
 "This does not depend on what else is drawn, before or after the winning sample, nor on a starting solution. With measurement errors and every peak required to be matched, a drawn sample of true pairs whose polynomial meets every acceptance condition likewise makes the fit succeed.",
 ["schedules","inputs"],
 "every order and content of the other draws (hostile decoys before and after, near-misses, rejected samples, exhausted samples) around one all-true draw at any position, over all noise-free worlds of the generator",
 "A test can only sample seeds and hope; a search that forgets, overwrites or refuses the winning sample still succeeds on most seeds because the winner is drawn again.",
 [CAL],[("best-so-far comparison and early exit","src/rascal/calibrator.py _solve_candidate_ransac"),("inlier scoring","src/rascal/calibrator.py _match_bijective")],None,["value returned by Calibrator.fit"])
p("C03","Every fit finishes within bounded work",
 "For every configuration accepted by the setters and whatever is drawn, a fit ends - with a solution or with an error - after a number of random draws and solver calls bounded by the requested number of tries (or of candidate combinations, where a sample needs all candidate peaks), never looping on samples that keep being rejected. "
 "Exhaustive (brute force) search ends after visiting each combination once, and a fit whose solvers fail persistently still ends.",
 ["schedules","inputs","configurations","fault_sequences"],
 "all draw sequences, including ones that draw only rejected samples for ever; all reasons for rejection (intercept, monotonicity, too few inliers, solver failure, acceptance limits); random and exhaustive search; persistent solver failure",
 "A livelock needs a world and a setting in which every further draw is rejected; the tests use worlds in which a good sample is always likely, and would hang rather than fail.",
 [CAL],[("retry loop around each sample","src/rascal/calibrator.py _solve_candidate_ransac")],None,["number of draws at the random seam"])
p("C04","A seeded calibration is exactly reproducible",
 "Two calibrators given the same data, settings, seed and sequence of calls produce bit-identical results, regardless of wall clock, progress display, log level, hash randomisation, process, and of whatever other calibrators, plots or saves the process performed before the seed was set. "
 "The library takes randomness only from the seeded generator, reseeds it only when given a seed, and consumes none of it outside fitting.",
 ["schedules","histories","configurations"],
 "all seeds, clocks (frozen, jumping, running backwards), progress/log settings, hash seeds, preceding histories in the process and operations interleaved between seeding and fitting",
 "The tests fix a seed once and check loosely; none compares two executions bit for bit under a different clock, hash seed or process history.",
 [CAL,HT,AT,PL],[("seed argument","src/rascal/calibrator.py set_calibrator_properties"),("all draws from the global generator","src/rascal/calibrator.py _solve_candidate_ransac")],None,["returned values, bit for bit","calls at the random seam"])
p("C05","Calibrators working concurrently do not disturb each other",
 "Calibrators, atlases and Hough transforms used by different threads - sharing at most the same read-only atlas and input arrays - produce, under every interleaving and given the same random stream, exactly the results each would produce alone. "
 "No operation on one object changes the state of another.",
 ["schedules"],
 "all line-level interleavings of two to four threads running configuration, Hough transforms, fits, refinements, atlas loads, saves and loads to separate files, and figure-free queries",
 "No test uses more than one calibrator at a time; module-level or class-level shared state, caches and aliased arguments only show when two operations overlap.",
 [CAL,HT,AT,UT],[("per-instance state and defensive copies","src/rascal/calibrator.py __init__"),("no module-level caches","src/rascal/util.py load_calibration_lines")],None,["results of each task against its solo run"])
p("C06","An interrupted operation can simply be issued again",
 "If configuring, attaching an atlas, transforming, fitting, refining, refitting, extending a transform, saving or loading is cut short at any instant by an interrupt or by a failing solver, issuing the same call again (with the same random stream) on the same object gives exactly what an uninterrupted call would have given. "
 "Completing the same call twice with the same inputs likewise gives the same answer as once.",
 ["crash_points","histories"],
 "every executed line of the operation as the interruption point, one to three successive interruptions, every operation kind, over generated worlds",
 "Tests only run operations to completion once; half-updated settings, permanently shrunk limits or stale intermediate results appear only after a call was cut short or repeated.",
 [CAL,HT,AT],[("all working settings derived inside the call","src/rascal/calibrator.py fit"),("assignment of results after the work is done","src/rascal/houghtransform.py generate_hough_points")],None,["value returned by the re-issued call, public state after it"])
p("C07","A failed refinement leaves the previous solution untouched",
 "If a new fit, a peak-matching refinement, a manual refit or a pair edit on a calibrator that already holds a solution fails or is interrupted, the calibrator still holds the previous solution - pairs, coefficients, rms, residuals, utilisations and the basis they belong to - complete and unmixed. "
 "That solution can still be queried, edited, refined, refitted and used.",
 ["crash_points","fault_sequences","histories"],
 "every executed line as interruption point, every solver call as failure point (linear algebra, non-finite values, optimiser failure), failures because no solution exists, after any history of earlier successful operations",
 "The tests never look at a calibrator after an operation on it failed.",
 [CAL],[("update of the stored solution only on success","src/rascal/calibrator.py fit, match_peaks, manual_refit, add_pix_wave_pair, remove_pix_wave_pair")],[("solution","pairs, coefficients, degree, basis, rms, residuals, utilisations","Calibrator attributes")],["public solution attributes after the failure"])
p("C08","A saved Hough transform is complete or absent, and never replaced by garbage",
 "A transform saved in either format reads back exactly - points, histogram, edges, limits and the ranked lines that follow from them; if saving fails or the process dies at any point, each target file is afterwards either the previous complete version, or the new complete version, or (only if there was none) absent, a concurrent reader never seeing anything else, and a save that returned normally is what a later load finds. "
 "A load that fails because of I/O errors or a damaged file says so by an error and leaves the object as it was, short reads are harmless, and asking for the in-memory form touches no file.",
 ["crash_points","fault_sequences","schedules","histories"],
 "every disk operation of save and load as crash or error point (I/O error, full disk, short and torn writes, short reads, missing file, permission), every truncation of the stored file, readers interleaved with writers, both formats, histories of saves and loads",
 "The tests save and load once on a healthy disk and check little of what was read back.",
 [HT,CAL],[("serialisation","src/rascal/houghtransform.py save"),("deserialisation","src/rascal/houghtransform.py load")],[("file","stored transform (npy or json)","disk")],["files on the simulated disk, state of the loading object"])
p("C09","Calibration resumed from a saved transform continues as if never interrupted",
 "A calibrator with the same peaks, atlas and fit settings that loads a transform saved by another calibrator in either format - with any number of restarts, retries after I/O errors, or different transform-resolution settings in between - produces exactly the fit the original calibrator would have produced from the same random stream. "
 "A failed load changes nothing about what the calibrator would have produced before it.",
 ["crash_points","fault_sequences","histories"],
 "process death and restart between transform, save, load and fit; failed and retried saves and loads; both formats; loading calibrators already holding another transform",
 "The tests load a saved transform but never compare the resulting fit with the one from the original object.",
 [CAL,HT],[("loading into a calibrator","src/rascal/calibrator.py load_hough_transform"),("reuse of the transform","src/rascal/calibrator.py fit")],None,["value returned by Calibrator.fit"])
p("C10","An atlas holds exactly the lines its history of edits implies",
 "After any history of adding elements, adding user lines, removing wavelength ranges and clearing, the atlas contains exactly the lines that history implies - each added line once with its element, wavelength and intensity in the order added, no line within a removed range, nothing lost or duplicated - and all its queries agree with each other. "
 "An addition that fails while reading the line list, or is interrupted, adds none of its lines (so it can be retried), short reads are harmless, and no edit changes any other atlas or any caller's list.",
 ["histories","fault_sequences","crash_points"],
 "all bounded histories of edits over real and custom line lists, with read errors, missing files and short reads at any read of the line list, interruption at any line, and retries",
 "Tests call each edit once or twice on a healthy file system and check lengths only.",
 [AT,UT],[("line store","src/rascal/atlas.py add, add_user_atlas, remove_atlas_lines_range, clear"),("line list reading","src/rascal/util.py load_calibration_lines")],[("atlas_lines","ordered list of lines","Atlas")],["get_lines, get_elements, get_intensities, len"])
p("C11","Plotting only observes, and a figure save is never silently lost",
 "Producing any plot - displayed, saved or returned as JSON, with either plotting library, and even if saving fails or is interrupted part-way - leaves the calibrator, its atlas and the caller's arrays bit-identical, so that any later fit, refinement or plot gives what it would have given without the plot. "
 "A plot call that is asked to save and returns normally has written every requested file completely, and one that cannot write raises an error.",
 ["histories","fault_sequences","crash_points"],
 "all plot kinds, options and file types, at any point of a calibration history, with disk errors, full disk, short writes and process interruption at any disk operation of the save",
 "Tests draw plots once and check that nothing is raised; state before and after is never compared and no save ever fails.",
 [PL,CAL],[("plot functions working on copies","src/rascal/plotting.py plot_fit, plot_arc, plot_search_space"),("saving","src/rascal/plotting.py savefig / write_html calls")],None,["calibrator state digest before and after, bytes on the simulated disk"])
p("C12","Data handed in by the caller is never modified",
 "Arrays, lists and atlases that a caller passes to any operation - peaks, spectrum, pixel list, atlas and user lines, starting coefficients, known pairs, pair lists, points - and results it was previously handed are never modified by that or any later operation, whether it succeeds, fails or is interrupted. "
 "Nor does the caller changing an array or list it passed in (peaks, spectrum, pixel list, known pairs, user lines, pair lists) affect the calibrator afterwards.",
 ["histories","fault_sequences","crash_points"],
 "all operation histories over one calibrator with caller-held arrays of every accepted type (list, float and integer arrays, read-only arrays), with solver failures and interruptions at any line",
 "Tests build fresh inputs for each call and never look at them again.",
 [CAL,MO,UT,PL,HT,AT],[("defensive copies","src/rascal/calibrator.py __init__, manual_refit; src/rascal/models.py robust_polyfit"),("copies before in-place arithmetic","src/rascal/util.py refine_peaks; src/rascal/plotting.py")],None,["digests of every caller-held object"])
p("C13","A peak that cannot be refined never harms the other peaks",
 "Refining a list of peaks gives, for every peak whose own Gaussian fit works, the position of that Gaussian in the spectrum, determined only by the usable pixels around it (at the edges, next to missing data, and for whole-number counts too) - the same whichever other peaks are in the list and whether their fits fail, give unusable values, or have no or too little usable data. "
 "A failing fit drops that peak alone, and the surviving peaks keep their order.",
 ["fault_sequences","inputs"],
 "every subset of fits failing to converge or returning unusable values, over spectra with isolated, overlapping, edge, saturated and missing-data peaks and every sub-list of peaks",
 "Tests refine one fixed synthetic spectrum in which every fit converges and windows do not overlap.",
 [UT],[("per-peak fit with its own error handling","src/rascal/util.py refine_peaks")],None,["returned refined positions, calls at the curve-fit seam"])
p("C14","Editing matched pairs behaves like editing an ordered set of pairs",
 "After any history of adding, removing, listing and refitting matched pairs on a fitted calibrator, with refits that fail or are retried, the pairs held are exactly those implied by the successful edits, each peak still attached to its own wavelength and in pixel order when they started in order. "
 "Every successful refit returns a solution for exactly those pairs, with rms and residuals that describe the returned coefficients - the polynomial itself, when the pairs lie on one of that degree - and every listed position removes precisely the pair listed there.",
 ["histories","fault_sequences"],
 "all bounded histories of edits (positions at both ends and in the middle, pixels equal to, between and outside existing ones, list and array storage) and refits with solver failures and interruptions",
 "Tests add and remove one pair once and check only that nothing is raised.",
 [CAL],[("pair editing","src/rascal/calibrator.py add_pix_wave_pair, remove_pix_wave_pair, get_pix_wave_pairs"),("refit","src/rascal/calibrator.py manual_refit")],None,["get_pix_wave_pairs, value returned by manual_refit"])
p("C15","Known pairs take part in every hypothesis",
 "When the user has supplied known pixel-wavelength pairs, every trial polynomial evaluated during a fit is fitted to all of the known pairs in addition to the drawn sample, for every draw, in random and exhaustive search, and after earlier fits, failures or interruptions; the most recently supplied pairs are the ones used and replacing them with none removes their influence. "
 "An invalid set of known pairs is refused and leaves the previous one in force.",
 ["schedules","histories","fault_sequences"],
 "all draw sequences, all histories of setting, replacing, wrongly setting and clearing known pairs around fits, with transient solver failures",
 "Tests check that known pairs are accepted, not that each hypothesis of a search used them.",
 [CAL],[("known pairs appended to each sample","src/rascal/calibrator.py _solve_candidate_ransac"),("validation","src/rascal/calibrator.py set_known_pairs")],None,["points passed to the least-squares polynomial seam"])
p("C16","The Hough accumulator accounts for every point exactly once",
 "After any history of generating, extending, binning, saving, loading and interrupted or failed versions of these, every generated Hough point satisfies the slope and intercept limits in force when it was generated and lies on the line of one of its peak-line pairs, extension appends the other transform's points unchanged, and the histogram counts each point in the bin that contains it, exactly once. "
 "The ranked lines are the centres of all bins, each once, in non-increasing order of their counts.",
 ["histories","fault_sequences","crash_points"],
 "all bounded histories of transform operations over generated pairs and limits, two generation methods, extension by array or by transform, re-binning at other resolutions, disk errors and interruption at any line",
 "The tests run one transform and check shapes; none extends, re-bins, reloads and re-checks the contents.",
 [HT],[("point generation and limits","src/rascal/houghtransform.py generate_hough_points, generate_hough_points_brute_force"),("binning and ranking","src/rascal/houghtransform.py bin_hough_points"),("extension","src/rascal/houghtransform.py add_hough_points")],None,["public attributes of the transform against an executable model"])
p("C17","Refining against the whole atlas returns one consistent solution",
 "When each peak has at most one atlas line within the tolerance of the incoming solution, robustly refining that solution matches exactly the peaks that have such a line, each to that line, and the returned coefficients, residuals, rms and utilisation fractions describe exactly those pairs and are what the calibrator then stores. "
 "This holds after any history of fits, atlas edits, pair edits and failed or interrupted refinements on the same calibrator.",
 ["histories","fault_sequences","inputs"],
 "all histories of earlier operations and failures, all tolerances and degrees with unambiguous matches, given or stored starting solution",
 "Tests call the refinement once straight after a fit and check only that it returns.",
 [CAL,MO],[("matching within tolerance","src/rascal/calibrator.py match_peaks"),("robust refit","src/rascal/models.py robust_polyfit")],None,["value returned by match_peaks"])
p("C18","The last value given for each setting counts, whatever the order of the calls",
 "A calibrator configured by any history of setting calls - in any order, repeated, with settings left out, re-attached or re-edited atlases, refused values and interrupted calls that are issued again - produces the same transform and the same fit, and plots with the same library, as a fresh calibrator given the final value of every setting directly (the documented default for one never given). "
 "A refused value leaves every setting as it was.",
 ["histories","crash_points","configurations"],
 "all bounded histories of calls to the configuration methods before the transform, in all orders, with omitted arguments, refused values and interruption at any line followed by re-issue",
 "The tests configure in one fixed order.",
 [CAL],[("sticky settings","src/rascal/calibrator.py set_calibrator_properties, set_hough_properties, set_ransac_properties, set_atlas")],None,["transform and fit results against a freshly configured calibrator"])
p("C21","A synthetic spectrum answers for the model and limits last set",
 "After any history of setting models and wavelength limits - with values left out or refused, calls interrupted and issued again, inversions that fail, and callers changing the lists they passed in - a synthetic spectrum generator returns exactly the wavelengths inside the limits in force, in the order given, each with a pixel position that the (monotonic) polynomial last set maps back to it. Each generator does so independently of any other, and a refused value leaves model and limits as they were.",
 ["histories","crash_points"],"all histories of models (constant, linear, higher order, monotonic), limits and queries, with refused values, interruption at any line and failing inversions","Tests switch once between two models of high order.",[SY,MO],[("model","src/rascal/synthetic.py set_model"),("limits","src/rascal/synthetic.py set_wavelength_limit"),("inversion","src/rascal/synthetic.py get_pixels")],None,["values returned by get_pixels"])
# --- not applicable
p("C19","Air/vacuum conversion is a correct, invertible refraction correction",
 "Converting wavelengths from vacuum to air and back under the same conditions returns the original within the accuracy of the dispersion formula, and the conversion is monotonic.",
 ["inputs"],"all wavelengths and atmospheric conditions","Tests check a few wavelengths.",[UT],[("Edlen formula","src/rascal/util.py vacuum_to_air_wavelength, air_to_vacuum_wavelength")])
p("C20","Line-list filters keep exactly the lines the user asked for",
 "Given a line list, the wavelength, intensity and separation filters keep exactly the lines inside the range, at least as bright as the limit and at least the minimum distance from every other kept or neighbouring line.",
 ["inputs"],"all line lists and limits","Tests check counts for a few settings.",[UT],[("filters","src/rascal/util.py filter_wavelengths, filter_intensity, filter_separation")])
p("C22","The robust polynomial fit recovers polynomials despite outliers",
 "On data from a polynomial with a minority of gross outliers the robust fit returns that polynomial to within the noise.",
 ["inputs"],"all well-conditioned data sets","Tests check one clean data set.",[MO],[("Huber least squares","src/rascal/models.py robust_polyfit")])
p("C23","Candidate ranking prefers the line nearest the Hough lines",
 "For each peak the candidate lines kept for sampling are those with the greatest total weight over the Hough lines.",
 ["inputs"],"all candidate sets","Tests check one small example.",[CAL],[("ranking","src/rascal/calibrator.py _get_most_common_candidates")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
