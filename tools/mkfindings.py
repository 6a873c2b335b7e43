"""Writes the fixed entries of /verif/known_findings.json (known ones are kept)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(ROOT, "known_findings.json")
FIXED = [
 # subject of the fix commit, property, what failed
 ("look up sampling probabilities in the bins that were counted", "C03", "a random search raised 'probabilities contain NaN' or looked up another bin's weight whenever a candidate peak lay on or beyond a histogram edge: peaks were digitized right-closed into bins numpy counts left-closed"),
 ("index brute force samples as one-dimensional arrays", "C03", "an exhaustive search (brute_force=True) raised TypeError on its first sample: samples were indexed into 2-D arrays"),
 ("bound the number of times a rejected sample is redrawn", "C03", "a search whose samples are all rejected (e.g. intercept out of range) never ended: the same peak sample was redrawn for ever"),
 ("do not overwrite the user's ransac properties while fitting", "C06", "a fit with few candidates lowered sample_size and minimum_matches for good, so a later fit of the same calibrator differed from that of a fresh one"),
 ("remove every atlas line in the range", "C10", "remove_atlas_lines_range skipped every other of several adjacent lines in the range (list changed while iterated)"),
 ("fit the lines that are in the atlas at the time of fitting", "C01", "after lines were removed from the attached atlas a fit still matched peaks to the removed lines"),
 ("keep the previous solution when a fit or a refinement fails", "C07", "a fit, refinement or refit that failed or was interrupted left a mixture of the old and new solution"),
 ("evaluate Legendre and Chebyshev solutions as what they are", "C01", "a legendre or chebyshev fit returned coefficients of one basis, evaluated in another: residuals and rms described another polynomial"),
 ("rank the unique candidate wavelengths that were counted", "C02", "with candidate weights the top candidates were indices into the unique wavelengths applied to the full list: true lines were dropped and a consistent solution was lost"),
 ("look up the Hough density at (gradient, intercept)", "C02", "the Hough density of a hypothesis was looked up with the axes swapped (and could be negative), so a worse hypothesis replaced the true one"),
 ("load a Hough transform completely or not at all", "C08", "loading a transform that failed half-way (missing second file, damaged content, interruption) left new points with old lines, edges or limits"),
 ("never leave a partly written Hough transform behind", "C08", "a save that was cut short (crash, full disk, disk error) destroyed the previous file or left one that loads as another transform"),
 ("use the Hough transform that was loaded or returned in memory", "C09", "a fit after load_hough_transform transformed again instead of using the loaded transform; a transform returned in memory could not be restored"),
 ("refuse to extend a Hough transform that does not exist", "C16", "extending a transform that was never generated stored a broken array"),
 ("keep the pairs together when an edit of them is interrupted", "C14", "an edit of the matched pairs interrupted between the two arrays left a pixel without its wavelength"),
 ("add a pair at its place in the order of the pixels", "C14", "add_pix_wave_pair put the pixel at a wrong place (argwhere of larger pixels, none for the last), detaching later pixels from their wavelengths in order"),
 ("accept a list as the initial coefficients of a robust fit", "C14", "manual_refit(x0=[...]) raised TypeError: list divided by number"),
 ("start a robust fit from the given coefficients, in their order", "C14", "a refit started from stored coefficients began at another polynomial (reversed order, other normalisation) and could end away from the exact solution"),
 ("add all lines to an atlas, or none", "C10", "adding lines to an atlas that failed half-way (bad line, interruption) left some of them in"),
 ("accept a single user line as documented", "C10", "adding one user line given as a scalar, or without intensities, raised"),
 ("do not modify the spectrum when plotting it in log space", "C11", "plot_fit(log_spectrum=True) overwrote the spectrum held by the calibrator and the one passed in"),
 ("refine_peaks normalises a copy of each window, of any number type", "C12", "refine_peaks divided the caller's spectrum in place (and raised for whole-number counts)"),
 ("a peak with too few usable pixels is dropped alone by refine_peaks", "C13", "one peak with too few usable pixels made the refinement of all peaks raise"),
 ("refined positions count from the start of the window that was fitted", "C13", "a peak near the left edge was refined to a position off by the cut-off part of its window"),
 ("start the Gaussian fit of a peak from its usable pixels only", "C13", "missing data (NaN) in the window of a peak made its start value NaN and the fit of a good peak fail"),
 ("keep copies of the pixel list and the known pairs of the caller", "C12", "changing the arrays passed as pixel list or known pairs afterwards changed the calibrator"),
 ("do not truncate a pixel added to integer peak positions", "C14", "a pair added to pairs with whole-number pixels had its pixel truncated"),
 ("known pixels and wavelengths are replaced together", "C15", "replacing the known pairs, interrupted between the two arrays, left the pixels of one set with the wavelengths of another"),
 ("leave the properties as they were when new ones are refused", "C18", "a refused value (minimum_matches=-1, a text as wavelength, no atlas) left the other settings of the same call applied, or a broken setting in force"),
 ("search the gradients of the pixel list that was set last", "C18", "a pixel list set after the Hough properties left the gradient limits of the earlier pixel list in force"),
 ("transform the lines that are in the atlas at the time", "C18", "do_hough_transform after an edit of the attached atlas transformed the lines from before the edit"),
 ("remember the plotting library that was chosen last", "C18", "set_calibrator_properties without a plotting library undid an earlier use_plotly() or use_matplotlib()"),
 ("a synthetic spectrum uses the model last set", "C21", "set_model([300.0, 2.0]) on a generator created with another model (or none) answered with the old coefficients or an AttributeError; changing the list given to it changed the model"),
 ("sample enough peaks for the degree of the given fit_coeff", "C02", "fit(fit_coeff=<cubic>, fit_deg=2) with sample_size=3 fitted cubics to three points; the true solution was lost when drawn"),
 ("a starting solution does not limit the solutions that are found", "C02", "fit(fit_coeff=...) with hough_weight=0 on measured lines: every hypothesis was dearer than the starting solution, Couldn't fit"),
 ("keep a line without neighbours, and accept elements without lines", "C10", "Atlas.add(['Hg', 'Ne'], min_distance=5) with an element that has no lines in the range raised IndexError and added nothing; an element with one line there lost it"),
]
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h fix: %s"], text=True).replace("fix: fix:", "fix:").splitlines())
old = json.load(open(P))["findings"]
out = [f for f in old if f.get("status") == "known"]
for s, prop, what in FIXED:
    h = log["fix: " + s]
    out.append({"property": prop, "status": "fixed", "commit": h, "entry": "fixed: property=%s %s %s" % (prop, h, what)})
assert len(FIXED) == sum(1 for k in log if k.startswith("fix:") and "fix: base" != k), (len(FIXED), len(log))
json.dump({"findings": out}, open(P, "w"), indent=1)
print(len(out))
