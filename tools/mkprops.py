"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))
SIM = "simcats/_simulation.py"
GEO = "simcats/ideal_csd/geometric/"
SUP = "simcats/support_functions/"
DIS = "simcats/distortions/"
SEN = "simcats/sensor/"

p("C01", "CSD measurements run exactly for the valid requests",
  "A charge-stability measurement is accepted exactly when an ideal-CSD configuration is set, both plunger sweep ranges have two values that lie inside the configured plunger limits (ends included, either order), the sensor gate voltages are given both or not at all and any that is given lies inside its configured limits, and the resolution is an int or has at most two entries, two entries being allowed only if both gates are really swept and both entries exceed one. "
  "Any other request raises ValueError before the ideal CSD, the sensor or any distortion is evaluated. "
  "Unset limits and omitted sensor voltages never cause a rejection or any other exception.",
  ["inputs", "configurations"], "every combination of limits (set or None), sweep ranges of any order and sign, sensor voltages (given or None) and resolutions (int, one, two or more entries)",
  "The tests try a few dozen concrete voltages and resolutions; the accept/reject boundary is a predicate over reals and over which of the limits are set.",
  [SIM], [("request validation", "Simulation.measure")], ["return or exception of Simulation.measure", "calls reaching the ideal CSD / sensor / distortions"])

p("C02", "Sensor scans run exactly for the valid requests",
  "A sensor scan is accepted exactly when the sensor supports sensor scans, both sensor sweep ranges have two values inside the configured sensor limits (ends included, either order), the plunger voltages are given both or not at all and any that is given lies inside its configured limits, and the resolution is an int or has at most two entries, two entries being allowed only if both sensor gates are really swept and both entries exceed one. "
  "Any other request raises ValueError before the ideal CSD, the sensor or any distortion is evaluated. "
  "Integer and one-entry resolutions work with and without an ideal CSD and with and without plunger voltages.",
  ["inputs", "configurations"], "every combination of limits, sensor sweep ranges, plunger voltages (given or None), resolutions, with and without ideal CSD",
  "The tests cover a handful of scans at fixed voltages; the boundary is a predicate over reals and optional settings.",
  [SIM], [("request validation", "Simulation.measure_sensor_scan")], ["return or exception of Simulation.measure_sensor_scan"])

p("C03", "A CSD measurement composes its stages in order, each exactly once",
  "The measured CSD equals the response distortions applied in list order to the sensor response of the sensor potential, distorted in list order (each potential channel separately if there are several), of the occupations after all occupation distortions in list order, every stage being called exactly once per array on the requested sweep ranges. "
  "The returned occupations and lead transitions are the ones after the occupation distortions. "
  "Each occupation distortion is handed a CSD generator that evaluates the same ideal CSD at the voltages and resolution asked for and replays precisely the earlier distortions, in frozen mode.",
  ["configurations", "inputs", "histories"], "all distortion lists (None, empty, several), sensors with one or several potentials, 1D and 2D resolutions, repeated measurements",
  "Tests compare two stored images and ratio statistics; they never vary the lists and the generator chain is unobserved.",
  [SIM], [("occupation distortion chain with frozen replay", "Simulation.measure"), ("potential and response distortion loops", "Simulation.measure")], ["returned csd, occupations, lead transitions", "arguments passed to the plugged-in components"])

p("C04", "A sensor scan composes its stages in order, each exactly once",
  "A sensor scan uses at every pixel the dot occupations of the ideal CSD at the fixed plunger voltages, or zero if no ideal CSD or no plunger voltages are given. "
  "The scan equals the response distortions applied in list order to the sensor response of the sensor potential after the potential distortions in list order (each channel separately if there are several), all of them called with the requested sensor sweep ranges, g1 and g2 each in its place. "
  "The two label masks returned are those of the sensor for the undistorted potential.",
  ["configurations", "inputs"], "all distortion lists, scan resolutions (1D int, 1D one entry, 2D), plunger voltages, with and without ideal CSD",
  "The tests run three undistorted scans against stored images; no test uses distortions with distinct ranges on the two sensor gates.",
  [SIM], [("occupation broadcast", "Simulation.measure_sensor_scan"), ("distortion loops", "Simulation.measure_sensor_scan")], ["returned scan and masks", "arguments passed to the plugged-in components"])

p("C05", "Configuration is validated, copied on assignment, and snapshotted",
  "Assigning a configuration value of an unsupported kind (voltage limits that are not None or two values; an ideal CSD, sensor or distortion that does not implement its interface) raises ValueError and leaves the previous value in force; anything supported is stored as an independent copy, so later changes to the caller's object have no effect on the simulation. "
  "The metadata returned by a measurement records the request and the whole configuration as independent snapshots. "
  "A measurement changes neither the caller's sweep ranges and resolution nor any configured limit, array or parameter.",
  ["inputs", "histories", "configurations"], "all configuration attributes of the simulation and of the generic sensor, all kinds of assigned values, any later mutation of the assigned object or of the metadata",
  "The interface tests check a few wrong types; aliasing between caller, simulation and metadata is never tested.",
  [SIM, SEN + "_sensor_generic.py", SEN + "_sensor_scan_sensor_generic.py"], [("validating, deep-copying setters", "Simulation.*.setter"), ("deep-copied metadata", "Simulation.measure, measure_sensor_scan")], ["attribute reads after assignment", "metadata dict"])

p("C06", "Ideal occupations are non-negative and conserve the electron number",
  "At every pixel of an ideal CSD both dot occupations lie between zero and the total, and they add up to an integer total electron number. "
  "In a 1D sweep that total is the number of total charge transitions (TCTs) at or below the pixel's voltage point; in a 2D scan it is the label on a transition pixel, and on every other pixel the number of TCTs at or below its connected region; where the total is zero both occupations are zero. "
  "How the total is split between the dots depends only on the pixel's voltage point and the total, namely on its signed distance to the interdot line through the neighbouring triple points, and always sums to the total whichever broadening is chosen.",
  ["inputs", "configurations"], "all voltage points, resolutions, rotations, numbers and shapes of nested TCTs, both broadening types, zero and non-zero interdot coupling",
  "One stored 2D image and two tunnel-coupling examples are compared; a statement about every pixel of every geometry cannot be sampled.",
  [GEO + "_get_electron_occupation.py", GEO + "_ideal_csd_geometric.py", SUP + "_cumulative_distribution_functions.py"], [("region numbers from TCT functions", "get_electron_occupation"), ("occupation split occ, max-occ", "_occupation_func")], ["occupations returned by the ideal CSD"])

p("C07", "1D lead transitions mark exactly the pixels where the electron number steps",
  "In a one-dimensional ideal sweep a pixel carries a lead-transition label exactly if its total electron number is larger than that of one of its direct neighbours, and the label is that total number. "
  "All other pixels are zero, and the mask has one entry per pixel. "
  "The input occupations are not modified.",
  ["inputs"], "all 1D sweeps: any length, any sequence of integer totals, jumps up and down and by more than one",
  "1D label masks are only checked for shape in the tests; the loop must be right for every sequence of totals.",
  [GEO + "_generate_lead_transition_mask.py"], [("comparison of neighbouring totals", "generate_lead_transition_mask_1d")], ["lead transition mask"])

p("C08", "2D lead transitions draw each TCT within half a pixel of the curve",
  "In a two-dimensional ideal CSD every labelled pixel carries the number of a TCT and contains, within half a pixel in both gate voltages, a sampled point of that TCT's curve (evaluated in the rotated frame and rotated back). "
  "Every sampled curve point inside the scan window labels its pixel, a later TCT overwriting an earlier one, and every other pixel is zero; the curve is sampled over the whole window at least twice per pixel. "
  "No sampled point, in or outside the window, ever labels a pixel outside the image or wraps around.",
  ["inputs", "configurations"], "all windows, resolutions (also non-square), rotations, TCT curves, TCT counts up to 255",
  "One stored image at one resolution is compared; index arithmetic at borders and non-square resolutions is untested.",
  [GEO + "_generate_lead_transition_mask.py"], [("window filter and floor division to pixel indices", "generate_lead_transition_mask_2d")], ["lead transition mask"])

p("C09", "Reversing a sweep direction mirrors the result",
  "Reversing the sweep range of either gate (or both) in a 2D ideal CSD yields the occupations and the lead-transition mask of the forward sweep mirrored along that gate's axis and nothing else. "
  "Reversing a 1D sweep (both ranges) yields the mirrored 1D result. "
  "The caller's voltage arrays are not modified.",
  ["inputs", "configurations"], "all window limits, resolutions and TCT geometries, each of the four direction combinations, 1D and 2D",
  "The direction tests cover one window at one resolution.",
  [GEO + "_ideal_csd_geometric.py"], [("sorted limits and flipped views", "ideal_csd_geometric")], ["occupations and lead transitions returned"])

p("C10", "The sensor potential is affine in occupations and pixel voltages",
  "For both generic sensors the potential at every pixel is the dot lever arms times the pixel's occupations, plus the gate lever arms times the pixel's gate voltages (for the sensor-scan sensor also the sensor-gate lever arms times its sensor-gate voltages), plus the offset, separately for the sensor dot and the two barriers. "
  "The pixel voltages run evenly from the first to the last value of each range, both ends included, g1 along the columns and g2 along the rows in 2D and both together in 1D; a scalar voltage means a constant and an omitted one means zero. "
  "Sweeping plunger and sensor gates at the same time is rejected, and inputs are not modified.",
  ["inputs", "configurations"], "all occupations, lever arms, offsets, ranges (either direction) and resolutions, 1D and 2D",
  "Tests compare whole images for one parameter set; axis mix-ups for non-square scans or unequal lever arms stay invisible.",
  [SEN + "_sensor_generic.py", SEN + "_sensor_scan_sensor_generic.py"], [("linspace voltages and dot products", "sensor_potential")], ["potential returned by sensor_potential"])

p("C11", "A TCT curve is periodic between its bends and straight outside",
  "A TCT evaluated at any x left of its first bend is the straight line through the bend's left end with the left slope, and right of its last bend the straight line through the last bend's right end with the right slope. "
  "In between it follows, with period equal to the sum of the two segment lengths, a bend, a straight right-slope segment, the same bend rotated by 180 degrees and a straight left-slope segment, joined without jumps, each period shifted in y by the accumulated offset; each bend is the quadratic Bezier arc through the two given ends with control point at the crossing of the two tangents. "
  "Scalar and array evaluation agree, without a peak limit the periodic form holds everywhere, and the caller's x values are not modified.",
  ["inputs", "configurations"], "all valid TCT parameter vectors, all x, all peak limits, explicit and lookup-table evaluation (to the table's sampling error)",
  "Three stored curves for one parameter set are compared.",
  [GEO + "_tct_bezier.py", GEO + "_initialize_tct_functions.py"], [("modulo period case split and outer lines", "tct_bezier")], ["y values of the TCT functions"])

p("C12", "Triple-point anchors are the bends of the TCT in voltage space",
  "The anchor table holds for the k-th TCT 2k-1 bends of three points each (start, control, end), listed from left to right. "
  "In the unrotated frame each bend's ends lie on that TCT's curve at the bend's ends, each control point is the crossing of the adjacent straight segments, and consecutive control points are one segment length apart in x along that segment's slope, right and left segments alternating; the table is these points rotated by the configured angle. "
  "The given TCT parameters are not modified, and a single parameter vector is treated as a list of one.",
  ["inputs", "configurations"], "all TCT parameter lists and rotations, all bend indices",
  "Two tests look at argument shapes only.",
  [GEO + "_calculate_all_bezier_anchors.py", GEO + "_tct_bezier.py"], [("alternating anchor recurrence", "calculate_all_bezier_anchors")], ["anchor dictionary"])

p("C13", "Plane-geometry helpers satisfy their defining equations",
  "Rotation preserves distances and is undone by the opposite angle, for single points and arrays; the signed point-line distance has the Euclidean magnitude, flips sign across the line and with its orientation, and is zero on it. "
  "Every returned line-line and line-circle intersection lies on both objects and none is missed, parallel or identical lines and non-positive radii raise ValueError, a tangent yields one point; below-line means strictly smaller y. "
  "Pixel-to-voltage conversion is affine from the first to the last limit.",
  ["inputs"], "all real points, angles, lines (sloped and vertical or horizontal), circles, pixels",
  "None of these helpers has a direct test.",
  [SUP + "_rotate_points.py", SUP + "_signed_dist_points_line.py", SUP + "_linear_algebra.py", SUP + "_pixel_volt_transformation.py"], [("closed-form geometry", "rotate_points, signed_dist_points_line, line_line_intersection, line_circle_intersection, is_point_below_line, pixel_to_volt_1d")], ["return values"])

p("C14", "Broadening functions are proper cumulative distributions",
  "Both broadening functions take values between 0 and 1, never decrease in x, equal one half at their centre and are point-symmetric about it for every positive width. "
  "A width of zero (widths up to 1e-8 count as zero) gives the step from 0 to 1 at the centre. "
  "The multi versions are the sums over their (centre, width) pairs, reject parameter lists of odd length, and no input array is modified.",
  ["inputs"], "all x, centres, widths, numbers of pairs",
  "Only exercised indirectly through one stored image.",
  [SUP + "_cumulative_distribution_functions.py"], [("tanh / arctan forms and the zero-width case", "sigmoid_cdf, cauchy_cdf, multi_*")], ["return values"])

p("C15", "Coulomb peaks have their height, centre and width, and add up",
  "A Gaussian or Lorentzian peak returns at its centre offset plus height, lies between offset and offset plus height everywhere, is symmetric and falls off strictly away from the centre (for non-zero height) with the documented shape: height/e above the offset one sigma away for the Gaussian, half height one gamma away for the Lorentzian. "
  "Widths that are not positive are rejected with ValueError and leave the peak unchanged. "
  "The generic sensor's response is the sum over its peaks at every pixel, and the potential itself if no peaks are set.",
  ["inputs", "configurations"], "all potentials, peak parameters, numbers of peaks, 1D and 2D",
  "Only whole-image comparisons for one parameter set.",
  [SEN + "_sensor_peak_gaussian.py", SEN + "_sensor_peak_lorentzian.py", SEN + "_sensor_generic.py"], [("peak formulas", "sensor_response_gauss, sensor_response_lorentz"), ("summation", "SensorGeneric.sensor_response")], ["return values of sensor_function and sensor_response"])

p("C16", "Logistic barrier and rise functions invert and hit their percentages",
  "The generalised logistic function and its inverse undo each other wherever both are defined; the function lies between its asymptotes and is monotone. "
  "At its pinch-off and fully-conductive potentials a logistic barrier takes exactly the configured percentages of the way from its lower to its higher asymptote, and the rise takes its fully-conductive percentage at the potential its fully-conductive point is shifted to; non-positive asymmetries are rejected with ValueError. "
  "A multi-logistic is the sum of its terms and rejects parameter lists that are not complete.",
  ["inputs", "configurations"], "all parameters in the valid domain, all potentials",
  "No test evaluates these functions except inside three stored images.",
  [SUP + "_generalized_logistic_function.py", SEN + "barrier_function/_barrier_function_glf.py", SEN + "barrier_function/_barrier_function_multi_glf.py", SEN + "_sensor_rise_glf.py"], [("closed forms", "glf, inverse_glf, multi_glf"), ("percentage points", "BarrierFunctionGLF.pinch_off, fully_conductive, SensorRiseGLF.fully_conductive")], ["return values"])

p("C17", "The sensor-scan response is the series conductance of dot and barriers",
  "At every pixel the response of the sensor-scan sensor is the series combination of the dot's response and the two barriers' responses at that pixel's potentials, 1/(1/s+1/b1+1/b2), and zero where any of them vanishes; for non-negative parts it is non-negative and never exceeds any of them. "
  "The dot's response is the sum of the peaks; with a final rise configured and no deformation in play it is the larger of that sum and the rise (the rise's fully conductive point placed, when at least one plunger gate is fixed, at the sensor potential of the fully conductive operating point for the first plunger voltages); in a pure sensor sweep with deformations each deformed peak is evaluated at its centre shifted for that pixel's distance from the middle line. "
  "The peaks' stored parameters and the given potential are unchanged afterwards.",
  ["inputs", "configurations"], "all potentials, barrier and peak parameters, deformation assignments, 1D and 2D non-square scans",
  "Three stored images for one sensor configuration.",
  [SEN + "_sensor_scan_sensor_generic.py"], [("series formula", "SensorScanSensorGeneric.sensor_response"), ("per-pixel deformed peaks", "SensorScanSensorGeneric._peak_func")], ["response array", "peak parameters after the call"])

p("C18", "Sensor-scan labels agree with the barrier and peak potentials",
  "A pixel is labelled conductive only if both barrier potentials exceed their pinch-off, pinched-off (0) if not, and fully conductive (2) instead of 1 exactly if in addition its sensor potential exceeds that of the operating point at which both barriers are fully conductive for the same plunger voltages and occupations. "
  "That operating point, like the pinch-off point, is the pair of sensor gate voltages at which the two barrier potentials take the requested values. "
  "Coulomb-peak labels appear only on conductive (1) pixels, name an existing peak by its position in the peak list plus one, and each marks the pixel of its row (its sweep in 1D) whose potential is closest to that peak's centre.",
  ["inputs", "configurations"], "all lever arms, offsets, occupations, plunger voltages, peak lists in any order, 1D and 2D non-square scans",
  "Labels are compared for one configuration with zero plunger voltages in mind.",
  [SEN + "_sensor_scan_sensor_generic.py"], [("linear solve for the barrier point", "_calc_point_from_barrier_potentials"), ("mask construction", "get_sensor_scan_labels")], ["conductive mask", "Coulomb peak mask"])

p("C19", "Peak deformations are anchored at the middle line and shaped as documented",
  "Both deformations leave a peak's centre where it is at distance zero, and return for an array what they return for each of its entries. "
  "The linear one shifts the centre proportionally to the signed distance, with slope set by its angle and the sensor-gate lever arm (none at a right angle); the circular one is even in the distance, moves the centre towards its circle's centre (down for a positive, up for a negative radius) ever further with distance and continuously levels off beyond the radius, never moving by more than the radius in voltage units. "
  "The distances handed in are not modified.",
  ["inputs", "configurations"], "all distances, radii of both signs, angles, lever arms",
  "One angle and one radius are compared inside a stored image.",
  [SEN + "deformation/_sensor_peak_deformation_linear.py", SEN + "deformation/_sensor_peak_deformation_circle.py"], [("closed forms", "calc_mu")], ["deformed centre values"])

p("C20", "Sampled parameters always stay inside their range",
  "Every value drawn from any of the parameter samplers lies within the total range (ends included), whatever the random numbers, mean and spread. "
  "With a reduced sampling range one sub-range of exactly that width inside the total range is chosen at construction and all values ever drawn stay inside it; a reduction at least as wide as the total range leaves the total range in force. "
  "The last sample reported is the value most recently drawn, and None before.",
  ["inputs", "histories", "configurations"], "all ranges (the exponential one also with descending ends), sub-range widths, distribution parameters, random streams, sequences of draws",
  "The tests are statistical and sample a few ranges.",
  [SUP + "_parameter_sampling.py"], [("rejection loops", "sample_parameter"), ("sub-range selection", "__init__")], ["sampled values"])

p("C21", "Noise is added on top, keeps the shape, and is skipped when inactive",
  "White, pink and telegraph noise return a new array of the input's shape equal to the input plus a noise term that does not depend on the input's values, and never modify the input. "
  "White and pink noise scale linearly with the strength sampled for that call, which is the one reported as latest, and zero strength returns the input; the strength is sampled once per call. "
  "Telegraph noise draws its activation with the configured probability once per call, reports it, and returns the input unchanged when it is not active.",
  ["inputs", "histories", "configurations"], "all arrays 1D and 2D, all strengths, constants and samplers, all random streams",
  "Ratio statistics and shapes only.",
  [DIS + "_white_noise.py", DIS + "_pink_noise.py", DIS + "_random_telegraph_noise.py"], [("additive noise", "white_gaussian_noise, pink_gaussian_noise, random_telegraph_noise"), ("activation draw", "RandomTelegraphNoise.noise_function")], ["returned arrays", "activated, latest_sigma"])

p("C22", "Telegraph noise is piecewise constant, alternating between zero and bursts",
  "The telegraph noise added to an array is, in row-major order, a sequence of blocks whose lengths are the successive geometric draws of mean equal to the scale in pixels, starting with a quiet block of zeros and then alternating between one constant burst amplitude (drawn anew per burst from the normal distribution with the configured height and spread) and zero, cut to the size of the array. "
  "The voltage scale is converted with the number of pixels per volt along the swept gate - for a 2D array the larger pixel density of its two axes - and scales below one pixel count as one pixel. "
  "A zero scale adds nothing.",
  ["inputs", "configurations"], "all array shapes, scales, heights, spreads, draws, sweep ranges in either direction",
  "The tests only count how often the noise is active.",
  [DIS + "_random_telegraph_noise.py"], [("block construction", "random_telegraph_noise"), ("scale conversion", "RandomTelegraphNoise.noise_function")], ["difference between output and input", "arguments of the random generator"])

p("C23", "Dot jumps shift occupations and transitions together along one axis",
  "A dot jump replaces, in place, both dots' occupations and the lead transitions at each pixel by those a non-negative number of pixels earlier on the same line of the jump axis in order of rising voltage, with one shift per position along that axis common to the whole image; pixels shifted in from outside come from the CSD generator at the correspondingly lower voltages, or repeat the border pixel if there is none. In a one-dimensional scan each pixel's point is lowered along the jump gate by its shift (taken from the generator; without one the line is unchanged). "
  "The shifts form blocks with geometric lengths, zero shift and Poisson-drawn shifts alternating. "
  "An inactive jump changes nothing, activation is drawn once per unfrozen call, and a frozen call replays the shifts of the last unfrozen one without drawing random numbers.",
  ["inputs", "histories", "configurations"], "all images (also non-square, wider than 255 pixels), both axes, all shifts, sweep directions, active/frozen histories, 1D and 2D",
  "The tests only count activations.",
  [DIS + "_dot_jumps.py"], [("block-wise shift", "dot_jumps_blockwise, generate_dot_jumps_blockwise"), ("extension by the generator and replay", "OccupationDotJumps.noise_function")], ["occupations and lead transitions after the call", "generator calls"])

p("C24", "Transition blurring is an averaging along the g1 axis only",
  "Both blurrings replace each dot's occupations, in place, by a normalised non-negative symmetric weighted average over neighbouring pixels of the same row (of the sweep in 1D), so constants are preserved, results stay within the range of the input, dots do not mix and a common total is kept. "
  "The width is the configured or sampled width in volts times the pixels per volt of the axis that is filtered (in 1D of the swept gate, the larger density if both are swept). "
  "Lead transitions are untouched, non-positive widths change nothing, a frozen call reuses the width of the previous call and an unfrozen call samples once.",
  ["inputs", "histories", "configurations"], "all occupations, widths (constant or sampled), resolutions (also non-square), sweep ranges in either direction, frozen and unfrozen calls",
  "No test looks at the blurred values.",
  [DIS + "_transition_blurring.py", SUP + "_fermi_filter1d.py"], [("kernel normalisation", "fermi_filter1d"), ("width conversion", "noise_function")], ["occupations after the call", "filter widths"])

p("C25", "Resetting the sensor offset hits the target potential and nothing else",
  "After resetting the offset for a target, the generic sensor's potential for the undistorted occupations at the start of the given sweep ranges equals the target. "
  "All other sensor and simulation settings are unchanged, and a second reset with the same arguments changes nothing more.",
  ["inputs", "histories", "configurations"], "all targets, sweep ranges, previous offsets, lever arms and ideal CSDs",
  "There is no test of this function.",
  [SUP + "_reset_offset_mu_sens.py"], [("offset correction", "reset_offset_mu_sens")], ["sensor_potential after the call"])

p("C26", "Sampled random configurations are complete, in range and simulate",
  "Every configuration drawn by the random sampler holds all settings of a simulation, with TCT parameters that form valid, nested TCTs (left slope positive side, lengths at least twice the bend), positive peak widths, and voltage ranges in ascending order. "
  "Every distortion and sensor parameter lies inside the range its family defines, and quality multipliers passed in reach every part they are meant to scale. "
  "A simulation built from it accepts a measurement over its own voltage limits at ten or more pixels per axis.",
  ["inputs", "configurations"], "all random streams, all quality multipliers and switches of the sampler",
  "The sampler has no test of its own.",
  ["simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"], [("range-bounded sampling", "sample_random_variations_v3 and helpers")], ["configuration dictionary"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
