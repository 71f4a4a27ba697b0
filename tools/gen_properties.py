"""Writes properties.jsonl (kept as a generator so that quoting stays sane)."""
import json, os, re
P = []
def three(text):
    """At most three sentences: the later ones are joined with semicolons."""
    parts = re.split(r"(?<=[.)]) (?=[A-Z(])", text)
    while len(parts) > 3:
        b = parts.pop()
        parts[-1] = parts[-1].rstrip(".") + "; " + b[0].lower() + b[1:]
    return " ".join(parts)
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    statement = three(statement)
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
S="echidna/core/spectra.py"; PA="echidna/core/parameter.py"; C="echidna/core/config.py"
SH="echidna/core/shift.py"; SC="echidna/core/scale.py"; SM="echidna/core/smear.py"
T="echidna/fit/test_statistic.py"; M="echidna/fit/minimise.py"; F="echidna/fit/fit.py"
R="echidna/fit/fit_results.py"; L="echidna/limit/limit.py"; D="echidna/calc/decay.py"
X="echidna/core/dsextract.py"; FI="echidna/core/fill_spectrum.py"; ST="echidna/output/store.py"
U="echidna/utilities.py"

p("C01","Filling puts each weight in exactly the bin that contains the event",
  "Filling a spectrum with an event inside the range [low, high) of every dimension adds exactly the given weight (1 by default) to the single bin whose edges contain the event, and changes nothing else. An event outside the range of any dimension, or a call with a missing or unknown coordinate, is rejected with an error and leaves the spectrum unchanged. The total content of the spectrum therefore always equals the sum of the accepted weights. (Coordinates are judged as real numbers: an event within rounding error of an edge may go to either side.)",
  ["inputs","configurations","histories"],"all event coordinates and weights, all bin ranges, any sequence of fills",
  "the spectra tests fill random points and only compare totals or one projection; boundaries and per-bin placement are not quantified over",
  [S],[("fill","Spectra.fill"),("bin lookup","SpectraParameter.get_bin / Spectra.fill")],[("_data","histogram contents","Spectra._data")],["Spectra.fill","Spectra.sum"])
p("C02","Projections, surfaces and n-d projections are exact marginals",
  "Projecting a spectrum onto one, two or any subset of its dimensions returns, at each index of the kept dimensions (in the spectrum's own dimension order), exactly the sum of the contents over all the other dimensions. The total is preserved and the spectrum itself is not modified. Interpolating a projection gives the spline of the requested degree (cubic by default) through its contents at the bin centres. Asking for an unknown dimension raises an error.",
  ["inputs","configurations"],"all bin contents; spectra with 1 to 4 dimensions; every choice of kept dimensions",
  "tests only project a 3-d random spectrum on single dimensions",
  [S],[("project","Spectra.project"),("surface","Spectra.surface"),("nd_project","Spectra.nd_project")],(),["Spectra.project","Spectra.surface","Spectra.nd_project"])
p("C03","Scaling to a number of decays is linear and self-consistent",
  "After scaling a spectrum to N decays its recorded number of decays is N and every bin has been multiplied by the same factor N/(previous number of decays). Scaling twice is the same as scaling once to the final number, and scaling back restores the original contents; relative contents of bins never change.",
  ["inputs","histories"],"all contents, all non-zero previous and new numbers of decays, any sequence of scalings",
  "the only scaling test uses one fixed pair of numbers",
  [S],[("scale","Spectra.scale")],[("_num_decays","decays the contents correspond to","Spectra._num_decays")],["Spectra.scale","Spectra.sum"])
p("C04","Shrinking keeps exactly the bins inside the requested range",
  "Shrinking a spectrum keeps, in every dimension, exactly the bins of the requested range (requested limits that are not on a bin edge are widened or snapped to a neighbouring edge), and the kept bins keep their contents, their edges and their width: the dimension's low, high and number of bins always agree with the data. Bins outside are dropped and nothing else changes. A request that names an unknown dimension, lies outside the current range or has low >= high is refused with an error and leaves data and dimensions untouched.",
  ["inputs","configurations","histories"],"all contents, all requested limits on one or several dimensions, repeated shrinks",
  "tests shrink a few fixed ranges and only compare totals",
  [S,PA],[("shrink","Spectra.shrink"),("edge rounding","SpectraParameter.round")],[("_low/_high/_bins","dimension geometry","SpectraParameter"),("_data","contents","Spectra")],["Spectra.shrink"])
p("C05","Cuts and ROI shrinks keep efficiency and decay bookkeeping exact",
  "Cutting a spectrum (by limits on its dimensions) or shrinking it to a region of interest leaves the same contents as shrinking it to those limits, and the efficiency is (contents kept)/(contents before). A cut multiplies the recorded number of decays by that efficiency when the caller asks for it to be updated, and leaves it otherwise; shrinking to a region of interest leaves it and records, for the dimension, the limits and the efficiency that were applied, which is what is reported afterwards.",
  ["inputs","configurations"],"all contents and limits, with and without updating the number of decays",
  "tests check one cut and one ROI on random contents",
  [S],[("cut","Spectra.cut"),("shrink_to_roi","Spectra.shrink_to_roi"),("get_roi","Spectra.get_roi")],(),["Spectra.cut","Spectra.shrink_to_roi","Spectra.get_roi"])
p("C06","Adding spectra is a bin-by-bin sum of compatible spectra only",
  "Adding one spectrum to another adds its contents bin by bin and adds its event counters (raw events and number of decays), and never modifies the spectrum being added. Spectra with different dimension names, edges, or numbers of bins are refused with an error and the target is left unchanged.",
  ["inputs","configurations"],"all contents and all pairs of binnings",
  "not tested",
  [S],[("add","Spectra.add")],(),["Spectra.add"])
p("C07","Rebinning conserves contents and is all-or-nothing",
  "Rebinning merges whole groups of adjacent bins: each new bin holds exactly the sum of the old bins it covers, the ranges stay the same and the total is conserved. A request with the wrong number of dimensions, or with a bin number that does not divide the current one, is refused with an error and leaves data and binning completely unchanged.",
  ["inputs","configurations"],"all contents; all requested bin numbers in 1 to 3 dimensions",
  "tests rebin one shape and compare totals; a failing request is only checked to raise",
  [S],[("rebin","Spectra.rebin")],(),["Spectra.rebin"])
p("C08","Operations on a copy never alter the original spectrum",
  "A copied spectrum has the same contents, binning, counters and name (unless renamed), and no later operation on the copy (filling, scaling, shrinking, cutting, rebinning) changes the contents, binning or counters of the original. Spectra made with one configuration object are independent of each other in the same way. Convolutions (shift, scale, smear) likewise return a new spectrum and leave their input unchanged.",
  ["inputs","histories"],"all contents; every operation applied to a copy",
  "no test looks at the original after operating on a copy",
  [S,SH,SC,SM],[("copy","Spectra.__deepcopy__/copy.copy users")],(),["Spectra","Shift.shift","Scale.scale","Smear.*_smear"])
p("C09","Bin geometry of a spectral dimension is consistent",
  "For a dimension with given low, high and bins: the width is (high-low)/bins, edges are equally spaced from low to high, centres lie half-way between consecutive edges, and the bin reported for any value in [low, high) is the one whose edges contain it. The bin of every bin centre is that bin, rounding a value to an edge returns the nearest edge, and values below low or above high are refused. After setting low, high or bins everything follows the new settings, and settings that are refused change nothing.",
  ["inputs","configurations"],"all values, all low < high, bin numbers within the bound",
  "tests use a handful of fixed values with low = 0",
  [PA],[("get_bin","SpectraParameter.get_bin"),("centres","SpectraParameter.get_bin_centre(s)"),("boundaries","SpectraParameter.get_bin_boundaries"),("round","SpectraParameter.round")],(),["SpectraParameter"])
p("C10","A fit parameter's grid of values is well formed and invertible",
  "The values of a fit parameter are exactly `bins` values, increasing, starting at low and ending at high, equally spaced on the parameter's scale: linear, logarithmic, or logarithmic in the deviation from the prior. The last kind contains the prior, and is symmetric about it when low and high are. The value at an index and the index of a value are inverse to each other, a value not on the grid is refused with a ValueError, and after changing low, high or bins the grid reflects the new settings, while settings that are refused change nothing. The penalty term for chi-squared statistics is ((value-prior)/sigma)^2, and half of that for log likelihood.",
  ["inputs","configurations","histories"],"all low/high/prior/sigma/bins on each scale",
  "tests read one hard-coded grid",
  [PA,T],[("get_values","FitParameter.get_values"),("get_value_index","FitParameter.get_value_index"),("set_par","FitParameter.set_par"),("get_penalty_term","TestStatistic.get_penalty_term")],(),["FitParameter"])
p("C11","Parameters and configurations survive a save/load round trip",
  "Turning any parameter or configuration (spectral, per-spectrum fit, or global fit) into its dictionary form and building a new one from it yields an equal parameter or configuration: same names, same dimension of each global parameter, same limits, bins, prior, sigma, scale and other user-set values, with fit results not mistaken for settings. The same holds when they are written to yaml files and loaded from these, also after a fit, and the files of the global and of the spectral parameters are separate. Loading takes the name given by the caller, or the default documented one.",
  ["inputs","configurations"],"all parameter values; configurations with up to three parameters of every kind",
  "tests load fixed yaml files only",
  [PA,C],[("to_dict","Parameter.to_dict"),("dump/load","Config.dump / Config.load")],(),["Config.load","Config.dump"])
p("C12","Configurations enumerate their parameters consistently",
  "The list of parameters, the index of each parameter, the shape of the grid they span and the dimensions they act on are mutually consistent: indices are 0..n-1 in the listed order, the shape lists the number of bins in that order, and each global parameter is reported under exactly the dimension it was configured for. Merging a spectrum's configuration into the global one keeps all existing entries and their order, adds the spectrum's parameters under that spectrum's name (sharing the parameter objects), and leaves the listing and the settings of the spectrum's own configuration alone; requests for unknown parameters are refused.",
  ["configurations","histories"],"configurations with up to four parameters over up to three dimensions and any order of insertion",
  "not tested beyond fixed examples",
  [C],[("add_config","GlobalFitConfig.add_config"),("get_shape/get_index","Config.get_shape/get_index"),("dims","*.get_dim / get_dims")],(),["Config"])
p("C13","Shifting a spectrum moves contents by the requested amount",
  "Shifting by a whole number of bins moves every bin's contents by exactly that many bins along the requested dimension (contents leaving the range are lost and the vacated bins are empty), and a zero shift changes nothing. Shifting by any other amount evaluates the interpolated distribution at the shifted bin centres, leaves bins whose shifted centre is outside the range empty, and rescales the result to the total of the spectrum before the shift (or leaves it empty when everything is shifted out). Contents are never negative, every bin's contents are split over the other dimensions as those of the bins they come from are, each with the part of it that overlaps, number of decays, binning and name are kept, and the shift value set is the one applied and is returned when asked for.",
  ["inputs","configurations"],"all contents; all shift values; spectra in 1 to 3 dimensions",
  "tests shift Gaussians and compare mean and integral statistically",
  [SH],[("shift","Shift.shift"),("shift_by_bin","Shift.shift_by_bin")],(),["Shift.shift","Shift.shift_by_bin"])
p("C14","Scaling a spectrum's axis conserves counts and matches the factor",
  "Scaling the axis of a spectrum by a positive factor evaluates the interpolated distribution at (position/factor), leaves bins for which that is outside the range empty, keeps the total contents of the spectrum (unless everything is scaled out, which leaves it empty), never makes contents negative, splits every bin's contents over the other dimensions as those of the bins they come from are, and with factor one returns the same contents. A factor that is not positive is refused, and the factor set is the one applied and returned when asked for.",
  ["inputs","configurations"],"all contents; all positive factors; spectra in 1 to 3 dimensions",
  "tests scale Gaussians and compare mean and integral statistically",
  [SC],[("scale","Scale.scale"),("set_scale_factor","Scale.set_scale_factor")],(),["Scale.scale"])
p("C15","Smearing redistributes contents without creating or losing events",
  "Weighted smearing moves each input bin's contents to bins within the smearing window (the set number of sigmas, up to half a bin) of it along the smeared dimension only, with weights given by the normalised resolution function evaluated at the bin centres, so the total contents and the marginals over the other dimensions are preserved. It is linear in the contents, does not modify its input, and empty bins contribute nothing.",
  ["inputs","configurations"],"all contents, all positive resolutions, spectra in 1 to 3 dimensions",
  "tests smear Gaussians and compare fitted widths statistically",
  [SM],[("weighted_smear","EnergySmearLY/Res, RadialSmear .weight_smear")],(),["Smear.weighted_smear"])
p("C16","Resolution settings obey the documented physics laws",
  "The energy resolution at an energy follows the documented law of the smearer (light yield: sigma = sqrt(E/yield); energy resolution: sigma = resolution*sqrt(E); radial: the set constant), increases with energy, and setting a resolution makes exactly that resolution (combined with the current one where documented) be used afterwards. The Gaussian a smearer offers is the normal density, of integral one. Non-positive or otherwise invalid settings are refused and leave the previous setting in force.",
  ["inputs","histories"],"all energies and all settings; any sequence of set operations",
  "tests use one value of light yield and resolution",
  [SM],[("get_sigma","*.get_sigma / calc_*"),("set_resolution","*.set_resolution/set_by_*")],(),["Smear"])
p("C17","Test statistics compute their documented formula",
  "Each test statistic equals its documented formula for observed O and expected E, summed over the bins or listed per bin when requested: Baker-Cousins chi-squared 2(E - O + O ln(O/E)), its variant without the bins where O exceeds E, its log likelihood (half the chi-squared), Neyman (E-O)^2/O, Pearson (O-E)^2/E, and the extended log likelihood E - O ln(E). The value does not depend on the order of the bins. Those that compare with the data (all but the last) vanish when observed and expected agree in non-empty bins, and are never negative.",
  ["inputs"],"all non-negative observed and positive expected contents, within the bin bound",
  "the tests evaluate each statistic at one or two hand-computed points",
  [T],[("compute_statistic","TestStatistic.compute_statistic"),("get_stats","*._get_stats / _compute")],(),["TestStatistic.compute_statistic"])
p("C18","Evaluating a test statistic has no side effects and validates input",
  "Computing a test statistic never changes the observed or expected contents passed in, so evaluating it again, or with any other statistic, gives the same answer as a fresh evaluation. Observed and expected of different lengths, or not one-dimensional, are refused with an error rather than giving a number.",
  ["inputs","histories"],"all contents including empty bins; repeated evaluation; all length pairs within the bound",
  "tests never look at the arrays after the call and never evaluate twice",
  [T],[("compute_statistic","TestStatistic.compute_statistic")],(),["TestStatistic.compute_statistic"])
p("C19","The grid search visits the whole grid and returns its true minimum",
  "A grid search evaluates the test statistic exactly once for every combination of the fit parameters' grid values, with parameters set to those values, and stores each result at the matching grid point. It finds the smallest value of (statistic + the sum of all penalty terms) over the grid, returns the statistic and the total penalty at the grid point where it is attained (the first in grid order when there are ties), and records as best fit that grid point's parameter values, together with the penalties there.",
  ["inputs","configurations"],"every possible assignment of statistic values to grid points, every prior and sigma; 1 to 3 parameters",
  "the tests minimise one analytic function; in this sandbox they do not even run",
  [M],[("minimise","GridSearch.minimise"),("find_minimum","GridSearch.find_minimum"),("_update_coords","GridSearch._update_coords")],[("_stats/_penalties","stored grids","GridSearch/FitResults")],["GridSearch.minimise"])
p("C20","Stored grid results can be read back point by point and projected",
  "Statistic and penalty values stored for a grid point (by index or by parameter values) are exactly what is read back for that grid point and no other grid point changes; out-of-range indices, wrong numbers of indices and wrongly shaped grids are refused. Resetting empties the grids at the current parameter shape. Projecting the stored statistic onto a subset of fit and spectral dimensions gives, in the order of the dimensions, the sum over all the others; the penalties are part of it when only fit parameters are kept.",
  ["inputs","histories","configurations"],"all values, all indices, 1 to 3 parameters, any sequence of set/get/reset",
  "not tested",
  [R,M],[("set_stat/get_stat","FitResults/GridSearch set_stat, get_stat, set_penalty_term"),("reset_grids","GridSearch.reset_grids"),("nd_project_stat","GridSearch.nd_project_stat")],(),["FitResults","GridSearch"])
p("C21","Fit and limit summaries report the recorded results faithfully",
  "Best-fit values, penalties and the statistic recorded by a fit are exactly those given in its summary, for every parameter; and the limit results return at each signal scaling exactly the statistic, best-fit values and penalties recorded for it, the full statistic being the statistic plus the sum of all penalty terms. Writing one entry never changes another, and invalid indices or shapes are refused.",
  ["inputs","histories"],"all recorded values; up to four scalings and three parameters",
  "not tested",
  [R,M,PA],[("get_summary","FitResults.get_summary"),("limit results","LimitResults")],(),["FitResults.get_summary","LimitResults"])
p("C22","The limit is the first signal scaling whose statistic exceeds the threshold",
  "A limit scan evaluates the fit at every signal scaling of its grid in order. The full statistic of a scaling is its statistic relative to the minimum (the given minimum statistic when one is supplied, including zero, else the minimum over the scan) plus its penalties. The limit is the first scaling, starting from that of the minimum of the full statistic, whose full statistic exceeds the threshold. When no scaling does, a limit error is raised instead of a number. A scan is of the signal of its own limit, also when its fitter was used for another signal before. The array form obeys the same rule on the supplied values.",
  ["inputs","configurations"],"every sequence of statistic values and every threshold, within the number of scalings",
  "the limit module has no tests",
  [L],[("get_limit","Limit.get_limit"),("get_array_limit","Limit.get_array_limit")],(),["Limit.get_limit","Limit.get_array_limit"])
p("C23","The fitted expectation is fixed + all floating backgrounds + signal",
  "For every set of parameter values, the expected contents compared with data are the fixed background as it is, plus every floating background scaled to its rate and, within the region of interest, convolved with every global systematic and then every systematic of its own, in the listed order, plus the signal at its scaling convolved with every global systematic. The statistic is the test statistic of data against exactly that sum, with the penalty of every parameter that has a prior and width added and no penalty for those without. Every floating background (with a distinct name) and every global parameter counts once, and parameters are applied one after another rather than replacing one another; a parameter that has no current value is refused rather than left out. Applying a parameter is what its systematic does at the parameter's current value (resolutions above ten are light yields).",
  ["inputs","configurations"],"all contents, rates, priors; up to three floating backgrounds, two global parameters",
  "fit.py cannot even be imported by the stable tests",
  [F,PA],[("_funct","Fit._funct"),("apply_to","*Parameter.apply_to")],(),["Fit.fit","Fit._funct"])
p("C24","Fit setup uses one region of interest and the caller's spectra intact",
  "A fit compares data, backgrounds and signal in one region of interest with matching binning, and refuses spectra whose region of interest (in any of its dimensions) or dimensions differ. The fixed background it builds is the sum of the given spectra, each scaled to its rate and restricted to the region of interest; the spectra given for it and the dictionaries passed in are not changed (data, floating backgrounds and signal are shrunk to the region of interest when they are set, unless the caller asks for them not to be; then they have to cover it exactly already). Spectra that are set after a fit was run are checked like those set before, and appending to the fixed background leaves the spectrum it was set with as it is. Running the fit changes none of the spectra of the fit.",
  ["inputs","configurations","histories"],"all contents, all regions of interest, up to three backgrounds",
  "no stable test imports the fit module",
  [F],[("check_fit_config / check_roi","Fit.check_*"),("make_fixed_background","Fit.make_fixed_background/append_fixed_background"),("set_*","Fit.set_data/set_floating_backgrounds/set_signal")],(),["Fit"])
p("C25","Half-life, activity, decays and mass conversions are mutual inverses",
  "Converting half-life to activity and back, activity to number of decays and back, half-life to number of decays and back, or counts to effective mass and back, returns the value started from, for every isotope, loading and volume; conversions are proportional to the number of isotope atoms and monotone in the expected direction. Explicitly given settings (a loading or radius, including zero where it is physical) are the ones used. Unphysical inputs (loadings and abundances outside [0, 1], non-positive outer radii, livetimes or effective masses) are refused.",
  ["inputs"],"all positive half-lives, counts, masses, radii, loadings and times",
  "there is no stable test of the decay module",
  [D],[("DBIsotope","DBIsotope conversions")],(),["DBIsotope","calc.decay"])
p("C26","Event extraction applies the documented cuts and values",
  "Each extractor accepts an event exactly when the documented validity flags hold and, if a fiducial radius is set, its position (the true or reconstructed one, as configured) lies inside it (nearer to the centre than that radius, so not on it); it returns the documented quantity (energy, r, (r/R)^3, or the z-signed (r/R)^3), the same for ntuple and ROOT input, reading the vertex of the event that the configuration points to. An event without a reconstructed position fails a cut on it. Asking for an extractor by name gives the one for that name, with the options given, and unknown names or option combinations that make no sense are refused.",
  ["inputs","configurations"],"all event contents (flags, positions, energies), all radii, all extractors and options",
  "no test covers extraction (it needs ROOT)",
  [X],[("fv_cut/get_valid/get_value","Extractor subclasses"),("function_factory","dsextract.function_factory")],(),["Extractor"])
p("C27","Filling from files counts each valid event exactly once",
  "Filling a spectrum from an input file adds each event that passes every extractor of the spectrum's dimensions and lies in range exactly once, with its extracted values, and no other event. The raw-event count is the number of events entered in the histogram and the number of decays the number of entries read; appending to an existing spectrum adds to both. With the bi-po cut exactly the entries (decays) with a single triggered event are kept, including the first and the last of the file, for ROOT and ntuple input alike. A new spectrum needs both a name and a configuration, and unknown dimensions are refused.",
  ["inputs","histories"],"every sequence of events within the bound (validity flags, values, trigger grouping)",
  "needs ROOT; untested",
  [FI],[("event loops","fill_from_root/_from_ntuple/_bipo*")],(),["fill_spectrum"])
p("C28","Saved spectra and fit results load back identical",
  "Storing a spectrum and loading it again gives an equal spectrum: contents, binning, names and order of every dimension, name, number of decays, raw events, region of interest, background name, style and fit configuration. The same holds for stored fit results, limit results and plain arrays of an object, with the order of the fit parameters that the axes follow, and for several spectra stored in the same file under group names, each found under its own. Neither the stored nor the loaded object shares data with the other. Loading a name that was not stored, or storing a spectrum with no derivable background name, is refused (a refused save leaves the file as it was), and files of the older formats (unnamed configurations, styles as text, no bipo flag) still load.",
  ["inputs","configurations"],"all contents and attribute values, spectra with 1 to 3 dimensions, with and without the optional attributes",
  "store tests need h5py and write one spectrum",
  [ST],[("dump/load","store.dump/load, dump_fit_results/load_fit_results"),("string forms","store.dict_to_string/string_to_dict")],(),["store"])
p("C29","Error arrays follow their formula and the shape of their input",
  "The error of each value is the difference between the value and the value moved up by the error asked for: by adding the linear error, by multiplying with the fractional one when there is no linear error, on a linear, natural-log or log10 scale. The result has the shape of the input, the input is not changed, and asking for neither kind of error is refused.",
  ["inputs"],"all values and error sizes, on each scale, in 1 to 3 dimensions",
  "not tested",
  [U],[("get_array_errors","utilities.get_array_errors")],(),["utilities"])
p("C30","Random smearing draws every event once and counts it where it lands",
  "Random smearing draws, for every event of a bin (the whole number of events in it), one new position from the resolution of the smearer at the centre of the bin, keeps the other coordinates, and adds the event to the bin that contains the new position; events that land outside the range are lost. So no event is drawn twice or skipped, the total equals the number of draws that land in range, and the input is not modified.",
  ["inputs","schedules"],"every outcome of the random draws; all whole contents within the bound; spectra in 1 to 3 dimensions",
  "tests compare the width of one randomly smeared Gaussian; they cannot fix the draws",
  [SM],[("random_smear","EnergySmearLY/Res, RadialSmear .random_smear")],(),["Smear.random_smear"])
PL="echidna/output/plot.py"; PR="echidna/output/plot_root.py"
p("C31","Plots show the numbers they are made from and leave them alone",
  "A projection or surface drawn of a spectrum has the range and number of bins of its dimensions and in each bin the marginal content of the spectrum, whichever dimension is given first; a spectral plot shows every spectrum under its label, the sum of those of type background (with a band of its square root) and the sum of all, and refuses spectra with other axes. The statistic per bin of a calculator is drawn in its bins. Plots of fit and limit results have one point (or bin) per grid value, at that value, with the statistic, penalty, best fit or pull recorded there, and with the parameters on the axes they were asked for. Drawing modifies neither the spectra nor the results, so drawing again gives the same plot.",
  ["inputs","configurations"],"all contents and results; 1 to 3 dimensions or parameters; every choice of axes and of grid point, per-bin statistics or not; with ROOT and with matplotlib",
  "no test draws anything; ROOT and matplotlib are absent from the test environment",
  [PL,PR],[("projection, surface, spectral_plot","plot.py"),("plot_* of spectra and of fit and limit results","plot_root.py")],(),["plot_projection","plot_surface","spectral_plot","plot_per_bin","plot_stats_vs_pars","plot_sigma_best_fit_vs_scale"])
p("C32","The scripts do to files what the library does to spectra",
  "The scripts that scale, shift, shrink, rebin, smear or add the spectra of HDF5 files write one new file, beside the input or where asked, that holds the result of that operation with the values given on the command line, and leave the input files alone; a call that cannot be carried out is reported as an error and writes nothing. A scaled or smeared energy file carries the value and its unit in its name. The scripts that make spectra of ntuples or ROOT files store, under the path asked for, a spectrum with the counts, raw events and decays of the events of each file given, or of all files of a directory. Options for the biPo cut, the fiducial volume and the outer radius are applied.",
  ["inputs","configurations"],"all bin contents and event values within the bound; command lines covering every option, several forms of path and 1 to 3 input files",
  "no test runs a script",
  ["echidna/scripts/dump_scaled.py","echidna/scripts/dump_shifted.py","echidna/scripts/dump_shrink.py","echidna/scripts/rebin.py","echidna/scripts/combine_hdf5.py","echidna/scripts/dump_smeared.py","echidna/scripts/dump_smeared_energy.py","echidna/scripts/dump_spectra_ntuple.py","echidna/scripts/dump_spectra_root.py","echidna/scripts/multi_ntuple_spectrum.py"],
  [("main / __main__","each script")],(),["the HDF5 files written"])
p("C33","Fits with pre-made spectra use the spectrum stored for each set of values",
  "A fit that uses pre-made convolved spectra takes, for every background and the signal and for each set of values of the global parameters, the contents of the file that stores the convolution with exactly those values: in the directory given, or the spectrum's own, under the dimension and kind of each parameter, with each value and its unit in the name (replacing a value of that unit already there). It is scaled to the number of decays of the background (or its rate) and restricted and rebinned like any other. Different values have different files; a directory set later, with or without a trailing slash, counts from then on; a file that is not there is reported. Spectra made by the dump scripts give the same expectation as convolving during the fit.",
  ["inputs","configurations","histories"],"all contents and numbers of decays; one to three global parameters of every kind; many forms of file name and directory; points visited repeatedly and in any order",
  "no test uses pre-made spectra",
  [F,PA],[("load_pre_made","Fit.load_pre_made, set_pre_made_dir"),("get_pre_convolved","ResolutionParameter, ScaleParameter, ShiftParameter .get_pre_convolved")],(),["Fit._funct","compute_statistic"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as fh:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        fh.write(json.dumps(q)+"\n")
print(len(P))
