"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
V='PyAnEn/Verify.py'; VE='PyAnEn/VerifyEnsemble.py'; VD='PyAnEn/VerifyDeterm.py'; VP='PyAnEn/VerifyProb.py'
VG='PyAnEn/VerifyProbGaussian.py'; VGa='PyAnEn/VerifyProbGamma.py'; VH='PyAnEn/VerifyProbGammaHurdle.py'
UV='PyAnEn/utils_verify.py'; UD='PyAnEn/utils_dist.py'; UA='PyAnEn/utils_approximation.py'; US='PyAnEn/utils_ss.py'
UB='PyAnEn/utils_special_boot.py'; UC='PyAnEn/utils_crps.py'; TG='PyAnEn/dist_truncgamma.py'; SG='PyAnEn/utils_significance.py'

p('C01','Scores are means over exactly the chosen averaging axes',
  'For any forecast and observation arrays (floating-point or 64-bit integers) and any choice of averaging axes (none given, one, several, in any order, counted from either end), the bias, absolute error, squared error, RMSE, ensemble spread (max minus min member), ensemble CRPS and Brier score computed without bootstrapping equal the mean (RMSE: the root of the mean) over exactly those axes of the pointwise score, with the remaining axes kept in their original order. With NaN skipping on, missing cells are left out of the mean of errors and spread; with it off, a NaN spreads to exactly the results whose cells contain it. The forecast used for point errors is the collapsed ensemble, the deterministic forecast, or the mean of the predictive distribution.',
  ['inputs','configurations'],'every shape, data, averaging-axis choice, ensemble axis and skip-NaN setting',
  'The tests average one 4-d random array over 13 axis choices for squared error of deterministic forecasts; other classes only compare a slice with itself. No negative axes, no NaN, no degenerate dimensions.',
  [V,VD,VE,VP],[('aggregation of a pointwise score',V+': boot_or_avg'),('pointwise scores',VE+': _error/_sq_error/_ab_error/_spread/_brier/_crps')],
  observe=['return values of error/ab_error/sq_error/rmse/spread/crps/brier'])
p('C02','Bootstrap intervals belong to their own cell and honour the settings',
  'With bootstrapping on, every score (errors, spread, CRPS, Brier, correlation, Brier decomposition, spread-skill, reliability) is a lower/mean/upper triple for each kept cell (or bin) obtained by resampling with replacement only the values of that cell: lower <= upper, all three lie within what that cell\'s own values can produce, a constant cell collapses to its exact value, and the triple brackets the un-bootstrapped value as the number of samples grows. The triple is the first axis (last axis for spread-skill and reliability) and the kept axes follow in original order for every choice of axes, from either end. The configured sample count, repeat count and confidence are honoured: the interval spans the central `confidence` share of the replicate means.',
  ['inputs','configurations'],'every array shape, axis choice, sample count, repeat count, confidence level and random draw',
  'Tests check shapes and that a 100-sample interval brackets the mean for one dataset; they fix confidence at 0.95 and never use negative axes.',
  [V,UV,US,UB],[('vector bootstrap',UV+': boot_vec/boot_arr'),('reliability bootstrap',UV+': _reliability_agg_boot*'),('spread-skill bootstrap',US+': _binned_spread_skill_agg_boot'),('correlation / decomposition bootstrap',UB)],
  observe=['return values with boot_samples set'])
p('C03','Ensemble event probability is the fraction of members not above it',
  'For any ensemble, any position of the ensemble axis (first or last, from either end) and any scalar or per-cell threshold, the default probability of being below the threshold is the number of members less than or equal to it divided by the number of members, and the probability of being over it is one minus that. Hence it lies in [0,1], never decreases as the threshold grows, ignores the order of members, and sharpness reports the same numbers. The Brier score is the squared difference between that probability and the observed event (observation strictly below, respectively strictly over, the threshold). With the kernel-density method chosen, the probability is the mean over the members of the kernel\'s distribution function at the threshold, within the resolution of its sampling grid, provided that grid starts well below the members.',
  ['inputs'],'every ensemble, ensemble-axis position, threshold (ties with members included) and cell',
  'Tests only check that over + below is close to one for 90% of one random array and that two worker counts agree.',
  [UV,VE],[('member counting',UV+': ens_to_prob/ens_to_prob_moments'),('complement',VE+': _cdf'),('observed event',UV+': binarize_obs')],
  observe=['cdf, sharpness, brier of VerifyEnsemble'])
p('C04','Parallel settings never change a result',
  'The number of workers, the map chunk size and the map axis change only how work is distributed: probabilities of ensembles (counting and kernel density) and of Gaussian, Gamma, truncated and hurdle distributions, ranks of untied observations, and the shape and ensemble-axis position of sampled members are the same as in a serial run, cell by cell.',
  ['configurations','schedules'],'every worker count, chunk size, map axis, array shape, threshold, class and truncation mode',
  'Tests compare worker counts for two CDFs and the ensemble probability on one shape each, always with map axis -1 and chunk size 1, and never for the truncated distributions.',
  [UD,UV],[('split / map / concatenate',UD+': _parallel_process'),('per-distribution workers',UD+': wrapper_*'),('ensemble map',UV+': ens_to_prob, rank_histogram')],
  observe=['cdf, rank_hist, prob_to_ens under different pyanen_tqdm_* settings'])
p('C05','Observation ranks count the members below and break ties fairly',
  'For any ensemble, the rank of an observation is one plus the number of members strictly below it when no member equals it; when k members equal it, the rank is drawn uniformly from the k+1 positions starting there, in every cell and on every call independently of what happens in other cells, whatever the parallel settings. With NaN skipping on, exactly the cells with a missing observation or member are NaN; with it off, missing values are refused. The reliability index of a histogram is the sum of absolute deviations of its relative frequencies from the uniform frequency, so a flat histogram scores zero.',
  ['inputs'],'every ensemble and observation, tie pattern, NaN pattern and ensemble-axis position',
  'The tests add 0.1 to the observations so that ties never occur, never use NaN and never call the reliability index.',
  [UV,VE,V],[('ranking and tie breaking',UV+': rankdata/rank_histogram'),('index',V+': reliability_index')],
  observe=['rank_hist of VerifyEnsemble, rank_histogram, Verify.reliability_index'])
p('C06','Reliability diagram bins every case once and averages within bins',
  'For any forecast probabilities and binary observations, each case falls in exactly one of nbins equal-width bins of [0,1] (a probability of exactly 1 in the last bin); for each non-empty bin, in increasing order, the diagram reports the mean forecast probability, the observed frequency and the number of cases, and the counts sum to the number of cases. The outcome counts are those of the observations. With kept axes, the result of each slice equals the diagram of that slice alone (or the call is refused when slices occupy different numbers of bins).',
  ['inputs','configurations'],'every probability/observation array, bin count, threshold side and averaging-axis choice',
  'Tests use uniform random probabilities that fill every bin and compare a slice with itself; boundary probabilities and sparse bins are never reached.',
  [UV,V],[('binning',UV+': _reliability_create_split'),('aggregation',UV+': _reliability_agg_no_boot*')],
  observe=['reliability, reliability_diagram'])
p('C07','Brier decomposition follows its definition and adds up',
  'For any forecast probabilities and binary observations, reliability, resolution and uncertainty are the sample-weighted sums over the 20 equal-width probability bins of the squared gaps between bin-mean forecast and bin-mean observation, between bin-mean and overall observed frequency, and the variance of the overall frequency, computed separately for each kept cell in original axis order. All three are non-negative, and reliability - resolution + uncertainty equals the Brier score whenever each occupied bin holds a single forecast value.',
  ['inputs','configurations'],'every probability/observation array and averaging-axis choice',
  'Tests check the identity within 0.01 on two datasets that fill all bins.',
  [UB,VE,VP],[('decomposition',UB+': _func_brier_decomp'),('axis handling',UB+': _workflow')],
  observe=['brier_decomp'])
p('C08','Spread-skill bins cases by spread and loses none',
  'For any forecast, the cases of each kept cell are ordered by ensemble (or distribution) variance and cut into nbins consecutive groups whose sizes differ by at most one, larger groups first; each bin reports the root of the mean variance and the root of the mean squared error of exactly its cases, variance and error of a case staying together. Spread is therefore non-decreasing over bins and the size-weighted mean of squared skill equals the overall mean squared error. Asking for more bins than cases is refused.',
  ['inputs','configurations'],'every variance/error array, bin count and averaging-axis choice',
  'Tests compare shapes and a slice with itself; the pairing of variance and error and the bin sizes are never checked.',
  [US,VE,VP],[('ordering and splitting',US+': _binned_spread_skill_create_split'),('aggregation',US+': _binned_spread_skill_agg_no_boot')],
  observe=['binned_spread_skill (method and function)'])
p('C09','Correlation is Pearson correlation over exactly the chosen axes',
  'For any forecast and observations and any averaging axes (in any order, from either end), the correlation of each kept cell is the Pearson correlation of that cell\'s own forecast/observation pairs, each forecast value staying paired with its observation, kept axes in original order. It lies in [-1,1], is symmetric and unchanged by positive linear rescaling. With NaN skipping on, pairs with a missing member are left out (bootstrapped or not).',
  ['inputs','configurations'],'every array pair, axis choice and NaN pattern',
  'Tests only check that a bootstrap interval brackets the value on random, uncorrelated data.',
  [UB,VD,VE,VP],[('correlation',UB+': corr/_func_corr/_workflow')],observe=['corr'])
p('C10','IOU is the overlap of forecast and observed event areas',
  'For any forecast and observations, the deterministic IOU over any averaging axes is the number of cells where both forecast and observation are strictly beyond the threshold divided by the number where either is, and NaN when neither ever is; a missing value counts as event-free. The probabilistic IOU is the same with the forecast event defined by its probability being strictly beyond the probability threshold, for each of the four over/below combinations.',
  ['inputs','configurations'],'every array pair, threshold, side, probability threshold and averaging-axis choice',
  'Tests check three hand-made arrays with `over` on the full average only; probabilistic IOU is never called.',
  [UV,VE,VP,VD],[('IOU',UV+': _iou/iou_determ/iou_prob')],observe=['iou_determ, iou_prob'])
p('C11','ROC curve is monotone, anchored, and its area counts ordered pairs',
  'For any forecast probabilities and observed events with at least one event and one non-event, the ROC curve starts at (0,0), ends at (1,1), is non-decreasing in both rates, and each point is the false-alarm and hit rate of some probability threshold, every corner of the full curve included. The area equals the fraction of event/non-event pairs in which the event had the higher probability, ties counting one half. With NaN skipping on, cases with a missing probability are ignored.',
  ['inputs'],'every probability/observation array, threshold and side',
  'No test calls the ROC metric.',[UV,VE,VP],[('ROC',UV+': calculate_roc')],observe=['roc'])
p('C12','CRPS equals the integrated squared CDF error',
  'The pointwise CRPS of an ensemble equals mean |member - obs| minus half the mean |member - member|, and that of a Gaussian, zero-truncated Gaussian, shifted Gamma (evaluated on non-negative values, observation non-negative) or hurdle forecast equals the integral over thresholds of the squared difference between the forecast\'s own probability of not exceeding the threshold and the observation\'s step. It is finite and non-negative for all positive standard deviations, including very sharp forecasts, and splitting the ensemble computation along the first axis gives the same numbers for either ensemble-axis position.',
  ['inputs','configurations'],'every forecast parameter set, observation (inside, on and beyond the truncation point), ensemble and ensemble axis',
  'Tests compare the average Gamma CRPS with a numerical integral for one unshifted parameter range and check shapes; truncated Gaussian and ensemble CRPS values are never checked.',
  [UC,VE,VG,VGa,VH],[('Gamma closed form',UC+': crps_gamma'),('truncated Gaussian closed form',UC+': crps_truncated_gaussian'),('ensemble',VE+': _crps')],observe=['crps'])
p('C13','Forecast CDFs are proper and match their distribution parameters',
  'For Gaussian, Gamma and hurdle forecasts, the reported probability of being below a threshold is the distribution function with the given parameters (mean and standard deviation; Gamma shifted by `shift`; hurdle: 1-pop at zero plus pop times the Gamma function above it), for scalar and per-cell thresholds: within [0,1], non-decreasing in the threshold, and over = 1 - below. Truncation at zero yields the conditional distribution given a non-negative value: zero at and below zero, and (F(x)-F(0))/(1-F(0)) above, also where that value is far in the tail (Gamma: as long as the chance of a non-negative value is above 1e-300). The probability integral transform is that function at the observation; for observations exactly zero it lies between zero and that value when randomisation is on and equals it when off.',
  ['inputs','configurations'],'every parameter set, threshold, truncation mode and observation',
  'Tests check CDF(mean)=0.5 for one Gaussian array and shapes; truncated CDFs through the verifiers and PIT values at zero are never checked.',
  [UD,TG,VP,VG,VGa,VH],[('CDFs',UD+': cdf_*'),('truncated Gamma',TG),('PIT',VP+': _pit')],observe=['cdf, pit, rank_hist (no sampling)'])
p('C14','Sampled ensembles follow the forecast distribution and layout',
  'Sampling members from a Gaussian or Gamma forecast gives an array with the requested number of members on the requested axis and the observation axes in order otherwise; the share of members at or below any value agrees, in every cell, with the forecast\'s own probability within sampling error. Cells and calls draw separately, whatever the parallel settings. Truncated forecasts produce no negative members, and with a clip value every member below it becomes exactly zero and no other member changes. Spread and rank histogram of a sampled forecast are taken across the sampled members wherever that axis was put.',
  ['inputs','configurations'],'every parameter set, member count, axis position, truncation and clip setting, worker count',
  'Tests only check the sampled shape for one axis position.',
  [UD,TG,VP,VG,VGa],[('sampling',UD+': sample_dist_*'),('clip',VG+': _prob_to_ens'),('spread / ranks',VP+': _spread/_rank_hist')],observe=['prob_to_ens, spread, rank_hist'])
p('C15','Numerical integration is exact on its grid, whatever the schedule',
  'The integrated mean, variance and CRPS equal the trapezoid sums, over the evenly spaced grid of the given (or default) range, of the forecast\'s own probabilities at the grid points, cell by cell. The value does not depend on the number of workers, the order in which parallel evaluations finish, or the memory-saving mode.',
  ['schedules','inputs','configurations'],'every completion order of the parallel evaluations, memory mode, grid, forecast and observation',
  'Tests compare one run of four workers with the serial one; completion order is whatever the machine produced, and the values are only compared with a tolerance on fine grids.',
  [UA,VH],[('evaluation and reordering',UA+': _crps/_mean/_variance, _ray_to_iterator'),('memory mode',UA+': _memmap_sum_mul')],
  state=[('grid results','result of each grid point, by index',UA)],observe=['Integration.mean/variance/crps; f_determ/variance/crps of VerifyProbGammaHurdle'])
p('C16','Integration leaves settings, files and workers as it found them',
  'After a numerical integration ends, normally or because evaluating the forecast fails at any grid point, every setting reads as it did before, no scratch file of the integration remains, and the worker pool is stopped, so that the next integration works and gives the correct value. This holds for every worker count and in both memory modes.',
  ['fault_sequences','configurations'],'every failing grid point, worker count, memory mode and sequence of failing and succeeding integrations',
  'No test lets an evaluation fail.',[UA],[('settings backup / restore',UA+': _suppress_sublevel_tqdm/_resume_sublevel_tqdm'),('scratch file',UA+': _initialize_memmap/_finalize_memmap'),('worker pool','ray.init/ray.shutdown in '+UA)],
  state=[('settings','process-wide options','os.environ'),('scratch file','memory-mapped grid results','memmap directory')],observe=['os.environ, directory listing, ray state after the call'])
p('C17','Saved results never answer a different question',
  'With saving on, a metric call returns what the same call returns without saving, for every history of calls and changes of averaging axes and bootstrap settings, whether the verifier starts from scratch or reuses a directory: results saved for other thresholds, bin counts, axes or metrics are never returned in their place. Starting from scratch, re-enabling saving from scratch, or disabling saving makes earlier saved results invisible, while reusing a directory returns a saved result of the same call instead of recomputing it. Results for thresholds with more than five values are not saved unless a literal name is given.',
  ['histories','inputs'],'every sequence of constructions, setter calls and metric calls over shared directories, every threshold and bin count',
  'Tests check the existence of four file names after a single call each.',
  [V,VE,VP],[('names',V+': to_name'),('load / compute / save',V+': _metric_workflow_*'),('scratch handling',V+': _validate_saving')],
  state=[('saved results','pickled intermediate per name','working directory')],observe=['metric return values; working directory content'])
p('C18','An interrupted save never poisons a later run',
  'If a run that saves results is killed, or a write fails, at any point, a later run reusing the directory returns the same results as one that was never interrupted: it neither fails on nor returns a partial saved result. A result whose call returned before the interruption is still there.',
  ['crash_points','fault_sequences'],'every byte and file operation at which the process is killed or a write fails',
  'No test interrupts a run.',[V],[('saving',V+': _save'),('loading',V+': _load')],
  state=[('saved result file','complete pickle or absent','working directory')],observe=['metric return values of a resumed verifier'])
p('C19','Runs sharing a directory do not corrupt each other',
  'Two runs using the same directory at the same time, as scratch space for numerical integration or as the place for saved results, each return the value they would return alone, for every interleaving of their steps, as long as neither is told to wipe that directory (starting from scratch) while the other is running; neither sees a half-written result nor loses its scratch data.',
  ['schedules'],'every interleaving of the file steps of two runs in one directory',
  'No test runs two computations at once.',[UA,V],[('scratch file naming',UA+': _initialize_memmap'),('save / load',V+': _save/_load')],
  state=[('scratch file','memory-mapped grid results','memmap directory')],observe=['return values of both runs'])
p('C20','Reconfiguring a verifier equals building it anew',
  'After any sequence of setter calls (averaging axes, bootstrap, saving, ensemble axis, collapse function, truncation, member count, clip, sampled axis, bins, integration range), every metric gives the result of a new verifier constructed with the final settings, and each setter returns the verifier itself.',
  ['histories'],'every sequence of setter calls and metric calls in between',
  'Tests use two setters, each checked through the shape of a single metric.',
  [V,VE,VP,VH],[('setters',V+', '+VE+', '+VP+', '+VH+': set_*'),('derived state',VE+': _collapse_ensembles')],
  state=[('collapsed forecast','deterministic form of the ensemble',VE)],observe=['metric return values after setter histories'])
p('C21','Metrics do not modify inputs and are repeatable',
  'No metric or utility call changes the forecast or observation arrays it was given, or any array returned earlier, and changing a returned array does not affect later results. Repeating a deterministic call, on the same or an equal verifier, with any other calls in between, gives the same value, whatever the memory layout or writability of the arrays.',
  ['histories','inputs'],'every sequence of calls, array layout (strided, transposed, read-only) and dtype',
  'No test looks at its inputs after the call; several even depend on inputs being reordered in place without noticing.',
  [V,VE,VP,UV,US,UB],[('copies','_f_determ and fresh arrays in '+VE+', '+VP),('in-place sorting',US+': _binned_spread_skill_create_split')],observe=['input arrays before/after every call'])
p('C22','Diebold-Mariano test follows its definition',
  'For any three equally long series, horizon h and criterion (MSE, MAD, MAPE, power), the statistic is the mean loss difference over the root of its long-run variance (autocovariances up to lag h-1, each averaged over its available pairs, over n) times the Harvey small-sample factor, and the p-value is the two-sided Student-t tail with n-1 degrees of freedom. Exchanging the two forecasts flips the sign of the statistic and keeps the p-value. Horizons below 1 or not below n, unequal lengths and unknown criteria are refused.',
  ['inputs'],'every series triple, horizon, criterion and power','No test calls it.',
  [SG],[('test',SG+': diebold_mariano_test')],observe=['(statistic, p-value)'])
p('C23','Grid and station files are written and read faithfully',
  'Writing a grid matrix produces the dimensions and every element, row by row, so that reading the text back gives exactly the same matrix (missing values included), and an existing file is never touched unless overwriting was requested. Opening an analog dataset keeps all values, decodes character names whole, attaches the matching coordinates, sets time units, and names the test-time dimension uniformly; station coordinates come back in file order. Opening the files of several ranks as one (also a group of them) presents every station once, ordered by rank and then as in its file, each with its own values and location.',
  ['inputs','histories'],'every matrix, file state and sequence of writes; every dataset layout',
  'No test touches these modules.',['PyAnEn/Grid.py','PyAnEn/IO.py'],[('writer','PyAnEn/Grid.py: write_matrix'),('reader','PyAnEn/IO.py: open_dataset, open_mfdataset')],observe=['file content; returned dataset'])
p('C24','Ill-posed requests are refused, not answered',
  'A verifier cannot be built, nor reconfigured, from forecasts and observations whose shapes do not match, from missing distribution parameters, from an ensemble axis that is not first or last or leaves other dimensions mismatched, from averaging axes that the data do not have or that repeat, or from settings of the wrong kind; the ensemble axis is inferred (last before first) only when the remaining axes match. A threshold metric given both or neither of over and below is refused by every class, as are forecast probabilities of per-cell thresholds whose shape does not fit, and metrics that a class does not define raise a not-implemented error rather than return a value.',
  ['inputs','configurations'],'every shape combination, parameter omission, class and metric','Tests check eight unimplemented metrics of one class.',
  [V,VD,VE,VP,VG,VGa,VH],[('validation','_validate* in '+V+' and subclasses'),('axis inference',VE+': _guess_ensemble_axis'),('abstract metrics',V)],observe=['exceptions'])
p('C25','Settings chosen by the user win and are read at call time',
  'Importing the package keeps every option the user already set in the environment and fills in the documented default for every other one. A later change of an option (probability method, NaN skipping, bootstrap repeats and confidence, integration range multiplier) takes effect at the next call, on existing verifiers too, and explicit arguments override options; the scratch file of a memory-saving integration lies in the directory given as argument, else in that of the option, else in that of the verifier, else in the current one.',
  ['configurations','histories'],'every subset of pre-set options and every sequence of option changes','Tests set options but never check that they are honoured.',
  ['PyAnEn/__init__.py',UV,UB,US,UA],[('defaults','PyAnEn/__init__.py: Defaults'),('readers','os.environ lookups')],
  state=[('settings','process-wide options','os.environ')],observe=['os.environ after import; metric results after changes'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
