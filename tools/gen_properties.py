"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe, hook_needed=None)))
V='PyAnEn/Verify.py'; VD='PyAnEn/VerifyDeterm.py'; VE='PyAnEn/VerifyEnsemble.py'; VP='PyAnEn/VerifyProb.py'
VG='PyAnEn/VerifyProbGaussian.py'; VGA='PyAnEn/VerifyProbGamma.py'; VH='PyAnEn/VerifyProbGammaHurdle.py'
UV='PyAnEn/utils_verify.py'; UD='PyAnEn/utils_dist.py'; UC='PyAnEn/utils_crps.py'; UA='PyAnEn/utils_approximation.py'
UB='PyAnEn/utils_special_boot.py'; US='PyAnEn/utils_ss.py'; UG='PyAnEn/utils_significance.py'; TG='PyAnEn/dist_truncgamma.py'
IO='PyAnEn/IO.py'; GR='PyAnEn/Grid.py'

p('C01','Saving intermediate results never changes the value of any metric',
  'For every sequence of metric calls and reconfigurations on a verifier that saves to a working directory (starting from scratch, the default), each returned value equals what a fresh verifier with the same configuration that saves nothing returns. A second verifier that reuses such a directory for the same data without starting from scratch also returns those values, even when its averaging axes, bootstrapping or metric arguments (thresholds as scalars or arrays, bin counts) differ from the ones used before. Results of calls with different arguments are never mistaken for one another.',
  ['histories','configurations'],
  'All histories of metric calls, setter calls, saving on/off, and resumption by a second verifier, over all verifier classes.',
  'Tests save one or two metrics once; staleness needs a particular order of calls with changes of axis, bootstrapping, collapse function, member count or threshold in between.',
  [V,VE,VP,VD,VH],[('saved file naming','Verify.to_name'),('load-or-compute workflow','Verify._metric_workflow_1/2/3'),('directory wipe on reconfiguration','Verify._validate_saving')],
  ['return values of the metric methods','content of the working directory'],
  [dict(name='working directory',meaning='one pickle per metric and argument combination',where='Verify._save/_load')])
p('C02','A run killed at any instant can be resumed from its working directory',
  'If a process that saves results to a working directory is killed at any point, with any part of its last write having reached the disk, a later verifier on the same directory that does not start from scratch computes every metric without error and with the same values as an uninterrupted run. Results whose computation finished and was saved before the kill are reused, not lost.',
  ['crash_points','histories'],
  'Every file-system operation (before, after and torn inside each write) of histories of saving metric calls.',
  'Tests never kill the process; a torn file only appears when the kill lands inside one particular write.',
  [V],[('temporary file and atomic replacement','Verify._save'),('loading','Verify._load')],
  ['metric values of the resuming process','files in the working directory'])
p('C03','Number of workers, chunk size, split axis and completion order change nothing',
  'Every deterministic metric (probabilities, sharpness, Brier score, rank histogram without ties, PIT, mean, variance and CRPS by numerical integration, and all that build on them) has the same value for every number of worker processes, chunk size and parallelization axis, with or without the memory-saving integration mode, and for every order in which the workers complete their tasks. This holds for scalar and for array-valued thresholds and for every supported distribution, truncated or not.',
  ['schedules','configurations','inputs'],
  'All completion orders of the tasks of small grids, all worker counts 1..3, chunk sizes, parallelization axes, distributions and thresholds.',
  'Tests compare one parallel run against one serial run; an ordering or reassembly mistake needs an unfavourable completion order or a non-default axis or chunk size.',
  [UD,UV,UA],[('split, map, concatenate','utils_dist._parallel_process'),('reordering of completed integration bins','Integration._crps/_mean/_variance')],
  ['return values'])
p('C04','Random members and tie breaks of parallel runs are independent everywhere',
  'With more than one worker, randomly sampled members and randomly broken rank ties are not copies of each other at different locations, members or repeated calls, whichever worker processes which location. Seeding the global numpy random generator before a call makes the result reproducible for every assignment of tasks to workers and every completion order.',
  ['schedules','configurations'],
  'All assignments of tasks to 2-3 workers and all completion orders for small grids; all sampling distributions and rank tie breaking.',
  'Whether workers share a random state depends on which worker takes which task; tests look at a single schedule and only at array shapes.',
  [UD,UV],[('per-task seeds','utils_dist.call_with_seed/add_seeds'),('parallel sampling','utils_dist.sample_dist_*')],
  ['sampled members','rank histogram values'])
p('C05','A metric aggregated over any axes equals the metric of each slice alone',
  'For every metric that operates along axes (bias, MAE, MSE/RMSE, spread, CRPS, Brier score and its decomposition, correlation, both IOUs, binned spread-skill), the value at each kept index equals the value of the same metric on only that slice of the data, and aggregating over no explicit axes pools everything. Any spelling of the same set of axes (single integer, list, tuple, negative numbers, any order) gives the same result, with the kept dimensions in their original order. With bootstrapping, the interval at a kept index depends only on the data of that slice.',
  ['inputs','configurations'],
  'All subsets and spellings of axes of 1-3 dimensional arrays, with and without bootstrapping, for all axis-aware metrics.',
  'Tests use a few fixed axis tuples and mostly check shapes; a wrong transpose is invisible when dimensions have equal length or data are symmetric.',
  [V,UV,UB,US],[('nan-aware averaging','Verify.boot_or_avg'),('axis moves before bootstrapping','utils_verify.boot_arr'),('transpose workflow','utils_special_boot._workflow'),('spread-skill split','utils_ss._binned_spread_skill_create_split')],
  ['return values and shapes'])
p('C06','Bias, MAE, MSE, RMSE, spread, variance and correlation follow their definitions',
  'For every forecast type, bias is the mean of forecast minus observation, MAE and MSE the means of its absolute value and square, RMSE the root of MSE, and correlation the Pearson coefficient, all with the deterministic forecast of that type (the values themselves, the collapsed ensemble, or the distribution mean). Ensemble spread is the largest minus the smallest member and variance the population variance over members, whichever of the first or last axis holds the members and however that axis is given or left to be detected. Predictive variance of parametric forecasts is the squared standard deviation.',
  ['inputs','configurations'],
  'All small forecast/observation arrays over a value alphabet, all positions and spellings of the member axis, several collapse functions.',
  'Tests compare a few random arrays; sign, axis and aggregation mistakes on particular shapes or member positions go unnoticed.',
  [VD,VE,VP,VG,VGA,UB],[('error definitions','VerifyDeterm/VerifyEnsemble/VerifyProb._error/_sq_error/_ab_error'),('member axis detection','VerifyEnsemble._guess_ensemble_axis'),('correlation','utils_special_boot._func_corr')],
  ['return values'])
p('C07','Threshold probabilities form a valid cumulative distribution',
  'For every forecast type the probability of staying below a threshold lies in [0, 1], never decreases with the threshold, and together with the probability of exceeding it sums to one; sharpness is the same quantity. It equals the fraction of members not above the threshold for ensembles (with the default counting method) and the distribution function for (zero-truncated) Gaussian, shifted gamma (also truncated at zero, with a non-positive shift) and gamma-hurdle forecasts, including zero below the truncation point or below zero rain. A threshold array is applied element by element and a scalar threshold to every element.',
  ['inputs','configurations'],
  'All combinations of small parameter and threshold alphabets, including thresholds tied with members, at and below zero, and far tails; all member axes.',
  'Tests evaluate a few thresholds away from boundaries, ties and truncation points.',
  [VE,VG,VGA,VH,UV,UD,TG],[('member counting','utils_verify.ens_to_prob_moments'),('distribution functions','utils_dist.cdf_*'),('complement','_cdf of each class')],
  ['return values of cdf and sharpness'])
p('C08','Brier score and its decomposition measure the stated event probabilities',
  'The Brier score is the mean squared difference between forecast event probability and event occurrence, where the event is the observation strictly above (or strictly below) the threshold. Its decomposition returns reliability, resolution and uncertainty computed over twenty equal-width probability bins (a probability on an edge belongs to the bin above it): uncertainty is the variance of the event indicator, all three are non-negative, and reliability minus resolution plus uncertainty equals the Brier score whenever forecasts within a bin coincide.',
  ['inputs','configurations'],
  'All small ensembles/observations over a value alphabet with ties and all thresholds over and below, all forecast types, all axes.',
  'Tests check one random data set; binning edges, ties with the threshold and degenerate event frequencies need specific inputs.',
  [V,VE,VP,UV,UB],[('event indicator','utils_verify.binarize_obs'),('decomposition','utils_special_boot._func_brier_decomp')],
  ['return values of brier and brier_decomp'])
p('C09','CRPS equals the integrated squared distance of forecast and observed CDFs',
  'For every forecast type (ensemble, Gaussian, zero-truncated Gaussian, zero-censored shifted gamma) the per-element CRPS equals the integral of the squared difference between the forecast distribution function and the step function at the observation. It is non-negative, finite for all finite parameters in the supported range, and for ensembles independent of member order, member axis and of whether it is computed slice by slice along the first axis.',
  ['inputs','configurations'],
  'All combinations of small parameter and observation alphabets, incl. observations at and below zero, ties and large shape parameters; all member axes and the split mode.',
  'Tests compare a handful of values against a few reference numbers.',
  [VE,VG,VGA,UC],[('closed forms','utils_crps.crps_gamma, crps_truncated_gaussian'),('ensemble CRPS','VerifyEnsemble._crps')],
  ['return values of crps'])
p('C10','Ranks: observation position among the members, ties broken fairly, PIT in [0,1]',
  'Without ties, the rank at each location is one plus the number of members below the observation. With k members tied to the observation every one of the k+1 candidate ranks is equally likely and nothing else can occur, at every location, also when all locations are tied, independently of the member axis. The probability integral transform equals the forecast distribution function at the observation, except that exact zeros are drawn between zero and that value when such randomization is on.',
  ['inputs','configurations','schedules'],
  'All small ensembles and observations over an alphabet with ties, all random tie outcomes, all member axes, serial and parallel.',
  'Tests use continuous random data in which ties never occur and check only counts.',
  [UV,VE,VP],[('ranking and tie break','utils_verify.rankdata'),('rank histogram','utils_verify.rank_histogram'),('PIT','VerifyProb._pit')],
  ['return values of rank_hist and pit'])
p('C11','Reliability diagrams report bin means, event frequencies and counts faithfully',
  'For pooled data the reliability diagram lists, for each non-empty equal-width probability bin in ascending order, the mean forecast probability, the observed event frequency and the number of pairs, plus the number of non-events and events; every pair is counted exactly once, including forecasts of exactly zero and one. The reliability index of a rank histogram is the summed absolute deviation from the flat histogram, zero exactly for a flat one, whether counts or frequencies are given.',
  ['inputs','configurations'],
  'All small probability/event arrays, all bin counts up to a bound, over and below thresholds; all small histograms.',
  'Tests compare with one reference on random data; bin-edge and empty-bin behaviour need specific probabilities.',
  [UV,V],[('binning','utils_verify._reliability_create_split'),('aggregation','utils_verify._reliability_agg_no_boot'),('index','Verify.reliability_index')],
  ['return values of reliability and reliability_index'])
p('C12','ROC area and intersection-over-union follow their definitions',
  'The ROC curve runs from (0,0) to (1,1) without decreasing, and its area equals the probability that an event received a higher forecast probability than a non-event, ties counting one half. Intersection-over-union is the number of elements where both forecast and observed events occur divided by the number where at least one does, with strict thresholds on the deterministic forecast or on the forecast probability.',
  ['inputs','configurations'],
  'All small probability/event arrays with at least one event and one non-event; all thresholds over and below; all axes for IOU.',
  'Tests check single random data sets; tied probabilities and strictness need specific inputs.',
  [UV,VE,VP,VD],[('ROC','utils_verify.calculate_roc'),('IOU','utils_verify._iou/iou_determ/iou_prob')],
  ['return values of roc, iou_determ and iou_prob'])
p('C13','Binned spread-skill groups pairs by spread without losing or mixing any',
  'Binned spread-skill sorts the pairs of each slice by predictive variance, splits them into the requested number of consecutive bins whose sizes differ by at most one (larger ones first), and reports per bin the root of the mean variance and the root of the mean squared error of exactly those pairs. Every pair is used once and stays paired with its own error, for every choice of pooled axes.',
  ['inputs','configurations'],
  'All orderings of distinct variances over small arrays, all bin counts, all axis subsets, ensembles and parametric forecasts.',
  'Tests check shapes for one configuration; mis-pairing needs particular orderings.',
  [US,VE,VP],[('sorting and splitting','utils_ss._binned_spread_skill_create_split'),('aggregation','utils_ss._binned_spread_skill_agg_no_boot')],
  ['return values of binned_spread_skill'])
p('C14','Computing metrics never alters user data, settings or earlier results',
  'No metric call, in any order and configuration, modifies the forecast and observation arrays, threshold arrays or settings the user supplied, nor values returned by earlier calls. Modifying a returned result does not affect later calls, and repeating a deterministic call gives the same value.',
  ['histories','inputs','configurations'],
  'All pairs and triples of metric calls for all verifier classes, with writable inputs, with and without saving, serial and parallel.',
  'Tests never look at the inputs after a call; in-place effects appear only for memory layouts and call orders where no copy happens to be made.',
  [V,VE,VP,VD,UV,US,UD],[('copies','_f_determ, utils_ss._binned_spread_skill_create_split')],
  ['input arrays after calls','environment settings','return values'])
p('C15','A finished or failed numerical integration leaves nothing behind',
  'After a numerical integration of mean, variance or CRPS returns or fails at any point (an exception in any evaluation, an unusable scratch directory, a failing worker), all settings have the meaning they had before, no scratch file remains, no parallel runtime started by it keeps running, and the same verifier then computes correct results. A parallel runtime that the user had started beforehand is not shut down by a failing start.',
  ['fault_sequences','configurations'],
  'A fault at every evaluation step of every integral, in serial, parallel and memory-saving mode, from every initial setting.',
  'Tests only run integrations that succeed.',
  [UA,VH],[('clean-up','Integration._workflow'),('settings backup','Integration._suppress_sublevel_tqdm/_resume_sublevel_tqdm'),('scratch file','Integration._initialize_memmap/_finalize_memmap')],
  ['environment settings','scratch directory','results after the fault'])
p('C16','Processes sharing a directory at the same time do not disturb each other',
  'When two processes compute and save metrics of the same data into one shared working directory without starting from scratch, or run memory-saving integrations with one scratch directory, both finish without error and obtain the values they obtain alone, for every interleaving of their file operations. Afterwards the directory holds only complete results.',
  ['schedules','histories'],
  'All interleavings of the file-system operations of two real processes up to a preemption bound.',
  'Tests run one process at a time.',
  [V,UA],[('atomic replacement','Verify._save'),('unique scratch file','Integration._initialize_memmap')],
  ['return values in both processes','directory content afterwards'])
p('C17','A reconfigured verifier behaves like a freshly built one',
  'After any sequence of setter calls (averaging axes, bootstrapping on/off, member axis, collapse function, sampled member count and axis, member clipping, truncation, bins, integration range, saving on/off) interleaved with metric calls, every metric equals that of a new verifier constructed with the final configuration. Setters return the verifier itself so that calls can be chained.',
  ['histories','configurations'],
  'All setter/metric histories up to a bounded depth from every reachable configuration, for all verifier classes.',
  'Tests set each option once right after construction; stale derived state needs a metric or setter before the change.',
  [V,VE,VP,VH],[('setters','set_* methods'),('derived state','VerifyEnsemble._collapse_ensembles')],
  ['return values after reconfiguration'])
p('C18','Missing observations are ignored exactly when the user asks for it',
  'With the skip-missing setting on, bias, MAE, RMSE, CRPS, Brier score and its decomposition, correlation, reliability, ROC and rank histogram of data with missing observations equal the same metrics of the data with those pairs removed (ranks are missing exactly there). With it off, a missing observation makes the affected averages of bias, MAE, MSE, CRPS and Brier score missing instead of silently biasing them, and leaves slices without missing observations unchanged.',
  ['inputs','configurations'],
  'Every subset of missing positions in small arrays, for all forecast types and axes.',
  'Tests have one fixed pattern of missing values and only a few metrics.',
  [V,UV,UB,VE],[('nan-aware means','Verify.boot_or_avg'),('masking','utils_verify.calculate_roc, binarize_obs, _remove_missing; utils_special_boot._func_*')],
  ['return values'])
p('C19','The Diebold-Mariano test compares two forecasts without bias',
  'The test returns the Harvey-adjusted Diebold-Mariano statistic of the chosen loss differential with the standard autocovariance estimate for the forecast horizon, and its two-sided Student-t p-value in [0, 1]. Exchanging the two forecasts flips the sign of the statistic and keeps the p-value; array shape does not matter, and differing lengths, horizons outside 1 to n-1 and unknown losses are rejected.',
  ['inputs','configurations'],
  'All small integer series with positive variance estimate, all loss functions, powers and horizons.',
  'Not covered by any test.',
  [UG],[('statistic','utils_significance.diebold_mariano_test'),('autocovariance','utils_significance.autocovariance')],
  ['return values'])
p('C20','Bootstrap intervals are resampled means with the requested confidence',
  'With bootstrapping every averaged metric returns lower bound, mean and upper bound along a leading dimension of three (the last dimension for the binned reliability and spread-skill curves); the bounds are ordered, all three stay within the smallest and largest value being averaged, and they equal the value itself when the population is constant. The bounds are the (1-c)/2 and (1+c)/2 quantiles, for the configured confidence c, of the configured number of resampled values of the configured sample size drawn with replacement from all pooled elements (of each bin for the binned curves; RMSE and binned curves are roots of the intervals of the squared quantity), for plain averages, correlation, decomposition, reliability and spread-skill alike.',
  ['inputs','configurations','schedules'],
  'All small populations, all random index streams of bounded resamples, all confidences, repeats and sample sizes of a small alphabet.',
  'Tests check shapes and one statistical tolerance; a wrong quantile or sampling without replacement passes.',
  [UV,UB,US],[('vector bootstrap','utils_verify.boot_vec/boot_arr'),('slice bootstraps','utils_special_boot._func_*, _reliability_agg_boot_slice, _binned_spread_skill_agg_boot')],
  ['return values with bootstrapping enabled'])
p('C21','Forecast files are read and grid files written without loss',
  'Opening a forecast file yields every variable with its stored values, character matrices turned into names, dimension coordinates attached from their companion variables, times in seconds since 1970 (decoded on request) and the test-time dimension named consistently; station coordinates come back in stored order. A written grid text file contains the dimensions and every value exactly in row order and an existing file is only replaced when overwriting is allowed. Files named by rank get station indices that sort by rank and then by position.',
  ['inputs','configurations'],
  'All combinations of optional dimensions/variables, groups, decode options and name lengths; all small matrices over an alphabet with special values; all rank names.',
  'There is no test for reading or writing files.',
  [IO,GR],[('decoding','IO.open_dataset'),('writing','Grid.write_matrix'),('station index','IO.__add_coords__')],
  ['returned dataset','written file'])
p('C22','Members sampled from a distribution follow it at every location',
  'Sampling n members returns an array with a member axis of length n exactly where configured and the locations elsewhere in their original order; the members of each location follow the distribution of that location (Gaussian, zero-truncated Gaussian, shifted gamma, or the latter truncated at zero with a non-positive shift), serial or parallel. Truncated members are never negative, members below the clipping value become exactly zero and all others are untouched, and rank histogram and spread of sampled members use that member axis.',
  ['inputs','configurations','schedules'],
  'All small grids with distinct parameters per location, all member axes and counts, all split axes; the random stream fixed to chosen quantiles.',
  'Tests check shapes and overall moments for one configuration.',
  [UD,VP,VG,VGA,TG],[('sampling','utils_dist.sample_dist_*'),('clipping','_prob_to_ens')],
  ['return values of prob_to_ens, rank_hist, spread'])
p('C23','Numerical integration converges to the true mean, variance and CRPS',
  'For a gamma-hurdle forecast and an integration range that covers the distribution, the integrated mean, variance and CRPS approach the exact values as bins are added and equal the trapezoid rule on the stated number of equally spaced points of the stated range. The memory-saving mode gives the same values, and enlarging the range below zero changes none of them.',
  ['inputs','configurations'],
  'All combinations of small parameter, observation, bin and range alphabets, serial, parallel and memory saving.',
  'Tests check a few configurations with a loose tolerance.',
  [UA,VH],[('integration','Integration._mean/_variance/_crps'),('range','Integration._define_integration_range')],
  ['return values of f_determ, variance, crps'])
p('C24','Combining the files of a parallel run keeps stations in rank order',
  'Opening the files of one parallel run together yields the stations of all files exactly once, ordered by rank (as a number, however it is padded in the file name) and then by their position in the file, for every order or pattern in which the paths are given and every order in which the files are opened. Lead times and test times are attached as coordinates (from the root group of the first file when the opened group has none), station locations missing in the group are taken from the root groups and belong to the same stations, times are in seconds since 1970 (decoded on request), and the test-time dimension is named as when opening a single file.',
  ['inputs','configurations','schedules'],
  'All small sets of ranks, file name spellings, station counts, path orders, groups with and without their own locations and times, and all orders of opening three files.',
  'There is no test for reading files; the order of stations depends on the set of ranks and on the order of paths.',
  [IO],[('multi-file reading','IO.open_mfdataset'),('station index','IO.__add_coords__')],['returned dataset'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
