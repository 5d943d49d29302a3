TV = 'TLA+ (TLC): trace validation of recorded calls of the real code'
MC = 'exhaustive model checking of the definitions'
BR = 'replay of the behaviours TLC generates into the real code'
MU = 'with mutants of the model that must be rejected'
EX = 'values are recorded as exact rationals (small denominators; a float that is no such rational matches nothing)'
FP = 'values are judged in fixed point (unit 2^-30) at points whose distribution function the specification tabulates'
TR = 'Trusted: TLC, the recorder, the random generators of inputs (bounded sizes).'

def n(tech, note): return (tech, note + ' ' + TR)

NOTES = {
'C01': n(f'{TV} against exact definitions; {MC} on small arrays',
  f'Every recorded answer equals the mean over exactly the chosen axes of the specified pointwise score; {EX}. Definitions are checked on all small inputs (MC_mean, MC_ens).'),
'C02': n(f'{TV}: the triple must lie among those resampling of the own cell can produce; {MC} (MC_boot)',
  'For cells of few cases TLC enumerates every resample; for larger ones bounds and statistical relations (spread of the interval, confidence, share of each case) with thresholds beyond 6 sigma at fixed seeds.'),
'C03': n(f'{TV} against exact definitions; {MC} (MC_ens: all ensembles up to 5 members over small values)',
  f'Probability, sharpness and Brier score of every recorded call equal the counting definition; {EX}. The kernel-density estimate is compared with the tabulated kernel in fixed point.'),
'C04': n(f'TLA+ model of split / chunk / join with any completion order (Parallel.tla), {MU}; {TV} under many parallel settings',
  'All orders and chunkings of the model up to 3 workers; the real pool is driven with many settings and its answers are judged by the same definitions as serial ones, or against the serial answer where the distribution has no exact value.'),
'C05': n(f'{TV} against exact definitions; {MC} (MC_ens)',
  'Untied ranks exactly; tied ranks must be allowed positions and, over many recorded draws, equally frequent and independent between cells (chi-square type bounds beyond 6 sigma, fixed seeds).'),
'C06': n(f'{TV} against exact definitions; {MC} (MC_pairs)', f'Bin membership, bin means and counts for every recorded diagram; {EX}, including probabilities exactly on the bin edges.'),
'C07': n(f'{TV} against exact definitions; {MC} (MC_pairs: non-negativity and the identity with the Brier score)', f'Every recorded decomposition equals the definition for each cell; {EX}.'),
'C08': n(f'{TV} against exact definitions; {MC} (MC_ints)', 'Bins of every recorded diagram, for ensembles exactly, for distributions with the variance of the parameters; where variances tie, any order of the tied cases is allowed.'),
'C09': n(f'{TV} against exact definitions (squared correlation as a rational, sign separately); {MC} (MC_ints)', 'Exact on small cells; bounds, symmetry, invariance and slice-by-slice equality in fixed point on longer series.'),
'C10': n(f'{TV} against exact definitions; {MC} (MC_pairs)', f'All four over/below combinations and every axis choice, missing values included; {EX}.'),
'C11': n(f'{TV} against exact definitions; {MC} (MC_pairs: area = share of ordered pairs)', 'Curve points, corners and area for ensembles exactly; for arbitrary probabilities (differing by one unit in the last place) judged through their ranks, on which alone the curve depends.'),
'C12': n(f'{TV}: ensembles exactly, distributions by integrating the tabulated or recorded distribution function; {MC} (MC_ens, MC_dist)',
  'Ensemble CRPS exactly; parametric CRPS equals a fine Riemann sum of the own cdf (tolerance from the step) and, for sharp or far truncated forecasts, bounds that follow from the definition.'),
'C13': n(f'{TV} against tabulated distribution functions; {MC} of the tables (MC_dist: monotone, symmetric, memoryless, proper)',
  f'{FP}; elsewhere monotone, complementary, conditional and mixture relations between recorded values. One known finding (hurdle below a negative threshold).'),
'C14': n(f'{TV}: shares of members against the tabulated distribution functions', f'{FP}, with sampling bounds beyond 6 sigma at fixed seeds; layout, clip and axis exactly.'),
'C15': n(f'TLA+ model of the evaluations (Integrate.tla) {MU}; {BR}; {TV} of the trapezoid sums', 'Every completion order of up to 5 grid points, both memory modes (through a stand-in for ray that finishes tasks in the chosen order; sampled with the real ray); sums judged in fixed point from the evaluations recorded at the grid points.'),
'C16': n(f'TLA+ model of the evaluations with failures (Integrate.tla) {MU}; {BR}', 'Failure at every grid point and in every order of the model, both memory modes; settings, scratch files and pool are looked at after each, and the next integration must be correct.'),
'C17': n(f'TLA+ model of saved results (Store.tla) {MU}; {BR}; {TV} against exact definitions', 'Exhaustive histories of calls, changes of settings and restarts within the bounds of ST_key; sampled histories are replayed into the real code, every answer judged by the definitions.'),
'C18': n(f'TLA+ model of saving with kills between any two steps (Store.tla) {MU}; {BR} with kills and failing writes at real system calls', 'The killed process is a real one, stopped at file operations; the later run is judged by the definitions.'),
'C19': n(f'TLA+ models of two processes (Store.tla, Integrate.tla), {MU}; {BR} into two real processes stepped in the order of the model', 'All interleavings in the models; in the real code the sampled interleavings of file operations.'),
'C20': n(f'TLA+ model of one verifier and its settings (Config.tla) {MU}; {BR}; {TV}', 'Every answer of the sampled behaviours equals that of the definitions under the present settings, and that of a verifier built with them.'),
'C21': n(f'TLA+ model of buffers and aliases (Alias.tla) {MU}; {BR}', 'After every step of the behaviour, digests of all inputs and earlier results; writes into returned arrays; several memory layouts, read-only inputs.'),
'C22': n(f'{TV} against exact definitions (Student tail as finite sums); {MC} (MC_dm, MC_tail)', 'Statistic exactly (as a squared rational) for short series, in fixed point for long ones and all horizons; p-value through the tail at recorded angles.'),
'C23': n(f'TLA+ model of files (Files.tla) and of datasets (Datasets.tla, all combinations of dimensions and variables) {MU}; {BR}', 'Texts are parsed back and compared digit by digit; datasets written with xarray and reopened.'),
'C24': n(f'TLA+ rules for well-posed requests (Requests.tla, Life.tla) {MU}; {BR}; {TV}', 'All small shapes and axes in the model; sampled requests in the real code must be refused or answered as the rules say.'),
'C25': n(f'TLA+ model of the options (Options.tla) {MU}; {BR} in fresh processes', 'Every order of setting, importing, building and asking within the bounds of OP_all; sampled behaviours in processes that import the package anew.'),
}
