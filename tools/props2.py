prop('C09', 'Log files hold the simulation exactly',
     'With saving to binary or text files on, the files in the save directory, read back with the library\'s readers, are '
     'exactly the parameter, sum-of-squares and (if updated) error variance chains of the simulation, row by row in order, '
     'whatever the simulation length, piece size, file names and directory. The covariance log has one proposal covariance per '
     'piece, ending with the final one, and the index of pieces covers the simulation without gap or overlap. Nothing is '
     'written outside the save directory, or at all when no saving is requested.',
     ['inputs', 'configurations'], 'all simulation lengths, piece sizes, formats, names, numbers of parameters and data sets',
     'Tests write one or two pieces; order, boundaries and shapes depend on length and piece size.',
     [M, CP], [('piece boundaries', M + ':MCMC.__execute_simulator'), ('readers', CP + ':read_in_savedir_files'),
               ('piece order', CP + ':read_in_bin_file')],
     'property-based testing: round trip', 'Bit-exact comparison of what is read back with the results in memory.')
prop('C10', 'An interrupted simulation leaves exactly its completed pieces in the logs',
     'If a simulation with saving on is stopped at any point, by an exception in a user function, a keyboard interrupt or the '
     'end of the process, the log files hold exactly the rows of all completed pieces, the same rows as the uninterrupted '
     'simulation with that seed, in all logs. They are readable with the library\'s readers, the interruption reaches the '
     'caller, and no results file is written.',
     ['crash_points', 'fault_sequences', 'configurations'], 'every call of a user function and every step as point of interruption; all '
     'configurations and piece sizes',
     'Tests never interrupt a simulation.',
     [M, CP], [('saving', M + ':MCMC.__save_to_log_file'), ('append', CP)],
     'property-based testing with fault injection: enumeration of interruption points, differential against the uninterrupted run',
     'Generated interruption points, plus full enumeration of the points of small configurations, each compared with the prefix of '
     'the uninterrupted run.', level='fault_enumeration')
prop('C11', 'Continued simulations extend the chains without touching them',
     'Continuing from previous results keeps all existing rows of all chains, starts exactly at the last row, and appends '
     'nsimu-1 rows, over any number of continuations and with length, method and piece size changed in between; the logs then '
     'hold the whole extended chains. Results returned earlier do not change. A new run without continuation starts over at the '
     'initial values with fresh chains.',
     ['histories', 'configurations'], 'all histories of runs and continuations of at least two simulations each',
     'Tests continue at most once and compare lengths.',
     [M, MP, RS], [('extension', M + ':MCMC.__expand_chains'), ('restart values', MP + ':ModelParameters._results_to_params'), ('log pieces', M)],
     'property-based testing: model-based histories of runs', 'Every appended row is reconciled with the recorded step; logs compared bit-exact.')
prop('C12', 'Results files round-trip and restart simulations where they ended',
     'A results file holds every entry of the results exactly (without the chains if these go to log files), under the requested '
     'name and directory, and loading it gives the same values back, chains included, as arrays. A simulation '
     'restarted from a results file starts at the saved final values of all parameters it samples, keeps its own values for '
     'the others, and uses the saved proposal covariance.',
     ['inputs', 'configurations', 'histories'], 'all configurations, names, directories, and changes of settings before the restart',
     'Tests save and load one configuration.',
     [RS, CP, M, MP, NE], [('export', RS + ':ResultsStructure.export_simulation_results_to_json_file'), ('load', CP + ':load_serial_simulation_results'),
                           ('restart', M + ':MCMC.__setup_simulator')],
     'property-based testing: round trip and restart against the saved run', 'Recursive exact comparison of results and files.')
prop('C13', 'Parallel chains are independent copies of the serial setup',
     'A parallel simulation runs the requested number of chains (as many as initial values given), chain i starting exactly at '
     'the i-th initial values, within the limits and with unsampled parameters at their given value; initial values outside '
     'the limits are refused, and the serial setup and the user\'s array are not modified. Chains draw different random numbers '
     'for any number of processes. Each chain is saved to its own directory, and loading returns all chains, unchanged, in order of their '
     'number; a parallel restart continues each chain where it ended. The statistics displayed per chain '
     'are those of that chain.',
     ['inputs', 'configurations', 'schedules'], 'all parameter sets, initial values, numbers of chains and processes, save options',
     'Tests run two chains of one configuration; order, independence and ownership depend on numbers of chains and processes.',
     [PM, CP, M], [('setup', PM + ':ParallelMCMC.setup_parallel_simulation'), ('pool', PM + ':ParallelMCMC.run_parallel_simulation'),
                   ('loading', PM + ':load_parallel_simulation_results'), ('folder order', CP + ':check_parallel_directory_contents')],
     'property-based testing: generated parallel setups, round trip of files', 'Process pools of 1-3 processes, up to 13 chains.')
prop('C14', 'Invalid setups are refused before sampling, valid ones are accepted',
     'A simulation whose initial value of a sampled parameter lies outside its limits, whose limits cross, whose error variance '
     'settings or observation counts do not fit the sum-of-squares or the data, that has no function to evaluate, an unknown '
     'method, a setting of unusable type, or no previous results to continue, ends with an error before the first step and yields no '
     'results. Setups at the edge of validity (start on a limit, equal limits, unsampled parameters outside their limits, settings given as number, '
     'list or array of length one or matching length) run.',
     ['inputs', 'configurations'], 'all valid configurations with one defect, or moved to an edge',
     'Tests check single defects of one configuration.',
     [MP, MS, M, SO, SS], [('limits', MP + ':ModelParameters._check_parameter_limits'), ('initial values', MP), ('sizes', MS), ('observation counts', MS)],
     'property-based testing: mutation of valid configurations', 'Twelve kinds of defects and nine of edges in generated configurations.')
prop('C15', 'Data sets are kept and the default sum-of-squares is their weighted misfit',
     'Data sets read back as added, as arrays, lists or numbers: values as columns, counts, weights and user objects in order, with the number of batches, of '
     'columns and of observations they imply. With a model function, the sum-of-squares of each data set is the sum of weight times '
     'squared difference between data and model, evaluated at that data set\'s independent values with the full parameter '
     'vector, in every row; the simulation is the same as with an equivalent sum-of-squares function.',
     ['inputs', 'configurations'], 'all data sets (sizes, forms, weights), models and configurations',
     'Tests use one or two data sets of the same shape with unit weight.',
     [DS, SS, MS], [('data sets', DS + ':DataStructure.add_data_set'), ('default sum-of-squares', SS + ':SumOfSquares.mcmc_sos_function')],
     'property-based testing: reference sum-of-squares, differential run', 'Every row recomputed with a compensated sum.')
prop('C16', 'Prior settings have their documented meaning',
     'The prior of the sampled parameters is sum(((theta-mu)/sigma)^2) by default, or the user\'s function of the sampled values, '
     'their means and deviations; an undefined mean stands for the initial value, also after continuing, and a deviation that is '
     'not positive for no prior. A user-defined function equal to the default gives the same simulation.',
     ['inputs', 'configurations', 'histories'], 'all prior settings, mixtures of sampled and unsampled parameters, continuations',
     'Tests check the setup of single parameters.',
     [PF, MP, M], [('default', PF + ':PriorFunction.default_priorfun'), ('mean', MP + ':ModelParameters.setup_prior_mu'), ('deviation', MP)],
     'property-based testing: recorded callback arguments, reference formula, differential run', 'Generated prior settings and histories.')
prop('C17', 'Proposals follow the configured normal distribution',
     'Without adaptation, candidates differ from the current state by independent normal draws with the configured covariance (a '
     'matrix or variances, of which the sampled parameters\' block counts), later tries with the factors of delayed rejection. '
     'By default the variance of a parameter is that of its prior, or the square of 5 per cent of its initial value, or one '
     'if that is zero. The results report this covariance.',
     ['inputs', 'configurations'], 'all covariances, parameter sets, priors, numbers of tries',
     'A distribution in several dimensions for any covariance; tests compare shapes and one factor.',
     [COV, MET, DR], [('initial covariance', COV + ':CovarianceProcedures.setup_covariance_matrix'), ('factor', COV), ('candidate', MET)],
     'property-based testing: reference covariance; DKW bound on whitened candidates (p < 1e-9)', 'Reported covariance exactly, draws statistically.')
prop('C18', 'Chain statistics are those of the chain',
     'For any chain, the statistics reported, displayed and returned are, column by column: the mean, the standard deviation, the batch '
     'mean standard deviation and Monte Carlo error, the integrated autocorrelation time truncated by Sokal\'s rule, and the '
     'Geweke statistic of the first and last parts with its p-value; acceptance is counted from the chain, or per stage '
     'from the results. Parameters are shown in order with their names. The chain is not modified.',
     ['inputs'], 'all chains of at least 40 rows without constant columns; all batch sizes and parts',
     'Tests check finiteness or a single fixed value of some of these statistics.',
     [CS], [('summary', CS + ':chainstats'), ('batch means', CS + ':batch_mean_standard_deviation'), ('geweke', CS + ':geweke'),
            ('autocorrelation time', CS + ':integrated_autocorrelation_time')],
     'property-based testing: reference statistics', 'Every statistic recomputed from its definition by independent code.')
prop('C19', 'Diagnostics over several chains use all of them, after burn-in',
     'For any two or more chains, the Gelman-Rubin diagnostic reports per parameter, under its name, the potential scale reduction, '
     'the between and within chain variances, the pooled variance and the effective sample size as defined by Brooks and Gelman; a single '
     'chain is refused. Given results, the first half of each chain is discarded. Chain lists and combined chains hold '
     'exactly the rows after the requested share of burn-in of every chain, in order, labelled by chain; inputs are not modified.',
     ['inputs'], 'all numbers and lengths of chains, names, burn-in percentages',
     'Tests check types and keys; the numbers depend on the number and length of chains.',
     [CS, CP], [('diagnostic', CS + ':gelman_rubin'), ('factor', CS + ':calculate_psrf'), ('chain list', CP + ':generate_chain_list'),
                ('combined chain', CP + ':generate_combined_chain_with_index')],
     'property-based testing: reference statistics', 'Recomputed with compensated sums from the definition.')
prop('C20', 'Propagated uncertainty is that of the chain and of the observation error',
     'Intervals are computed from model responses at rows of the chain, with all unsampled parameters at their values: all rows in order if '
     'as many samples are requested, else rows drawn uniformly from the whole chain. Predictions add independent normal errors '
     'with the variance of the same row, for the output concerned (on the square root or logarithmic scale where requested), for every form in which '
     'variances may be given. Several outputs are kept apart. Quantiles are the linearly interpolated order statistics. Nothing '
     'passed in is modified.',
     ['inputs', 'configurations'], 'all chains, sampled subsets, response shapes, forms of the variances, error types, sample sizes',
     'Row and variance pairing and the distribution of errors cannot be seen from shapes, which is what tests compare.',
     [PR, PU], [('intervals', PR + ':calculate_intervals'), ('errors', PR + ':observation_sample'), ('rows', PR + ':define_sample_points'),
                ('quantiles', PR + ':generate_quantiles')],
     'property-based testing: recorded model calls, reference responses, DKW bound on standardised errors (p < 1e-9)',
     'Responses compared exactly; errors with variances over eight orders of magnitude statistically.')
prop('C21', 'Interval plots show the quantiles their labels name',
     'For every requested limit, a plot of propagated intervals, over a line or over a path in the plane (3-D), has one band, labelled with it, between the quantiles of the response at '
     '50 - limit/2 and 50 + limit/2 per cent, widest first, predictions behind credible bands, the median response, '
     'and the data at their own positions, each of which can be switched off; without predictions only credible bands are drawn. The user\'s '
     'lists and settings are not modified.',
     ['inputs', 'configurations'], 'all response distributions, limits, settings and flags',
     'Tests check that figures exist.',
     [PR], [('plot', PR + ':plot_intervals'), ('limits', PR + ':_convert_limits')],
     'property-based testing: reference quantiles against drawn artists', 'Vertices of the drawn bands compared with reference quantiles.')
prop('C22', 'Prediction intervals of a simulation cover what their labels name',
     'For every data set and output column, the credible limits are the quantiles of the model responses at the chain\'s rows after burn-in, '
     'each data set evaluated with its own data, user object and model function, and the prediction limits those of responses with normal errors '
     'of the variance belonging to that column or data set and row. Plots show, per data set and column, the intervals computed, as bands labelled with '
     'their probability, with the median and the data. Results and data are not modified.',
     ['inputs', 'configurations'], 'all data sets, columns, sampled subsets, forms of error variances, burn-in, sample sizes and flags',
     'Which variance, row and data set enter a quantile cannot be seen from shapes.',
     [PI, PU], [('quantiles', PI + ':PredictionIntervals.generate_prediction_intervals'), ('variances', PI + ':PredictionIntervals._analyze_s2chain'),
                ('plot', PI + ':PredictionIntervals.plot_prediction_intervals')],
     'property-based testing: recorded model calls, reference quantiles, bound on coverage of predictions (7 deviations)',
     'Two known findings, pinned by existing tests, are listed in KNOWN_FINDINGS.json and recognised by their exact wrong value.')
prop('C23', 'Chain plots show the chain',
     'Panels have one plot per parameter (or pair), in order and labelled with its name (default names where none are given), showing the '
     'chain at evenly spaced rows from the first on, its histogram, or its kernel density over a grid spanning it, with row numbers as positions. The '
     'helpers hold what they name: subplot grids have room for all plots, ellipses lie on the unit contour of the covariance, '
     'bandwidths and ranges are those of the sample, user settings override defaults and neither is modified.',
     ['inputs', 'configurations'], 'all chains, numbers of parameters, names and options',
     'Tests compare single panels of two or three columns.',
     [PL, PU], [('panels', PL), ('subsample', PU + ':setup_subsample'), ('ellipse', PU + ':generate_ellipse'), ('settings', PU + ':check_settings')],
     'property-based testing: reference values against drawn artists', 'Data of every drawn artist compared with the chain.')
prop('C24', 'Custom samplers take part in every step',
     'Every custom sampler is set up once per simulation, before its first step, and updated once after every step, in order, with the number of the step, '
     'whether it was accepted, and the state (values, sum-of-squares, error variance) that the chains hold for it. Every candidate evaluated in the next step, also '
     'in delayed rejection, gets the latest outputs of all samplers in order, if the function takes them. Adding samplers does not change '
     'the chain. Chains they ask to save are logged completely; others are not.',
     ['histories', 'configurations'], 'all configurations, samplers, forms of the sum-of-squares function, piece sizes, repeated and continued runs',
     'Tests run one sampler once and look at its chain.',
     [M, SS, MET, DR], [('setup and update', M + ':MCMC'), ('outputs', SS + ':SumOfSquares.evaluate_sos_function'), ('logs', M + ':MCMC.__save_to_log_file')],
     'property-based testing: protocol automaton over the recorded history of calls', 'Every event of generated simulations is checked.')

prop('C25', 'Results and messages describe the simulation that ran',
     'The results list the settings the latest simulation ran with (names, indices and limits of the sampled parameters, priors, number of simulations, '
     'method, tries, adaptation, scaling and error variance settings, numbers of observations, initial covariance of all parameters) and its outcome (final '
     'values of all parameters, proposal of every try, acceptances per try adding up with the rejections to the number of simulations, running time), each as used '
     'or counted, with the documented defaults for what was not given. The table printed before sampling lists the sampled '
     'parameters in order with start, limits, prior and a mark if excluded from adaptation; with verbosity 2 or more the model, option and '
     'proposal settings are listed as used, and progress is printed at the requested '
     'interval with the percentages rejected so far, in the current interval, and for leaving the limits.',
     ['inputs', 'configurations', 'histories'], 'all configurations, also after continuing',
     'Tests compare key lists of the results, and no test reads the printed output.',
     [RS, M, MP, SO], [('results', RS + ':ResultsStructure'), ('table', MP + ':ModelParameters.display_parameter_settings'),
                        ('progress', M + ':print_rejection_statistics'), ('defaults', SO + ':SimulationOptions.define_simulation_options')],
     'property-based testing: reference values from the setup and the recorded history; printed text parsed back',
     'Every entry and line of generated simulations is checked.')
