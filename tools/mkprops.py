"""Writes properties.jsonl and MANIFEST.json for the properties that have a check (pbt/props/cNN.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, level='exploration'):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, level=level))


M = 'pymcmcstat/MCMC.py'
MET = 'pymcmcstat/samplers/Metropolis.py'
DR = 'pymcmcstat/samplers/DelayedRejection.py'
AD = 'pymcmcstat/samplers/Adaptation.py'
SU = 'pymcmcstat/samplers/utilities.py'
SM = 'pymcmcstat/samplers/SamplingMethods.py'
COV = 'pymcmcstat/procedures/CovarianceProcedures.py'
EV = 'pymcmcstat/procedures/ErrorVarianceEstimator.py'
PF = 'pymcmcstat/procedures/PriorFunction.py'
SS = 'pymcmcstat/procedures/SumOfSquares.py'
MP = 'pymcmcstat/settings/ModelParameters.py'
MS = 'pymcmcstat/settings/ModelSettings.py'
SO = 'pymcmcstat/settings/SimulationOptions.py'
DS = 'pymcmcstat/settings/DataStructure.py'
RS = 'pymcmcstat/structures/ResultsStructure.py'
CP = 'pymcmcstat/chain/ChainProcessing.py'
CS = 'pymcmcstat/chain/ChainStatistics.py'
PM = 'pymcmcstat/ParallelMCMC.py'
PR = 'pymcmcstat/propagation.py'
PI = 'pymcmcstat/plotting/PredictionIntervals.py'
PL = 'pymcmcstat/plotting/MCMCPlotting.py'
PU = 'pymcmcstat/plotting/utilities.py'
NE = 'pymcmcstat/utilities/NumpyEncoder.py'

prop('C01', 'Parameter limits are never left and unsampled parameters never change',
     'Every sampled parameter value that appears in the chain, in the final values, or in a call of the user\'s sum-of-squares '
     'or prior function lies within that parameter\'s limits. Parameters that are not sampled keep their given value in every '
     'call and in the results. This holds for every method, number of delayed rejection tries, adaptation setting and continued run.',
     ['inputs', 'configurations', 'histories'],
     'all parameter sets (limits, starting points on or near a limit, any mix of sampled/unsampled), methods, tries, adaptation '
     'settings, proposal covariances, seeds and continuations',
     'The tests run a handful of short fixed-seed simulations; leaving the limits needs a proposal on a particular stage, '
     'coordinate or continuation.',
     [M, MET, DR, SU, MP], [('bounds test of a proposal', SU + ':is_sample_outside_bounds'), ('metropolis step', MET),
                            ('later stages', DR), ('full parameter vector', SS)],
     'property-based testing (Hypothesis): invariant over all evaluations of generated runs',
     'Generated configurations and histories; every callback evaluation and chain row is checked.')
prop('C02', 'Chains are a faithful record of the simulation',
     'A simulation of n steps yields exactly n chain rows that start at the given initial values; each later row repeats its '
     'predecessor exactly or is the point accepted in that step, evaluated by the user\'s function in that step. The '
     'sum-of-squares chain holds the user\'s value at the same row\'s parameters (and the error variance chain the variance '
     'drawn in that step), and the rejection fractions reported equal the fractions of steps that were rejected and that were '
     'rejected for leaving the limits. The final values in the results are the last chain row.',
     ['inputs', 'configurations', 'histories'], 'all configurations of sampler, target, data sets and observation error model',
     'Tests check shapes and a few values of single runs; a misaligned row needs a particular accept/reject history.',
     [M, MET, DR, RS], [('chain update', M + ':MCMC.__update_chain'), ('rejection counters', M + ':MCMC.__update_rejected'),
                        ('results', M + ':MCMC.__generate_simulation_results')],
     'property-based testing: history invariant against recorded callbacks', 'Every row of every generated run is reconciled '
     'with the recorded evaluations.')
prop('C03', 'Metropolis acceptance rule',
     'In a step with a single try, a proposal is accepted with probability min(1, exp(-((ss*-ss)/sigma2 summed over the data '
     'sets + prior* - prior)/2)): never when that is zero (infinite or undefined sum-of-squares at the proposal, outside the '
     'limits), always when the posterior density does not decrease. Between these the frequency of acceptances over many steps '
     'matches the rule.',
     ['inputs', 'configurations'], 'all targets, priors, error variances (several data sets, updated or constant), methods',
     'Tests evaluate the acceptance function at single points; the rule must hold with the state, variances and prior current '
     'at each step of any run.',
     [MET, SU, SS, PF], [('acceptance ratio', MET + ':Metropolis.evaluate_likelihood_function'), ('decision', SU + ':acceptance_test')],
     'property-based testing: exact certainty cases plus Bernstein bound on acceptance counts (p < 1e-9)',
     'Sure acceptances/rejections are judged step by step; frequencies through a concentration bound per run group.')
prop('C04', 'The posterior is invariant under sampling',
     'A chain started from a draw of the posterior stays distributed as the posterior, whichever of mh, am, dr, dram is used, '
     'with or without limits, priors, unsampled parameters and updated error variance; long adaptive runs recover its mean and variance.',
     ['inputs', 'configurations'], 'all targets of known posterior (truncated Gaussian, Gaussian with conjugate variance), all '
     'methods, tries and proposal covariances',
     'Convergence to the right distribution is a property of the whole transition kernel; tests run too few, fixed-seed steps '
     'to see a wrong kernel.',
     [MET, DR, AD, EV, SU, COV], [('transition kernel', SM), ('delayed rejection correction', DR + ':DelayedRejection.alphafun')],
     'property-based testing: simulation-based calibration with Kolmogorov-Smirnov bound (p < 1e-9)',
     'Statistical: many independent short chains started from exact draws; alarms only below p=1e-9.')
prop('C05', 'Delayed rejection follows the higher stage acceptance rule',
     'With more than one try, a step proposes at most the configured number of points, continues only after rejecting the '
     'previous one, and accepts the first accepted point. The acceptance probability of each stage satisfies detailed balance '
     'for the whole path of rejected points, and points outside the limits are rejected without evaluating the user\'s '
     'function. Proposals of later stages are scaled down by the configured factors.',
     ['inputs', 'configurations', 'histories'], 'all paths of 1-5 stages, all proposal covariances and scale factors',
     'Tests check stage two at one point; the recursion involves every sub-path.',
     [DR, COV, AD], [('recursion', DR + ':DelayedRejection.alphafun'), ('stage proposals', DR + ':DelayedRejection.run_delayed_rejection'),
                     ('scaled factors', COV)],
     'property-based testing: reference implementation of the recursion, detailed balance identity, step histories',
     'Reference model of the recursion on generated paths and on recorded runs.')
prop('C06', 'Adaptation uses the covariance of the whole chain so far',
     'At every adaptation interval of am and dram the proposal covariance becomes the (scaled, regularised) sample covariance '
     'of all rows of the chain so far, the initial covariance weighted in when asked for. Parameters excluded from adaptation '
     'keep their initial variance, nothing adapts for mh and dr, outside the requested period, or between intervals, and during '
     'burn-in only the scale of the proposal changes. The reported running mean and covariance are those of the chain, also over '
     'continued runs. The method ram instead rescales the proposal in the direction of each draw by how far its acceptance probability is '
     'from the target.',
     ['inputs', 'configurations', 'histories'], 'all histories of accepted/rejected points and all adaptation settings',
     'The recursion must be right for every split of the chain in intervals; tests check one update.',
     [AD, COV, M], [('recursive moments', AD + ':update_cov_via_recursion'), ('interval test', AD), ('cholesky', AD)],
     'property-based testing: reference model of the adaptation trajectory', 'The full trajectory of proposal factors is '
     'recomputed from the recorded chain.')
prop('C07', 'Error variance updates are conjugate draws',
     'When the observation error variance is updated, each step draws it from the inverse gamma distribution with shape '
     '(N0+N)/2 and scale (N0*S20+SS)/2, per element of the sum-of-squares, SS being the value of the row just stored and N the '
     'number of observations of that element. Otherwise it stays at the given value in the whole simulation and no variance '
     'chain is reported.',
     ['inputs', 'configurations'], 'all data set sizes, prior settings, scalar/array forms and numbers of elements',
     'A distribution, for every setting; tests check return shapes only.',
     [EV, M, MS], [('draw', EV + ':ErrorVarianceEstimator.update_error_variance'), ('defaults', MS)],
     'property-based testing: exact conditional distribution, Kolmogorov-Smirnov bound (p < 1e-9)',
     'Draws of whole runs transformed by the exact conditional distribution function.')
prop('C08', 'Seeded runs reproduce and runs do not affect each other',
     'Two runs with the same seed, settings and functions give identical results, whatever ran before. Output options '
     '(verbosity, progress bar, printing, saving to files, labels) never change the samples. Running, also repeatedly, never '
     'modifies arrays the user passed in nor the results of other finished runs, and different seeds give different chains.',
     ['configurations', 'histories'], 'all configurations and all combinations of output options, with unrelated runs between',
     'Every combination of options and interleaved runs; tests fix a few.',
     [M, SO, MS, RS], [('seed', M + ':MCMC.__init__'), ('logging during sampling', M + ':MCMC.__execute_simulator')],
     'property-based testing: metamorphic comparison of runs', 'Bit-exact comparison of result dictionaries.')


PROPS2 = os.path.join(HERE, 'tools', 'props2.py')
if os.path.exists(PROPS2):
    exec(open(PROPS2).read())


def main():
    built = [p for p in P if os.path.exists(os.path.join(HERE, 'pbt', 'props', p['pid'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in built:
            d = {'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            assert len(p['title']) <= 80, p['pid']
            f.write(json.dumps(d) + '\n')
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [
        {'property': p['pid'], 'quick_cmd': 'bash check.sh {} --tier quick'.format(p['pid']),
         'thorough_cmd': 'bash check.sh {} --tier thorough'.format(p['pid']),
         'evidence_file': 'evidence/{}.json'.format(p['pid']), 'technique': p['technique'], 'level': p['level'],
         'level_note': p['note']} for p in built], 'not_applicable': []}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(built), 'properties')


main()
