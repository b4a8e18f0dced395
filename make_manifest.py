"""Writes MANIFEST.json from the list of checks present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    'P01': 'property-based: generated histories of scripted tuners against a reference state machine',
    'P02': 'property-based: closed-loop runs on generated systems, true parameters at the final voltages as oracle',
    'P03': 'property-based: closed-loop runs on generated well conditioned systems with a bound on the iterations',
    'P04': 'property-based: generated linear problems against the pseudo inverse and recorded estimator calls',
    'P05': 'property-based: generated histories against a reference model of the subset tuner',
    'P06': 'property-based: generated histories against a reference model of the sensing dot tuner',
    'P07': 'property-based: generated functions and points against exact gradients and linear error propagation',
    'P08': 'property-based: differential testing against an independent Kalman filter and the batch posterior',
    'P09': 'property-based: generated covariances and histories against an eigenvector rule and a reference filter',
    'P10': 'property-based: round trip of generated nested values, shared structures and objects',
    'P11': 'property-based: crash point injection, differential run resumed versus uninterrupted',
    'P12': 'property-based: generated programs of writes, modifications and faults against copies taken in program order',
    'P13': 'property-based: generated runs against an independent row model of the history',
    'P14': 'property-based: round trip of generated physical parameters through synthetic scans',
    'P15': 'property-based: recording experiment with generated scripts of measurements',
    'P16': 'property-based: differential testing against the Nelder-Mead method of scipy and invariants of the simplex',
    'P17': 'property-based: generated command sequences and faults against a state machine of the worker',
    'P18': 'property-based: generated indices and containers, numpy indexing and a recording engine as oracle',
    'P19': 'property-based: metamorphic relation (change of units) and generated targets against own standardisation',
    'P20': 'property-based: generated restart points, invariants and reference runs after the restart',
    'P21': 'property-based: generated tunings and raw data, curves read back from the figures against the recorded values',
    'P22': 'property-based: generated reloads through the windows, differential run against the same steps by hand',
    'P23': 'property-based: generated inspections, differential run inspected versus not inspected; own set arithmetic',
    'P24': 'property-based: generated measurements, analysis results and sequences of evaluations and reloads; own formulas as oracle, recorded calls',
    'P25': 'property-based: generated logging configurations, messages and faults injected into windows and iterations; shown text and curves against those recorded',
}
checks = []
for pid in sorted(TECH):
    if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        checks.append(dict(property=pid, quick_cmd='/opt/venv/bin/python run.py %s' % pid,
                           thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % pid,
                           technique=TECH[pid], level='exploration',
                           level_note='Generated-input search, no proof: holds on all generated cases; the rule of a '
                                      'non-trivial case, counts, samples and assumptions are in the evidence file, the '
                                      'domain and the oracle in DESIGN.md.'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[]),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
