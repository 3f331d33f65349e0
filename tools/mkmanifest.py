"""Write MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'Q01': ('TLA+ state machine of solver caches/settings (SolverCache.tla), TLC-enumerated histories replayed on real solvers',
         'The complete state graph of the model is checked; random walks through it (short and long) are replayed on 30 kinds of solver; each reported quantity is compared with a fresh solver. Trusts numpy/scipy and that a fresh solver is right (Q02-Q05).'),
 'Q02': ('TLA+ evolution state machine (Evolution.tla) with symbolic observables, model-checked by TLC and evaluated against the real solver',
         'Time ordering/composition are invariants over all shapes in the bound; the emitted terms are evaluated on random matrices and compared with the solver. Trusts scipy.linalg.expm.'),
 'Q03': ('TLA+ evolution state machine (Evolution.tla, kinds mc/mcna/mccn), model-checked by TLC and evaluated against the real Monte Carlo solvers',
         'Trace independence and zero-noise reduction are TLC invariants; emitted per-trace terms are compared with the real solvers, serial and parallel, fixed and redrawn samples.'),
 'Q04': ('TLA+ master-equation state machine (Evolution.tla, kind lind), model-checked by TLC and evaluated against the real solver',
         'All combinations of the three dissipation specifications within the bound; trace, Hermiticity and positivity checked on the real results.'),
 'Q05': ('TLA+ cost terms and symbolic derivatives (Costs.tla over Evolution.tla), model-checked by TLC and evaluated against the real gradients',
         'Derivative terms are generated by the specification for every cost kind, solver kind and shaping map within the bound, and compared with the pulled back gradient of the real code on random problems. Trusts numpy/scipy linear algebra.'),
 'Q09': ('TLA+ exact fidelities of gate sequences (Fidelity.tla, Gaussian integers) and symbolic costs (Costs.tla), model-checked by TLC and replayed on the real cost functions',
         'Range, faithfulness, phase invariance and agreement of the forms are TLC invariants on all gate sequences within the bound; the same sequences and random problems are evaluated by the real code. Trusts numpy/scipy.'),
 'Q06': ('TLA+ model of trees of pulse-shaping stages (PulseShaping.tla), model-checked by TLC and replayed on the real transfer functions',
         'Grids, padding, sample counts and values are computed exactly by the specification for all small trees and re-gridding histories and compared with the real objects, also after re-gridding and copying. Stages defined by real analysis (Gauss, exponential) are compared with an independent numerical oracle.'),
 'Q07': ('TLA+ model of trees of pulse-shaping stages (PulseShaping.tla), model-checked by TLC and replayed on the real transfer and amplitude functions',
         'Affinity, separation of channels and the pulled-back derivative are computed by the specification and compared with the real forward map and chain rule; amplitude functions against symbolic chain rules.'),
 'Q08': ('TLA+ heap of exact operators (OperatorHeap.tla), model-checked by TLC; programs replayed on real operators',
         'Every operation on every operand choice and random programs with sharing; the exact Gaussian-integer result and the unchanged values of all other objects are compared bit-exactly.'),
 'Q10': ('TLA+ model of noise generators and read histories (Noise.tla), model-checked by TLC and replayed on the real generators',
         'The pattern of zeros, points, fresh and repeated random numbers is specified per sample for all small configurations and read histories; spectra and distributions of the random numbers are checked statistically with fixed seeds (6.5 standard errors).'),
 'Q11': ('TLA+ model of optimisers and their runs (Optimiser.tla), model-checked by TLC; behaviours replayed as minimisation algorithms on the real optimisers, and recorded real minimisations validated as traces (OptimiserTrace.tla)',
         'Arbitrary request sequences of the minimisation algorithm, wall-time expiry, simulator errors and interleaved optimisers on integer landscapes, compared exactly (objective, slope, settings, history, result, statistics); 17 real algorithms are recorded and accepted or rejected by TLC. Time is a clock held by the harness.'),
 'Q12': ('TLA+ model of the multi-start worker pool (MultiStart.tla), all schedules model-checked by TLC; completion orders replayed on the real process pool',
         'Every interleaving of workers for small numbers of starts and processes; sampled completion orders are forced on the real pool with delays, results compared with single runs of fresh optimisers, also with stateful simulators and optimisers that ran before.'),
 'Q13': ('TLA+ state machines of data containers, results and summaries (Containers.tla) with an exact analyser, model-checked by TLC; histories replayed on the real classes and files',
         'The complete state graph of small container worlds (append, store, load, pickle, deep copy, dictionary conversion, edits of copies) is checked; random walks over containers of up to several runs of different length are replayed and every accessor and analysis function is compared exactly with the specification. Files are written to a scratch directory only; plots are not compared.'),
 'Q14': ('TLA+ model of simulators sharing solvers (Simulator.tla, exact integer costs and gradients), model-checked by TLC; behaviours replayed on real simulators',
         'Random small worlds of solvers, amplitude functions, oversampling and vector-valued costs; every answer of every history (also through difference quotients with step 1) is compared exactly; the same histories are replayed with ordinary solvers and infidelities against freshly built objects.'),
 'Q15': ('TLA+ state machine of pulse descriptions (PulseDescription.tla) and symbolic filter functions (FilterFunction.tla), model-checked by TLC; histories replayed on real solvers and cost functions',
         'Every history of updates and queries of a small model is checked; replayed behaviours compare description, total propagator, infidelity and gradient with the symbolic expressions evaluated independently and with descriptions built from scratch. The external filter_functions package is trusted for spectra integration with identifiers; its gradient is only compared with fresh descriptions where the package itself is not exact (controls with a trace, degenerate step Hamiltonians).'),
 'Q16': ('TLA+ heap of caller-owned leaves, objects built from them and parameter edits (Sharing.tla), model-checked by TLC; behaviours generated from it replayed on real objects with shared and with separate arguments',
         'Non-leaking of accepted parameters, frame condition on caller objects and stability of answers are checked on every behaviour of a small model; TLC runs random programs over about 90 public calls, and the replay compares caller objects before and after every call and every answer with the same term evaluated on fresh copies.'),
 'Q17': ('TLA+ exact truncated series and derivatives over the Gaussian integers (Exponential.tla), model-checked by TLC; call histories replayed on the real methods',
         'Series methods and nilpotent generators are compared with exact values, exact methods with scipy expm and a block-matrix derivative; which method applies to which generator is decided by the specification.'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')) and pid in NOTES:
        cmd = '/opt/venv/bin/python run.py ' + pid
        checks.append({'property': pid, 'quick_cmd': cmd,
                       'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': NOTES[pid][0], 'level': 'model_checking',
                       'level_note': NOTES[pid][1]})
    else:
        na.append({'property': pid, 'reason': 'check not built yet (in progress)'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python tools/selftest.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public interface of qopt imported from /repo', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Specifications in spec/*.tla (TLA+, TLC); harness/ drives TLC and the real code; checks/qNN.py decide the properties.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
