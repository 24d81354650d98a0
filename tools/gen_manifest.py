import json, sys
sys.path.insert(0, '/verif'); sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
from checks import CHECKS
T = {
 'C01': ('runtime monitor: decode every parse and compare, under ASan/UBSan', 'Exact oracle (concatenation of entries) on random dictionaries, model histories and texts. Trusts the harness bookkeeping of which symbols were shown.'),
 'C02': ('runtime monitor: independent optimum by dynamic programming over all segmentations', 'Exact optimum up to a relative tolerance of 1e-9, on random dictionaries and frequencies and on trained models. Entries whose symbols are not entries are outside the contract.'),
 'C03': ('lock-step reference model of lookup (linear scan)', 'Answers, sizes, numbering and parents compared with a naive reference after every call.'),
 'C04': ('lock-step reference model of the growing dictionary', 'All entries and parents compared after every call, also for copies.'),
 'C05': ('lock-step reference model of greedy parsing', 'Exact comparison with a naive reference, with and without exclusion sets.'),
 'C06': ('conservation monitor over recorded parses', 'Counts exact; code length to 1e-9; enough() away from the boundary by 1e-6.'),
 'C07': ('shadow of the seeded counters, optimum oracle on seeded parses', 'Dictionary, builder and model are given entries in sorted, shuffled and late-symbol order.'),
 'C08': ('trace monitor: every published dictionary against all accepted sequences', 'Substring search in everything accepted, after every step of random histories.'),
 'C09': ('trace monitor of dictionary sizes at observed rebuilds', 'Rebuilds are recognised by observation of the public state; symbols met after a rebuild began are left out of the budget.'),
 'C10': ('shadow of the learner with interval scores', 'Recomputes gains with confidence intervals for the sampled Dirichlet means, so near ties never alarm; small systematic shifts inside the intervals are not seen.'),
 'C11': ('shadow of the learner with interval scores', 'Recomputes code-length savings; near ties are not judged.'),
 'C12': ('shadow of the schedule of rebuilds', 'Exact prediction of rebuild points from observed usage; comparisons closer than rounding are not judged.'),
 'C13': ('conservation and recount monitor after fit', 'Recounts the training data with the frequencies the model used, ties resolved by accepting any optimal segmentation, and conserves symbols exactly.'),
 'C14': ('differential monitor of reads before and after', 'All answers recorded before and compared after random reads and repeated fits.'),
 'C15': ('trace monitor over accept, update and read events', 'Checks append-only alphabets, constant frequencies and an exact run of accepted sequences at every update.'),
 'C16': ('round trip monitor', 'All answers of saved and loaded models compared, files compared as JSON.'),
 'C17': ('round trip monitor on text models', 'All answers of saved and loaded text models compared, and new tokens after loading against a reference.'),
 'C18': ('fault enumeration: every truncation and field damage of saved files, under ASan/UBSan', 'Every byte of small files, a random sample above 6000 bytes; every required field absent or of four wrong types.'),
 'C19': ('trace monitor of loaded models that train on', 'Alphabet, frequency, losslessness and size oracles exact; quality compared with the model before saving with a generous margin.'),
 'C20': ('lock-step reference map', 'Exact.'),
 'C21': ('lock-step reference tokenizers', 'Exact, over arbitrary bytes.'),
 'C22': ('differential execution: text model beside integer model', 'Same tokens, same seed of rand(); answers compared exactly.'),
 'C23': ('ASan, UBSan (with float-cast-overflow) and checked containers under a random API soup', 'Sees only what the executions reach; intra-object overflows and reuse of freed memory after long distances may escape ASan.'),
 'C24': ('valgrind memcheck with leak check', 'Sees branches, outputs and system calls on uninitialised bytes in what is executed; definite leaks at process end.'),
 'C25': ('differential execution in and between processes', 'Digests of all answers compared across verbosity, neighbours, heap fill patterns, address layouts and preceding work.'),
 'C26': ('ThreadSanitizer, answers compared with sequential runs', 'Happens-before race detection on the executions made, with random pauses; results compared exactly.'),
 'C27': ('fault enumeration of termination points', 'Every termination point of small fits, a sample of long ones; oracles of C01, C13 and C16 after the interruption.'),
 'C28': ('statistical monitor with 7-sigma-like bounds', 'Support exact; means within a generous number of standard deviations.'),
 'C29': ('statistical monitor against recorded vocabularies', 'Thresholds with a wide margin over the current behaviour.'),
 'C30': ('differential execution of the wrapper classes (pybind11 stub), signals injected', 'The wrapper classes are compiled against a stub of pybind11 (not installed here); the registration code in bind_vgram.cc is the matter of C32.'),
 'C32': ('differential execution through the registered module (pybind11 stand-in) under ASan/UBSan, with a heap balance monitor', 'pybind11 is not installed: a stand-in reproduces its holders, argument passing and return policies. Conversions of Python objects proper, and the interpreter, are not executed.'),
 'C33': ('trace monitor of the standard streams over histories run at two verbose levels', 'C++ streams and descriptor 1 are recorded (descriptor 2 is left to the sanitizers). What exactly is printed is not judged, nor the level of loaded models, which no document states.'),
 'C34': ('file monitor: independent strict JSON reader against the answers of the model', 'Every stated field compared exactly with the model and with the harness record of accepted symbols. Layout, field order and extra fields are not judged.'),
 'C35': ('metamorphic monitor: the same history under two names for every symbol', 'Exact comparison after renaming, same seed of rand(). Renamings for bare dictionaries and builders keep the order.'),
 'C36': ('cost monitor: executed basic blocks (-fsanitize-coverage=trace-pc), bytes requested and bytes held, compared between sizes', 'Ratios between inputs 4 to 16 times apart against bounds well above linear growth; a slow-down by a constant factor, or a logarithmic one, is not judged. Time is not measured.'),
 'C37': ('differential execution: text models with tokenizers of the harness beside integer models, exceptions injected, live tokenizers counted, under ASan/UBSan', 'Six kinds of tokenizers, none with a state of its own; empty tokens are left out, since transform joins by spaces.'),
 'C38': ('fault enumeration of failing allocations (operator new replaced) with a heap balance monitor, under ASan/UBSan', 'All of the first forty allocations of a call, a growing step through the later ones; malloc and other resources never fail. Constructors that take a raw tokenizer pointer are left out (who owns it after an exception is not said), and so is whether a failed update is undone.'),
 'C31': ('fault enumeration of write limits (RLIMIT_FSIZE), unwritable paths', 'Every byte of small files, a sample of larger ones.'),
}
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[],
 notes='No hooks in /repo are needed: all monitors observe public calls. Findings and repairs: known_findings.txt. run.py replay FILE repeats a reported case.')
for pid, c in sorted(CHECKS.items()):
    t, n = T[pid]
    m['checks'].append(dict(property=pid, quick_cmd='python3 run.py check ' + pid, thorough_cmd='VERIF_TIER=thorough python3 run.py check ' + pid,
                            evidence_file='evidence/%s.json' % pid, technique=t, level=c['level'], level_note=n))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']))
