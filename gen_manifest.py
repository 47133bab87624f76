"""Writes MANIFEST.json."""
import json, os
T = 'deterministic simulation: seeded search over schedules and injected faults, oracle = the same calls alone in a pristine process'
NOTE = {
 'C01': 'Real library code; real threads parked and released one at a time at source lines (some runs: bytecodes) of sqlpuzzle and at function entries of copy.py. Every reader outcome and the object afterwards are compared with a lone reader. Sampled schedules, not all.',
 'C02': 'Observations are scheduled between the building calls by the seed; final text, inspection results and the outcome of every later call compared with the unobserved history.',
 'C03': 'An interrupt or MemoryError is raised at a seeded source line of an observation, the stack is nearly exhausted, or a user SQL object fails; query, bystander and a fresh query compared with a fault-free run.',
 'C04': 'A building call gets an invalid or failing argument at a seeded position; the query afterwards, and after more calls, compared with the history without that call.',
 'C05': 'Several threads build and render their own queries under a seeded schedule after a seeded process history, some dying half way; each compared with the same calls alone in a pristine process.',
 'C06': 'Copies at seeded points of a history; calls on originals, embedded parts and copies of copies interleaved sequentially or by threads; compared with the same calls on objects that never shared anything.',
 'C07': 'Threads render and build while others select databases (valid, invalid, interrupted); each rendering that overlaps no selection must equal the rendering under the database in force.',
 'C08': 'Histories of condition, consent, revocation, copy, failing and interrupted calls with reader threads; reference model = consent flag and "has a condition"; each rendering linearised against it.',
 'C09': 'An interrupt or MemoryError at a seeded source line of a building call; the result must equal one of the renderings reachable by making the call with none, some or all of its items.',
 'C10': 'Hash seeds, insertion orders, set orders and allocation patterns are simulated (strings with a simulator-decided hash) and also realised in fresh interpreters with different PYTHONHASHSEED.',
 'C11': 'Threads share argument containers, or the simulated caller mutates them after the call returned; containers and queries compared with untouched ones.',
 'C12': 'Generators and iterators with a read log, healthy or failing at a seeded item; compared with the same calls given lists and with the failed call left out.',
 'C14': 'Contributors, each owning one clause, are merged call by call by seeded schedules (some calls refused, renderings and copies in between); every call outcome, the finished query and its equality compared with the contributors one after another in a pristine process. Calls are atomic here.',
 'C15': 'A round of work with refused calls, calls cut short and killed threads is repeated and dropped; weak references to everything the application held must be dead, and library objects and what library modules hold must not grow between identical rounds.',
 'C13': 'Nested library use at a seeded source line, from a user SQL object or a generator body; outer and nested results compared with each alone.',
}
NA = {
 'C20': 'A pure function of the value or name and the selected database: no schedule, clock, fault, I/O or history takes part, so there is nothing to simulate; deciding it needs input generation or proof, not simulation. (What faults and schedules can do to it is covered by C01, C03, C05, C07.)',
 'C21': 'A pure function of the sequence of calls of one thread: no nondeterminism or fault takes part. The history- and fault-dependent side is claimed separately (C02, C04, C05, C09, C11).',
 'C22': 'A pure function from requested conditions and joins to SQL text; judging equivalence needs SQL semantics over all inputs, with no schedule or fault in it.',
 'C23': 'A pure function of argument types; no schedule or fault takes part. What a refused call leaves behind is claimed as C04.',
}
m = dict(version=1, setup_cmd='sh dst/run.sh setup',
         checks=[dict(property=k, quick_cmd='sh dst/run.sh check %s quick' % k, thorough_cmd='sh dst/run.sh check %s thorough' % k,
                      evidence_file='evidence/%s.json' % k, technique=T, level='exploration', level_note=NOTE[k]) for k in sorted(NOTE)],
         not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)],
         notes='No hooks in /repo: the seams are sys.settrace (source lines), replaced lock constructors, caller-supplied objects and process forks. Repairs of genuine defects are listed in KNOWN_FINDINGS.txt.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
