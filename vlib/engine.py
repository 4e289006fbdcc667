"""Runs a check: case stream on all cores, verdict, evidence, replay files.

A check is a module-level object with
  property   id
  functions  functions it has to exercise (keys of the 'function' statistic)
  rule       text: how cases are made, what makes one non-trivial
  quick, thorough   numbers of cases;   case(rng, index, tier) -> Case

Case streams depend on (seed, tier, index) only, so any case can be replayed.
Verdicts: held (0), violated (1), inconclusive (2)."""
import collections
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')


class Case:
    """what one case observed"""

    def __init__(self):
        self.key = None
        self.nontrivial = False
        self.stats = collections.Counter()
        self.sample = None
        self.violation = None
        self.size = 0
        self.skipped = False

    def count(self, group, name, amount=1):
        self.stats[group + '|' + str(name)] += amount

    def fail(self, message, **details):
        if self.violation is None:
            self.violation = dict(details, message=message)


def digest(value):
    return hashlib.blake2b(repr(value).encode(), digest_size=8).digest()


def case_rng(property_id, seed, index):
    return random.Random(f'{property_id}/{seed}/{index}')


def run_case(check, seed, index, tier):
    return check.case(case_rng(check.property, seed, index), index, tier)


def run_chunk(check, seed, tier, start, stop, deadline):
    stats = collections.Counter()
    keys, samples, violations = set(), [], []
    evaluated = skipped = 0
    listed = known_findings(check.property)
    for index in range(start, stop):
        if time.time() > deadline:
            break
        try:
            case = run_case(check, seed, index, tier)
        except Exception:
            return {'crash': f'case {index}:\n' + traceback.format_exc()}
        if case.skipped:
            skipped += 1
            continue
        evaluated += 1
        stats.update(case.stats)
        if case.nontrivial:
            keys.add(digest(case.key))
        if case.sample is not None and (index % 97 == 0 and len(samples) < 2
                                        or index == start):
            samples.append({'index': index, **case.sample})
        if case.violation is not None:
            for match, _ in listed:
                if match in case.violation['message']:
                    stats['listed finding observed|' + match] += 1
                    break
            else:
                violations.append((case.size, index, case.violation))
    violations.sort(key=lambda v: v[:2])
    return {'stats': stats, 'keys': keys, 'samples': samples,
            'violations': violations[:3],
            'violations_count': len(violations), 'evaluated': evaluated,
            'skipped': skipped}


_CHECK = None


def _chunk(args):
    return run_chunk(_CHECK, *args)


def known_findings(property_id):
    """(text, message prefix) of the findings which are listed, not repaired

    Lines of known_findings.txt: ``finding: property=<id> match=<text> <what>``
    (``fixed:`` lines are history and suppress nothing)."""
    result = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                if line.startswith(f'finding: property={property_id} '):
                    body = line.split(' ', 2)[2].strip()
                    match, _, what = body.partition(' ')
                    match = match.partition('=')[2]
                    if match:
                        result.append((match, what))
    return result


def run(check, tier, seed, workers=None, quiet=False, cases=None):
    global _CHECK
    _CHECK = check
    started = time.time()
    workers = workers or max(2, min(8, os.cpu_count() or 2))
    total = cases or (check.quick if tier == 'quick' else check.thorough)
    budget = float(os.environ.get('VERIF_BUDGET', 300 if tier == 'quick'
                                  else 3000))
    deadline = started + budget
    chunk = max(1, min(check.chunk if hasattr(check, 'chunk') else 100,
                       total // (4 * workers) or 1))
    stats = collections.Counter()
    keys, samples, violations = set(), [], []
    evaluated = skipped = violated = 0
    crash = None
    context = multiprocessing.get_context('fork')
    starts = iter(range(0, total, chunk))
    with concurrent.futures.ProcessPoolExecutor(
            workers, mp_context=context) as pool:
        pending = set()

        def feed():
            for start in starts:
                pending.add(pool.submit(_chunk, (seed, tier, start,
                                                 min(total, start + chunk),
                                                 deadline)))
                if len(pending) >= 3 * workers:
                    return

        feed()
        try:
            while pending:
                done, pending = concurrent.futures.wait(
                        pending,
                        return_when=concurrent.futures.FIRST_COMPLETED)
                for future in done:
                    part = future.result()
                    if 'crash' in part:
                        crash = crash or part['crash']
                        continue
                    stats.update(part['stats'])
                    keys |= part['keys']
                    if len(samples) < 6:
                        samples += part['samples']
                    violations += part['violations']
                    violated += part['violations_count']
                    evaluated += part['evaluated']
                    skipped += part['skipped']
                if not violations and not crash and time.time() < deadline:
                    feed()
        except concurrent.futures.process.BrokenProcessPool:
            crash = crash or 'a worker process died'
    return finish(check, tier, seed, started, stats, keys, samples[:6],
                  violations, violated, evaluated, skipped, crash, total,
                  quiet)


def grouped(stats):
    result = {}
    for key, value in sorted(stats.items()):
        group, _, name = key.partition('|')
        result.setdefault(group, {})[name] = value
    return result


def finish(check, tier, seed, started, stats, keys, samples, violations,
           violated, evaluated, skipped, crash, total, quiet):
    groups = grouped(stats)
    listed = known_findings(check.property)
    fresh = [(index, violation) for _, index, violation
             in sorted(violations, key=lambda v: v[:2])]
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        'property': check.property, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluated, 'distinct_nontrivial': len(keys),
            'rule': check.rule, 'samples': samples,
            'cases_planned': total, 'cases_without_input': skipped,
            'observed': groups},
        'assumptions': list(getattr(check, 'assumptions', ())) or [
            'inputs satisfy the documented preconditions of ground.hints',
            'the ground package (exact predicates) is correct'],
        'wall_s': round(time.time() - started, 2),
        'violations': violated}
    with open(os.path.join(EVIDENCE, check.property + '.json'), 'w') as file:
        json.dump(evidence, file, indent=1, default=str)
    for match, what in listed:
        print(f'KNOWN-FINDING: property={check.property} {what}')
    if fresh:
        index, violation = fresh[0]
        folder = os.path.join(EVIDENCE, 'replay')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f'{check.property}-{tier}-{seed}-{index}'
                                    '.json')
        with open(path, 'w') as file:
            json.dump({'property': check.property, 'tier': tier,
                       'seed': seed, 'index': index,
                       'violation': violation}, file, indent=1, default=str)
        print(violation['message'])
        print(f'VIOLATION property={check.property} replay={path}')
        return 1
    if crash:
        print('INCONCLUSIVE: the machinery failed\n' + crash,
              file=sys.stderr)
        return 2
    reached = groups.get('function', {})
    missed = [name for name in check.functions if not reached.get(name)]
    if not evaluated or missed:
        print(f'INCONCLUSIVE: {evaluated} cases, never reached: {missed}',
              file=sys.stderr)
        return 2
    if not quiet:
        print(f'{check.property}: held on {evaluated} cases '
              f'({len(keys)} distinct non-trivial), {tier}, seed {seed}, '
              f'{time.time() - started:.1f} s')
    return 0


def replay(checks, path):
    with open(path) as file:
        data = json.load(file)
    check = checks[data['property']]
    case = run_case(check, data['seed'], data['index'], data['tier'])
    print(json.dumps(case.violation or {'held': case.sample}, indent=1,
                     default=str))
    if case.violation is None:
        print('no violation')
        return 0
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1
