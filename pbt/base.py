# -*- coding: utf-8 -*-
"""
Runner shared by all checks.

A check is a list of parts.  A part has a Hypothesis strategy producing a plain JSON value (the *case*) and a
function `execute(case)` that exercises the code under test against an independent oracle:
 * it raises (anything) if the property is broken on this case;
 * it returns the list of class labels of the case; a label starting with '!' makes the case non-trivial.

Cases are pure data, so a failure shrinks as one value, is written out as a JSON replay file, and can be re-run
without Hypothesis (`./run --replay FILE`).
"""
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHARDS = 8
SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

warnings.simplefilter('ignore')


class Violation(Exception):
    """The property does not hold on the current case."""


class CaseTimeout(Exception):
    """One case did not end within the (very generous) limit."""


class Discard(Exception):
    """The case is outside the property's domain (counted; should be rare)."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


Part = collections.namedtuple('Part', 'name strategy execute quick thorough rule')


def load_hypothesis():
    try:
        import hypothesis  # noqa
    except ImportError:
        # the tooling virtualenv has the same interpreter version; it comes last so that it hides nothing
        sys.path.append(SITE)
        import hypothesis  # noqa
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 40
    return sys.modules['hypothesis']


def prepare():
    """Import the code under test from the working tree and silence its loggers."""
    sys.path.insert(0, REPO)
    import lgr
    real = os.path.realpath(lgr.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        sys.stderr.write('lgr imported from %s, not from %s\n' % (real, REPO))
        sys.exit(3)
    root = logging.getLogger()
    root.handlers[:] = [logging.NullHandler()]
    root.setLevel(logging.WARNING)
    logging.raiseExceptions = False
    logging.lastResort = None


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def in_repo(frame):
    while frame is not None:
        if frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        frame = frame.f_back
    return False


def limited(execute, case, seconds=60):
    """Run one case under an alarm; a case normally takes milliseconds.

    What is measured is the time of the processor, so that a busy machine raises no alarm, and only the time spent in
    the code under test counts: a case that is merely too big for the oracle is discarded."""
    rings = [0]

    def onalarm(signum, frame):
        rings[0] += 1
        if in_repo(frame):
            raise CaseTimeout('no answer within %d s' % seconds)
        if rings[0] > 40:
            raise Discard()
        signal.setitimer(signal.ITIMER_PROF, 0.25)
    old = signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        return execute(case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def watch(st, state, send):
    """End the shard when a case is stuck in compiled code of a dependency, which no alarm interrupts."""
    while True:
        time.sleep(1)
        since = state.get('since')
        if since is not None and (time.process_time() - since[1] > 85 or time.time() - since[0] > 300):
            if state['failed'] is not None:
                case, msg, tb = state['failed']
                st['failure'] = ('violation', case, msg, tb)
            else:
                st['stuck'] = state['case']
            send(st)
            os._exit(0)


def shard_main(job, conn):
    sent = threading.Lock()

    def send(st):
        if sent.acquire(blocking=False):
            conn.send((job[0], job[1], job[2], st))
            conn.close()
    send(run_shard(job, send))
    os._exit(0)


def run_jobs(jobs, procs):
    """Results of the shards, as they come; ends what still runs when the caller stops."""
    ctx = multiprocessing.get_context('fork')
    todo, running = list(jobs), {}
    try:
        while todo or running:
            while todo and len(running) < procs:
                job = todo.pop(0)
                here, there = ctx.Pipe(False)
                proc = ctx.Process(target=shard_main, args=(job, there), daemon=True)
                proc.start()
                there.close()
                running[here] = (proc, job)
            for conn in multiprocessing.connection.wait(list(running)):
                proc, job = running.pop(conn)
                try:
                    res = conn.recv()
                except EOFError:
                    res = (job[0], job[1], job[2], None)
                conn.close()
                yield res
                proc.join(5)
                if proc.is_alive():
                    proc.kill()
    finally:
        for proc, _ in running.values():
            proc.kill()


def run_shard(job, send):
    prop, part_idx, shard, count, seed, budget = job
    hyp = load_hypothesis()
    from hypothesis import given, settings, HealthCheck, Phase
    mod = importlib.import_module('pbt.props.' + prop.lower())
    part = mod.PARTS[part_idx]
    st = dict(evaluations=0, discarded=0, labels=collections.Counter(), hashes=set(), samples=[], failure=None,
              cut=False, stuck=None)
    state = {'failed': None}
    threading.Thread(target=watch, args=(st, state, send), daemon=True).start()
    end = time.time() + budget

    @hyp.seed(seed * 100003 + part_idx * 101 + shard)
    @settings(max_examples=count, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate,) if os.environ.get('VERIF_NOSHRINK') else (Phase.generate, Phase.shrink))
    @given(part.strategy)
    def test(case):
        if time.time() > end and state['failed'] is None:
            st['cut'] = True
            return
        st['evaluations'] += 1
        state['case'], state['since'] = case, (time.time(), time.process_time())
        try:
            labels = limited(part.execute, case) or []
        except Discard:
            st['discarded'] += 1
            return
        except Exception as exc:
            state['failed'] = (case, '%s: %s' % (type(exc).__name__, exc), traceback.format_exc())
            raise
        finally:
            state['since'] = None
        if state['failed'] is None:
            for label in set(labels):
                st['labels'][label.lstrip('!')] += 1
            if any(label.startswith('!') for label in labels):
                h = hashlib.blake2b(canon(case).encode(), digest_size=8).digest()
                if h not in st['hashes'] and len(st['samples']) < 2:
                    text = canon(case)
                    if len(text) < 3000:
                        st['samples'].append(case)
                st['hashes'].add(h)

    try:
        test()
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            raise
        if state['failed'] is None:
            # Hypothesis itself failed: an error of the harness
            st['failure'] = ('harness', None, '%s: %s' % (type(exc).__name__, exc), traceback.format_exc())
        else:
            case, msg, tb = state['failed']
            st['failure'] = ('violation', case, msg, tb)
    return st


def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def write_replay(prop, part, case, msg, tb):
    digest = hashlib.sha1((part + canon(case)).encode()).hexdigest()[:12]
    folder = os.path.join(HERE, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s.json' % (prop, digest))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'part': part, 'case': case, 'message': msg, 'traceback': tb}, f, indent=1)
    return path


def check_property(prop, tier, seed):
    t0 = time.time()
    prepare()
    load_hypothesis()
    from pbt.unidb import get_unidb
    get_unidb().get_idna_prop(0x61)      # loaded once, inherited by the forked shards
    mod = importlib.import_module('pbt.props.' + prop.lower())
    budget = getattr(mod, 'BUDGET', {}).get(tier, 150 if tier == 'quick' else 780)
    jobs = []
    for i, part in enumerate(mod.PARTS):
        count = part.quick if tier == 'quick' else part.thorough
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        per = max(1, int(count * scale) // SHARDS)
        for shard in range(SHARDS):
            jobs.append((prop, i, shard, per, seed, budget / max(1, len(mod.PARTS))))
    # longest parts interleaved over the shards
    jobs.sort(key=lambda j: j[2])
    violations, errors, stuck = [], [], []
    total = dict(evaluations=0, discarded=0, cut=0)
    hashes, samples = set(), []
    dist = collections.OrderedDict()

    # pinned inputs: known findings (reported, not failing) and regressions of the properties
    known = [k for k in load_known() if k['property'] == prop]
    findings = []
    for k in known:
        part = next(p for p in mod.PARTS if p.name == k['part'])
        try:
            limited(part.execute, k['case'])
        except Discard:
            pass
        except Exception as exc:
            findings.append((k, '%s: %s' % (type(exc).__name__, exc)))
    for name, cases in getattr(mod, 'PINNED', {}).items():
        part = next(p for p in mod.PARTS if p.name == name)
        for case in cases:
            total['evaluations'] += 1
            try:
                limited(part.execute, case)
            except Discard:
                pass
            except Exception as exc:
                violations.append((part.name, case, '%s: %s' % (type(exc).__name__, exc), traceback.format_exc()))

    if not violations:
        procs = int(os.environ.get('VERIF_PROCS', '0')) or min(SHARDS, os.cpu_count() or 1)
        results = run_jobs(jobs, procs)
        for rprop, idx, shard, st in results:
            part = mod.PARTS[idx]
            if st is None:
                errors.append((part.name, 'shard %d ended without an answer' % shard, ''))
                continue
            if st['stuck'] is not None:
                stuck.append({'part': part.name, 'case': st['stuck']})
                write_replay(prop, part.name, st['stuck'], 'stuck in a dependency', '')
            total['evaluations'] += st['evaluations']
            total['discarded'] += st['discarded']
            total['cut'] += bool(st['cut'])
            hashes |= {bytes([idx]) + h for h in st['hashes']}
            d = dist.setdefault(part.name, collections.Counter())
            d.update(st['labels'])
            d['_evaluated'] += st['evaluations']
            if st['samples'] and sum(1 for s in samples if s['part'] == part.name) < 2:
                samples.append({'part': part.name, 'case': st['samples'][0]})
            if st['failure']:
                kind, case, msg, tb = st['failure']
                if kind == 'harness':
                    errors.append((part.name, msg, tb))
                else:
                    violations.append((part.name, case, msg, tb))
                    results.close()
                    break

    for k, msg in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    code = 0
    for name, case, msg, tb in violations:
        path = write_replay(prop, name, case, msg, tb)
        print('part %s: %s' % (name, msg[:2000]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    if errors and not violations:
        for name, msg, tb in errors:
            sys.stderr.write('HARNESS ERROR in %s/%s: %s\n%s\n' % (prop, name, msg, tb))
        code = 3
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['evaluations'],
            'distinct_nontrivial': len(hashes),
            'rule': ' | '.join('%s: %s' % (p.name, p.rule) for p in mod.PARTS),
            'samples': samples,
            'discarded': total['discarded'],
            'shards_ended_stuck_in_a_dependency': len(stuck),
            'shards_cut_by_time_budget': total['cut'],
            'distribution': {k: dict(sorted(v.items())) for k, v in dist.items()},
            'known_findings_reproduced': len(findings),
            'exhaustive': False,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s%s' % (
        prop, tier, total['evaluations'], len(hashes), time.time() - t0,
        (' (cut in %d shards)' % total['cut'] if total['cut'] else '') +
        (' (%d shards stuck in a dependency)' % len(stuck) if stuck else '')))
    if os.environ.get('VERIF_VERBOSE'):
        for name, d in dist.items():
            print(' ', name, dict(sorted(d.items())))
    return code


def replay(path):
    prepare()
    load_hypothesis()
    with open(path) as f:
        data = json.load(f)
    mod = importlib.import_module('pbt.props.' + data['property'].lower())
    part = next(p for p in mod.PARTS if p.name == data['part'])
    try:
        labels = limited(part.execute, data['case'])
    except Discard:
        print('case discarded')
        return 0
    except Exception:
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1
    print('property %s holds on this case (%s)' % (data['property'], labels))
    return 0


def selftest():
    prepare()
    load_hypothesis()
    from pbt.unidb import get_unidb
    db = get_unidb()
    assert db.compile_regex('\\x{61}[b-d]').search('xac', index=0).start() == 1
    names = sorted(n[:-3] for n in os.listdir(os.path.join(HERE, 'pbt', 'props')) if n.startswith('c'))
    for n in names:
        mod = importlib.import_module('pbt.props.' + n)
        assert mod.PARTS
    print('ok: unicode %s, %d properties' % (db.get_unicode_version(), len(names)))
    return 0


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    if argv and argv[0] == '--selftest':
        return selftest()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    return check_property(argv[0], tier, seed)
