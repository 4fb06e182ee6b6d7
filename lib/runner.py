"""Runs one property check: shards its families over worker processes, reports, writes evidence.

Exit codes: 0 property held on everything explored (or only listed known findings failed),
1 with a VIOLATION line otherwise. Nothing else on purpose.
"""
import argparse
import importlib
import itertools
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('KLANG_REPO', '/repo')
sys.path.insert(0, VERIF)

from mc import Ctx, Violation  # noqa: E402

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
MEM_LIMIT = 6 << 30
MAX_STATES_KEPT = 3000000


def jsonable(obj):
    """Fallback serialisation for replay artefacts."""
    return repr(obj)


def build_extensions(dest):
    """Compile the two C extensions of /repo's working tree into dest; preload them."""
    inc = subprocess.run(
        [sys.executable, '-c',
         'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
        check=True, capture_output=True, text=True).stdout.split('\n')
    suffix = sysconfig.get_config_var('EXT_SUFFIX') or '.so'
    procs = []
    for name in ('_envelope', '_filters'):
        src = os.path.join(REPO, 'klang', 'audio', name + '.c')
        if not os.path.exists(src):
            continue
        out = os.path.join(dest, name + suffix)
        cmd = ['gcc', '-shared', '-fPIC', '-O2', '-w', '-I' + inc[0], '-I' + inc[1], src, '-o', out, '-lm']
        procs.append((name, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    paths = {}
    for name, out, proc in procs:
        log, _ = proc.communicate()
        if proc.returncode != 0:
            raise RuntimeError('could not compile %s.c:\n%s' % (name, log))
        paths[name] = out
    return paths


def preload_extensions(paths):
    """Load the freshly compiled extensions under their klang names."""
    import importlib.util
    import klang  # noqa: F401
    for name, path in paths.items():
        full = 'klang.audio.' + name
        spec = importlib.util.spec_from_file_location(full, path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules[full] = mod


def quiet():
    """Silence klang's debug logging and warnings."""
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


def load_known(pid):
    """Known findings of this property: {(family, case json): text}."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                head, _, text = line[len('known:'):].partition('::')
                fields = dict(item.split('=', 1) for item in head.split(None, 2))
                if fields['property'] == pid:
                    known[fields['family'], fields['case'].strip()] = text.strip()
    return known


def case_key(case):
    return json.dumps(case, separators=(',', ':'), default=jsonable)


def run_one(family, case, ctx):
    """Run one case; returns None or a violation message (with possibly refined case)."""
    try:
        family.run(case, ctx)
        return None
    except Violation as err:
        return err.msg, (case if err.case is None else err.case)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:  # pylint: disable=broad-except
        text = traceback.format_exc()
        return 'unexpected exception in legal use:\n' + text[-2500:], case


def worker(fi, family, shard, nShards, tier, seed, known, mm, outPath, deadline):
    """Run all cases of this shard; dump counters."""
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    ctx = Ctx(tier, seed)
    nCases = 0
    violations = []
    knownHits = []
    samples = []
    capped = False
    try:
        for idx, case in enumerate(family.cases(tier)):
            if idx % nShards != shard:
                continue
            struct.pack_into('q', mm, shard * 8, idx)
            res = run_one(family, case, ctx)
            nCases += 1
            if len(samples) < 2 or (nCases & (nCases - 1)) == 0 and len(samples) < 6:
                samples.append(case)
            if res is not None:
                msg, vcase = res
                if (family.name, case_key(vcase)) in known:
                    knownHits.append((family.name, case_key(vcase)))
                    continue
                violations.append((idx, msg, vcase))
                break
            if (nCases & 63) == 0 and time.time() > deadline:
                capped = True
                break
    except BaseException:  # enumeration itself failed (uses klang constants)
        violations.append((-1, 'unexpected exception while enumerating:\n' + traceback.format_exc()[-2500:], None))
    data = dict(cases=nCases, states=set(itertools.islice(ctx.states, MAX_STATES_KEPT)),
                nstates=len(ctx.states), outcomes=ctx.outcomes, transitions=ctx.transitions,
                traces=ctx.traces, violations=violations, known=knownHits, samples=samples,
                capped=capped or ctx.capped)
    with open(outPath + '.tmp', 'wb') as f:
        pickle.dump(data, f, protocol=4)
    os.rename(outPath + '.tmp', outPath)


def nth_case(family, tier, idx):
    return next(itertools.islice(family.cases(tier), idx, idx + 1), None)


def run_family(fi, family, tier, seed, known, scratch, deadline):
    """Run a family over all shards. Returns merged result dict."""
    mm = mmap.mmap(-1, 8 * WORKERS)
    for shard in range(WORKERS):
        struct.pack_into('q', mm, shard * 8, -1)
    pids = {}
    outs = {}
    for shard in range(WORKERS):
        outs[shard] = os.path.join(scratch, 'out_%d_%d' % (fi, shard))
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                worker(fi, family, shard, WORKERS, tier, seed, known, mm, outs[shard], deadline)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                code = 3
            os._exit(code)
        pids[shard] = pid

    last = {shard: (-1, time.time()) for shard in pids}
    failures = []
    pending = dict(pids)
    minViolation = None
    while pending:
        time.sleep(0.01)
        for shard, pid in list(pending.items()):
            done, status = os.waitpid(pid, os.WNOHANG)
            idx = struct.unpack_from('q', mm, shard * 8)[0]
            now = time.time()
            if done:
                del pending[shard]
                if not os.path.exists(outs[shard]):
                    case = nth_case(family, tier, idx) if idx >= 0 else None
                    if os.WIFSIGNALED(status):
                        what = 'the process was killed by signal %d' % os.WTERMSIG(status)
                    else:
                        what = 'the process ended with status %d' % os.WEXITSTATUS(status)
                    failures.append((idx, '%s while running this case' % what, case))
                continue
            if idx != last[shard][0]:
                last[shard] = (idx, now)
            elif now - last[shard][1] > family.timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                del pending[shard]
                case = nth_case(family, tier, idx) if idx >= 0 else None
                failures.append((idx, 'no termination within %g s' % family.timeout, case))
    merged = dict(cases=0, states=set(), extra=0, outcomes=set(), transitions=0, traces=0,
                  violations=list(failures), known=[], samples=[], capped=False)
    for shard, path in outs.items():
        if not os.path.exists(path):
            continue
        with open(path, 'rb') as f:
            data = pickle.load(f)
        for key in ('cases', 'transitions', 'traces'):
            merged[key] += data[key]
        merged['states'] |= data['states']
        merged['outcomes'] |= data['outcomes']
        merged['violations'] += data['violations']
        merged['known'] += data['known']
        merged['capped'] |= data['capped']
        if shard < 3:
            merged['samples'] += data['samples'][-2:]
        os.remove(path)
    merged['violations'].sort(key=lambda v: v[0])
    return merged


def write_replay(pid, family, case, msg, tier):
    """Store a replayable artefact."""
    directory = os.path.join(VERIF, 'replays')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, '%s_%s.json' % (pid, family))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, family=family, case=case, tier=tier, message=msg,
                       how='./run.sh %s --replay %s' % (pid, path)), f, indent=1, default=jsonable)
    return path


def write_evidence(pid, tier, seed, check, results, wall, nViolations):
    """Write the evidence file from this run's measurements."""
    coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                    exhaustive=True, families={}, distinct_outcomes=0, evaluations=0)
    for family, res in results:
        n = len(res['states'])
        coverage['states'] += n
        coverage['transitions'] += res['transitions']
        coverage['traces_validated_against_impl'] += res['traces']
        coverage['distinct_outcomes'] += len(res['outcomes'])
        coverage['evaluations'] += res['cases']
        coverage['exhaustive'] &= not res['capped'] and not res['violations']
        coverage['families'][family.name] = dict(
            bound=family.bound_text(tier), cases=res['cases'], states=n,
            transitions=res['transitions'], traces=res['traces'],
            distinct_outcomes=len(res['outcomes']),
            completed=not res['capped'] and not res['violations'])
        for case in res['samples'][:2]:
            coverage['samples'].append(dict(family=family.name, case=json.loads(json.dumps(case, default=jsonable))))
    coverage['distinct_nontrivial'] = coverage['distinct_outcomes']
    coverage['rule'] = ('every case of every family is enumerated in order and executed on the real code; '
                        'distinct_outcomes counts distinct observed results (hashes)')
    evidence = dict(property=pid, tier=tier, seed=seed, level=getattr(check, 'LEVEL', 'model_checking'),
                    coverage=coverage, assumptions=list(getattr(check, 'ASSUMPTIONS', [])),
                    wall_s=round(wall, 2), violations=nViolations)
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(evidence, f, indent=1, default=jsonable)


def selftest():
    """Setup: the toolchain needed by every check is present and works."""
    scratch = tempfile.mkdtemp(prefix='setup_', dir=os.path.join(VERIF, '.work'))
    try:
        paths = build_extensions(scratch)
        preload_extensions(paths)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('setup ok:', ', '.join(sorted(paths)))
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?', default='')
    parser.add_argument('--selftest', action='store_true')
    parser.add_argument('--replay', default='')
    parser.add_argument('--family', default='')
    args = parser.parse_args()
    if args.selftest:
        return selftest()
    pid = args.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', '500' if tier == 'quick' else '7200'))
    deadline = start + budget
    scratch = tempfile.mkdtemp(prefix='run_%s_' % pid, dir=os.path.join(VERIF, '.work'))
    os.environ['VERIF_SCRATCH'] = scratch
    check = None
    results = []
    violation = None
    try:
        try:
            import logging
            paths = build_extensions(scratch)
            preload_extensions(paths)
            quiet()
            check = importlib.import_module('checks.' + pid.lower())
        except BaseException:  # pylint: disable=broad-except
            violation = ('load', None, 'klang could not be built / imported for this check:\n'
                         + traceback.format_exc()[-3000:])
        if check is not None and args.replay:
            with open(args.replay) as f:
                rep = json.load(f)
            family, = [f for f in check.FAMILIES if f.name == rep['family']]
            res = run_one(family, rep['case'], Ctx(rep.get('tier', tier), seed))
            print('replay:', 'holds' if res is None else res[0])
            return 0 if res is None else 1
        if check is not None:
            known = load_known(pid)
            for fi, family in enumerate(check.FAMILIES):
                if args.family and family.name != args.family:
                    continue
                t0 = time.time()
                res = run_family(fi, family, tier, seed, known, scratch, deadline)
                results.append((family, res))
                print('%s %-28s cases=%d states=%d transitions=%d traces=%d outcomes=%d %.1fs%s' % (
                    pid, family.name, res['cases'], len(res['states']), res['transitions'],
                    res['traces'], len(res['outcomes']), time.time() - t0,
                    ' CAPPED' if res['capped'] else ''))
                sys.stdout.flush()
                for fam, key in sorted(set(res['known'])):
                    print('KNOWN-FINDING: property=%s family=%s case=%s %s' % (pid, fam, key, known[fam, key]))
                if res['violations']:
                    _, msg, case = res['violations'][0]
                    violation = (family.name, case, msg)
                    break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    write_evidence(pid, tier, seed, check, results, time.time() - start, 1 if violation else 0)
    if violation:
        family, case, msg = violation
        path = write_replay(pid, family, case, msg, tier)
        print('%s: family=%s case=%s' % (pid, family, case_key(case)))
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s holds on everything explored (%.1fs)' % (pid, time.time() - start))
    return 0


if __name__ == '__main__':
    sys.exit(main())
