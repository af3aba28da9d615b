#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's current
working tree, explores, writes evidence/<id>.json.

  run.py ID [--tier quick|thorough] [--replay FILE]

exit 0  property held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no answer (harness does not build, internal error)
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'ndt_gslam')
CXX = 'g++-11' if shutil.which('g++-11') else 'g++'

SRC_CELL = ['src/ndt/ndt_cell.cpp']
SW = 'src/slam_optimizer/switchable_constraints/'
MM = 'src/slam_optimizer/max_mixture/'
SRC_SWITCH = [SW + f for f in ('edge_se2Switchable.cpp', 'edge_switchPrior.cpp',
                               'types_g2o_robust.cpp', 'vertex_switchLinear.cpp')]
SRC_MIX = [MM + f for f in ('edge_se2_mixture.cpp', 'edge_se2_pointxy_mixture.cpp')]
SRC_SPACE = [MM + 'edge_se3_mixture.cpp', SW + 'edge_se3Switchable.cpp']
SRC_TYPES = [MM + 'types_g2o_mixture.cpp']
G2O = ['-lg2o_types_slam2d', '-lg2o_core', '-lg2o_stuff']

# harness table: property -> build description
CHECKS = json.load(open(os.path.join(HERE, 'harness', 'checks.json')))
SRC_SETS = {'cell': SRC_CELL, 'switch': SRC_SWITCH, 'mix': SRC_MIX, 'space': SRC_SPACE, 'types': SRC_TYPES}

LIMITS = {'quick': 420, 'thorough': 5400}


def compile_one(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, ' '.join(cmd) + '\n' + p.stdout


def build(pid, cfg, bdir):
    opt = cfg.get('opt', '-O1')
    san = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment',
           '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    if cfg.get('sanitize') is False:
        san = []
    flags = ['-std=c++17', '-g1', opt, '-msse3', '-mfpmath=sse', '-w', '-fPIC'] + san
    if cfg.get('openmp') == 'real':
        flags += ['-fopenmp']
    flags += cfg.get('cxxflags', [])
    # the harness directory comes first only for its own headers; stand-ins for
    # absent third-party headers live in stubs/
    inc = ['-I', os.path.join(HERE, 'harness')]
    for s in cfg.get('stubs', []):
        inc += ['-I', os.path.join(HERE, 'stubs', s)]
    inc += ['-I', os.path.join(PKG, 'include'), '-I', PKG, '-isystem', '/usr/include/eigen3',
            '-isystem', '/usr/include/suitesparse']
    srcs = [os.path.join(HERE, 'harness', f) for f in cfg['harness']]
    for s in cfg.get('sources', []):
        srcs += [os.path.join(PKG, f) for f in SRC_SETS[s]]
    # "watched": code under test and harness carry access instrumentation, the
    # files listed here (the other side of it) do not
    plain = [os.path.join(HERE, 'harness', f) for f in cfg.get('watched', [])]
    objs, jobs = [], []
    for i, s in enumerate(srcs + plain):
        o = os.path.join(bdir, '%d_%s.o' % (i, os.path.basename(s)))
        objs.append(o)
        w = ['-fsanitize=thread'] if plain and s not in plain else []
        jobs.append([CXX] + flags + w + inc + ['-c', s, '-o', o])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, jobs))
    for rc, out in res:
        if rc:
            errs = [l for l in out.splitlines() if 'error' in l]
            sys.stderr.write('\n'.join(errs[:12]) + '\n')
            return None
    exe = os.path.join(bdir, 'harness')
    libs = G2O if cfg.get('g2o') else []
    rc, out = compile_one([CXX] + flags + objs + ['-o', exe] + libs + cfg.get('libs', []) + ['-lpthread'])
    if rc:
        sys.stderr.write(out[-6000:])
        return None
    return exe


def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=1:hard_rss_limit_mb=3500:'
                         'allocator_may_return_null=0:max_malloc_fill_size=65536:malloc_fill_byte=165:'
                         'free_fill_byte=90:max_free_fill_size=65536:detect_stack_use_after_return=0')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    e['OMP_NUM_THREADS'] = e.get('OMP_NUM_THREADS', '1')
    e['LC_ALL'] = 'C'
    return e


def bounds(pid):
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] == pid:
            return p['quantifier']['text'] + '.'
    return ''


def main():
    args = sys.argv[1:]
    if args[0] == '--selfcheck':
        # nothing to prepare: every check builds its own harness from /repo
        return 0 if shutil.which(CXX) else 1
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 1
    while i < len(args):
        if args[i] == '--tier':
            tier = args[i + 1]; i += 1
        elif args[i] == '--replay':
            replay = args[i + 1]; i += 1
        i += 1
    if tier not in LIMITS:
        tier = 'quick'
    cfg = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, '_work'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + '_', dir=os.path.join(HERE, '_work'))
    try:
        return run(pid, tier, replay, cfg, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def run(pid, tier, replay, cfg, bdir, t0):
    exe = build(pid, cfg, bdir)
    if exe is None:
        print('NO-ANSWER property=%s harness does not build against %s' % (pid, PKG))
        return 2
    tb = time.time() - t0
    if replay:
        r = json.load(open(replay))
        tr = os.path.join(bdir, 'trace')
        with open(tr, 'w') as f:
            f.write(r['body'] + '\n' + ' '.join(map(str, r['choices'])) + '\n')
        return subprocess.run([exe, '--tier', r.get('tier', tier), '--replay', tr, '--tmp', bdir],
                              env=env()).returncode
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['open']
             if k['property'] == pid]
    out = os.path.join(bdir, 'out.json')
    cmd = [exe, '--tier', tier, '--out', out, '--tmp', bdir, '--jobs', str(os.cpu_count() or 8),
           '--limit', str(cfg.get('limit', {}).get(tier, LIMITS[tier]))]
    if known:
        cmd += ['--known', ','.join(k['key'] for k in known)]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        sys.stderr.write(p.stdout[-3000:])
        print('NO-ANSWER property=%s explorer failed (exit %d)' % (pid, p.returncode))
        return 2
    r = json.load(open(out))
    if r['internal_error']:
        print('NO-ANSWER property=%s explorer: %s' % (pid, r['internal_error']))
        return 2
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': r['states'], 'transitions': r['transitions'],
            'traces_validated_against_impl': r['executions'],
            'oracle_checks': r['checks'], 'merged_executions': r['merged'],
            'exhaustive': r['exhaustive'], 'bodies': r['bodies'],
            'bounds': bounds(pid) + ' Tier %s; per-body executions under bodies.' % tier,
            'samples': r['samples'],
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'build_s': round(tb, 2),
        'violations': 1 if r['violated'] else 0,
    }
    if known:
        ev['coverage']['known_finding_executions'] = r['known']
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if r['violated']:
        rp = os.path.join(HERE, '_work', 'replay_%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'body': r['body'], 'kind': r['kind'],
                       'message': r['message'], 'choices': r['choices'], 'trace': r['trace']}, f, indent=1)
            f.write('\n')
        print('%s in %s: %s' % (r['kind'], r['body'], r['message']))
        for l in r['trace'][-25:]:
            print('   ' + l)
        print('replay with: %s %s --replay %s' % (os.path.join(HERE, 'run.py'), pid, rp))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: held on %d executions, %d distinct states, %d transitions, %d oracle checks%s (%.1fs)' % (
        pid, tier, r['executions'], r['states'], r['transitions'], r['checks'],
        '' if r['exhaustive'] else ' [time cap hit, not exhaustive]', time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
