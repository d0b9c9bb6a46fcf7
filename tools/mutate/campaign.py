#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check): samples mutants of /repo's sources, builds the harness against each through
an overlay and runs the checks of the mutated package until one reports a violation. Prints the survivors.
usage: campaign.py SEED FACTOR [OUT] [FILE ...]   (FACTOR scales the sample: about FACTOR*sqrt(mutants of the file) per file)"""
import json, math, os, random, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
REPO = os.environ.get('MUT_REPO', '/repo')
HARNESS = os.environ.get('MUT_HARNESS', '/verif/harness') # its go.mod names MUT_REPO
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOFLAGS='-mod=readonly')
PACKAGES = 'ring utils rlwe frlwe fckks ckks'.split()
CHECKS = [l.split(': ') for l in """ring/ring_ntt: R03 C01
ring/conjugate: R05 R03
ring/ring_automorphism: R05 C04 K04
ring/ring_basis: R06 K03 F01
ring/ring_scaling: R07 C03
ring/ring_sampler: R08
ring/modular: R01 R02
ring/primes: R04 P01
ring/int: R01
ring/complex128: B02 C01
ring/ring_poly: S01 S02 E01 R02
ring/ring.go: R04 R03 P01 S01 S02 E01 R02
ring/ring_vector: R02 R03 R06 R07 C01
ring/ring_operations: R02 R05 C02
ring/utils: R01 R04 B01 P01
utils/prng: R09
utils/buffer: S01 S02 B01
utils/utils: B01 B02 C04
rlwe/params: P01 C04 S01 S02 X01
rlwe/keygen: K01 K04 K03 X01
rlwe/encryptor: K02 X01 T01
rlwe/decryptor: K02 X01 T01
rlwe/keyswitch: K03 C04 X01
rlwe/ring_qp: R10 K01 S01 S02 E01
rlwe/marshaler: S01 S02
rlwe/keys: E01 S01 K01
rlwe/elements: E01 K04 X01
rlwe/: K01 K02 K03 K04 E01
frlwe/: F01 F02 P01 E01 X01 T01
fckks/: F02 P01 E01 X01 H01
ckks/encoder: C01 X01 T01
ckks/ckks_vector: C01
ckks/utils: C01 C02
ckks/evaluator: C02 C03 C04 X01 H01
ckks/params: P01 S01 S02 X01
ckks/keys: K04 X01
ckks/: E01 C02 K02 S01 S02 X01""".splitlines()]

def order(f):
    return next(v.split() for k, v in CHECKS if f.startswith(k))

def run(job):
    i, f, m = job
    d = tempfile.mkdtemp(prefix='mut')
    try:
        src = open(f'{REPO}/{f}', 'rb').read()
        new = src[:m['from']] + m['new'].encode() + src[m['to']:]
        open(d + '/m.go', 'wb').write(new)
        json.dump({'Replace': {f'{REPO}/{f}': d + '/m.go'}}, open(d + '/o.json', 'w'))
        b = subprocess.run(['go', 'build', '-overlay', d + '/o.json', '-o', d + '/v', '.'], cwd=HARNESS, env=ENV, capture_output=True)
        if b.returncode: return (i, f, m, 'uncompilable', '')
        for p in order(f):
            try:
                r = subprocess.run([d + '/v', 'worker', '-p', p, '-out', d + '/out.json'], cwd=d, env=dict(ENV, VERIF_FIRST='1', GOMAXPROCS='2'), capture_output=True, timeout=200)
            except subprocess.TimeoutExpired:
                return (i, f, m, 'timeout', p)
            if r.returncode != 0: return (i, f, m, 'caught', p)
            if os.path.exists(d + '/out.json') and json.load(open(d + '/out.json')).get('violations'): return (i, f, m, 'caught', p)
        return (i, f, m, 'SURVIVED', '')
    finally:
        subprocess.run(['rm', '-rf', d])

def main():
    rnd = random.Random(int(sys.argv[1])); k = float(sys.argv[2]); out = open(sys.argv[3], 'a') if len(sys.argv) > 3 else sys.stdout
    jobs = []
    for d in PACKAGES:
        for n in sorted(os.listdir(f'{REPO}/{d}')):
            f = f'{d}/{n}'
            if not n.endswith('.go') or n.endswith('_test.go') or 'test_params' in n or 'bench' in n: continue
            if len(sys.argv) > 4 and f not in sys.argv[4:]: continue
            ms = [json.loads(l) for l in subprocess.check_output(['/tmp/mutator'] + ['-typed'] * ('MUT_TYPED' in os.environ) + ['-guarded'] * ('MUT_GUARDED' in os.environ) + [f'{REPO}/{f}'], cwd=HARNESS, env=ENV).splitlines()]
            n = min(len(ms), math.ceil(k * math.sqrt(len(ms))))
            jobs += [(f, m) for m in rnd.sample(ms, n)]
    rnd.shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    count = {}
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '7'))) as ex:
        for t in as_completed([ex.submit(run, (i, f, m)) for i, (f, m) in enumerate(jobs)]):
            i, f, m, res, p = t.result()
            count[res] = count.get(res, 0) + 1
            if res != 'uncompilable':
                l = f"{res:9s} {p:4s} {f}:{m['line']} {m['func']}: {m['op']} -> {m['new'][:100]!r} [{m['from']},{m['to']}]"
                print(l, file=out, flush=True)
    print(count, file=out, flush=True)
main()
