#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   run the check of one property
check.py replay <replay.json>            replay a violation in a fresh process"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
if PY != sys.executable and __name__ == '__main__' and not os.environ.get('JCHK_EXEC'):
	os.environ['JCHK_EXEC'] = '1'
	os.execv(PY, [PY]+sys.argv)


def child_env(hashseed):
	e = dict(os.environ)
	e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
	e.pop('PYTHONPATH', None)
	return e


def hashseed(seed, prop, shard):
	from sim.core import mix
	return 0 if shard == 0 else mix('hash', seed, prop, shard) % 4294967295


def replay(path, quiet=False):
	with open(path) as f:
		r = json.load(f)
	fd, out = tempfile.mkstemp(suffix='.json')
	os.close(fd)
	try:
		p = subprocess.run([PY, '-m', 'sim.runner', 'replay', path, out], cwd=HERE, env=child_env(r['hashseed']), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
		with open(out) as f:
			txt = f.read()
		res = json.loads(txt) if txt else {'reproduced': False, 'exact': False, 'error': p.stdout.decode()[-2000:]}
	finally:
		os.unlink(out)
	return r, res


def main():
	if sys.argv[1] == 'replay':
		r, res = replay(sys.argv[2])
		print(json.dumps(res, indent=1))
		if res['reproduced']:
			print('VIOLATION property=%s replay=%s' % (r['property'], sys.argv[2]))
			return 1
		return 0
	prop = sys.argv[1]
	tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
	seed = int(os.environ.get('VERIF_SEED', '1'))
	import importlib
	t0 = time.time()
	mod = importlib.import_module('props.'+prop.lower())
	nsh = int(os.environ.get('VERIF_SHARDS', '8'))
	tmp = tempfile.mkdtemp(prefix='jchk-')
	procs = []
	for s in range(nsh):
		out = os.path.join(tmp, 's%d.json' % s)
		err = open(os.path.join(tmp, 's%d.err' % s), 'w')
		procs.append((s, out, err, subprocess.Popen([PY, '-m', 'sim.runner', 'shard', prop, tier, str(seed), str(s), str(nsh), out],
					  cwd=HERE, env=child_env(hashseed(seed, prop, s)), stdout=err, stderr=err)))
	limit = 780 if tier == 'quick' else 5400
	results, errors = [], []
	for s, out, err, p in procs:
		try:
			p.wait(timeout=max(1, limit-(time.time()-t0)))
		except subprocess.TimeoutExpired:
			p.kill()
			p.wait()
			errors.append('shard %d: timeout' % s)
		err.close()
		if os.path.exists(out):
			with open(out) as f:
				results.append(json.load(f))
			if results[-1]['error']:
				errors.append('shard %d: %s' % (s, results[-1]['error']))
		else:
			with open(err.name) as f:
				errors.append('shard %d: %s' % (s, f.read()[-3000:]))
	import shutil
	shutil.rmtree(tmp, ignore_errors=True)
	wall = time.time()-t0
	bad = [r['violation'] for r in results if r['violation']]
	bad.sort(key=lambda v: v['run'])
	evidence(mod, prop, tier, seed, results, wall, len(bad))
	for fid in sorted(set(k for r in results for k in r['known'])):
		print('KNOWN-FINDING: property=%s %s' % (prop, fid))
	if bad:
		v = bad[0]
		_, res = replay(v['path'])
		print('property %s is violated: %s\n%s' % (prop, v['kind'], v['detail']))
		print('replay in a fresh process: %s' % ('exact' if res.get('exact') else 'reproduced' if res.get('reproduced') else 'NOT reproduced'))
		print('VIOLATION property=%s replay=%s' % (prop, v['path']))
		return 1
	if errors or not results:
		# a tree on which the library cannot even be loaded breaks every property
		print('\n'.join(errors))
		return 2
	runs = sum(r['runs'] for r in results)
	print('%s %s: %d simulated runs, no violation (%.1fs)' % (prop, tier, runs, wall))
	return 0


def evidence(mod, prop, tier, seed, results, wall, nbad):
	def tot(k):
		o = {}
		for r in results:
			for a, b in r[k].items():
				o[a] = o.get(a, 0)+b
		return dict(sorted(o.items()))
	runs = sum(r['runs'] for r in results)
	nt = set(x for r in results for x in r['nontrivial'])
	sch = set(x for r in results for x in r['schedules'])
	busy = max([r['wall'] for r in results] or [1e-9])
	ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, wall_s=round(wall, 2), violations=nbad,
			  assumptions=list(mod.ASSUMPTIONS),
			  coverage=dict(
				  evaluations=runs, distinct_nontrivial=len(nt), rule=mod.RULE,
				  samples=[s for r in results for s in r['samples']][:3],
				  runs_per_hour=int(runs/max(busy, 1e-9)*3600), seeds_per_hour=int(runs/max(busy, 1e-9)*3600),
				  run_indices='0..%d, run seed = mix(VERIF_SEED, property, index)' % (mod.RUNS[tier]-1),
				  simulated_seconds=round(sum(r['sim_time'] for r in results), 3),
				  simulated_steps=sum(r['steps'] for r in results), random_draws=sum(r['draws'] for r in results),
				  library_calls=sum(r['ops'] for r in results),
				  faults_injected=tot('fired'), fault_opportunities=tot('opportunities'),
				  distinct_schedules=len(sch), distinct_schedules_measure='distinct sequences of task submission/start/completion events and faults',
				  tags=tot('tags'), hash_seeds=[r['hashseed'] for r in results],
				  determinism='%d of %d runs executed twice gave the identical trace' % (sum(r['determinism'][0] for r in results), sum(r['determinism'][1] for r in results)),
				  capped_by_time=any(r['capped'] for r in results),
				  real_components=mod.REAL, stub_components=mod.STUB))
	os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
	with open(os.path.join(HERE, 'evidence', prop+'.json'), 'w') as f:
		json.dump(ev, f, indent=1)


if __name__ == '__main__':
	sys.exit(main())
