"""Runs simulated executions of one property in this process.

  python -m sim.runner shard  <prop> <tier> <seed> <shard> <nshards> <out.json>
  python -m sim.runner replay <replay.json> [<out.json>]
"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import boot, core, shrink, twin      # noqa: E402
from sim.core import World, Violation, SimHang, mix     # noqa: E402

_now = time.monotonic      # the real clock, before the seams


def scratch():
	base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
	return tempfile.mkdtemp(prefix='jsim-', dir=base)


class HarnessError(Exception):
	pass


def execute(mod, workload, seed, tape, root):
	"""One simulated run. Returns (violations, world)."""
	for n in os.listdir(root):
		p = os.path.join(root, n)
		shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
	w = World(seed, json.loads(json.dumps(workload['env'])), tape)
	w.tags = {}
	w.observe = None
	w.nontrivial = False
	w.ops = 0
	os.chdir(root)
	with boot.run_in(w, root):
		try:
			vs = mod.execute(boot.jajapy, json.loads(json.dumps(workload)), w) or []
		except SimHang as e:
			vs = [Violation('hang', str(e))]
		except KeyboardInterrupt:
			raise HarnessError('unhandled simulated interrupt')
		except Exception as e:
			tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
			vs = [Violation('exception:'+type(e).__name__, tb)]
	vs = [v for v in vs if v]
	if w.observe is not None:
		w.observe = json.loads(json.dumps(w.observe, default=_plain))
		if getattr(mod, 'TWIN', False) and not twin.IS_TWIN and not vs and workload['env'].get('twin', True):
			r = twin.ask(mod.__name__.split('.')[-1], boot.STORMPY, workload, seed, tape)
			if r is not None:
				w.tags['hash seed twin'] = 1
				if r['violations']:
					vs = [Violation(v['kind'], 'in the process with another hash seed: '+v['detail']) for v in r['violations']]
				else:
					m = same(mod, w.observe, r['observe'])
					if m:
						vs = [Violation('hash-seed', 'the result depends on the hash seed: '+m)]
	return vs, w


def same(mod, a, b):
	if hasattr(mod, 'compare'):
		return mod.compare(a, b)
	if a == b:
		return None
	if isinstance(a, dict) and isinstance(b, dict):
		for k in a:
			if a.get(k) != b.get(k):
				return '%s: %s / %s' % (k, str(a.get(k))[:300], str(b.get(k))[:300])
	return '%s / %s' % (str(a)[:400], str(b)[:400])


def _plain(x):
	if hasattr(x, 'tolist'):
		return x.tolist()
	return str(x)


def workload_of(mod, seed, prop, i, tier):
	s = mix(seed, prop, i)
	rng = core._Random(mix(s, 'gen'))
	wl = mod.generate(rng, i, tier)
	wl.setdefault('env', {})
	return wl, mix(s, 'world')


def load_known():
	p = os.path.join(HERE, 'known_findings.json')
	if not os.path.exists(p):
		return []
	with open(p) as f:
		return [e for e in json.load(f)['findings'] if e.get('status') == 'open']


def matches(known, prop, v):
	for e in known:
		if e['property'] == prop and e['kind'] == v['kind'] and e.get('contains', '') in v['detail']:
			return e
	return None


def shard_main(prop, tier, seed, shard, nshards, out):
	mod = importlib.import_module('props.'+prop.lower())
	t0 = _now()
	stormpy = mod.stormpy(shard) if hasattr(mod, 'stormpy') else True
	boot.install(stormpy)
	boot.load()
	t1 = _now()
	total = mod.RUNS[tier]
	cap = float(os.environ.get('VERIF_CAP', '420' if tier == 'quick' else '3000'))
	root = scratch()
	known = load_known()
	res = dict(shard=shard, hashseed=os.environ.get('PYTHONHASHSEED'), stormpy=stormpy, runs=0, nontrivial=[], schedules=[], fired={}, opportunities={},
			   sim_time=0.0, steps=0, draws=0, tags={}, violation=None, known={}, samples=[], import_s=t1-t0, determinism=[0, 0], capped=False, ops=0, error=None)
	nt, sch = set(), set()
	try:
		for i in range(shard, total, nshards):
			if _now()-t1 > cap:
				res['capped'] = True
				break
			wl, ws = workload_of(mod, seed, prop, i, tier)
			vs, w = execute(mod, wl, ws, None, root)
			res['runs'] += 1
			for k, v in w.fired.items():
				res['fired'][k] = res['fired'].get(k, 0)+v
			for k, v in w.opportunities.items():
				res['opportunities'][k] = res['opportunities'].get(k, 0)+v
			for k, v in w.tags.items():
				res['tags'][k] = res['tags'].get(k, 0)+v
			res['sim_time'] += max(0.0, w.now-w.started)
			res['steps'] += w.steps
			res['draws'] += w.draws
			res['ops'] += w.ops
			sch.add(w.schedule_digest())
			if w.nontrivial:
				nt.add(mix(json.dumps(wl, sort_keys=True), w.digest()))
			if len(res['samples']) < 1 and w.nontrivial and shard < 2:
				res['samples'].append(dict(run=i, workload=_short(wl), trace=[list(map(str, e)) for e in w.log[:25]], decisions=len(w.tape)))
			# the same seed must give the same execution
			if i // nshards < 3:
				vs2, w2 = execute(mod, wl, ws, None, root)
				res['determinism'][1] += 1
				if w2.digest() == w.digest() and [v['kind'] for v in vs] == [v['kind'] for v in vs2]:
					res['determinism'][0] += 1
			new = []
			for v in vs:
				e = matches(known, prop, v)
				if e:
					res['known'][e['id']] = res['known'].get(e['id'], 0)+1
				else:
					new.append(v)
			if new:
				res['violation'] = report(mod, prop, tier, seed, i, wl, ws, w, new[0], root, known)
				break
	except HarnessError as e:
		res['error'] = str(e)
	finally:
		twin.stop()
		os.chdir(HERE)
		shutil.rmtree(root, ignore_errors=True)
	res['nontrivial'] = sorted(nt)
	res['schedules'] = sorted(sch)
	res['wall'] = _now()-t1
	with open(out, 'w') as f:
		json.dump(res, f)


def _short(x, depth=0):
	s = json.dumps(x)
	return x if len(s) < 2500 else s[:2500]+'...'


def report(mod, prop, tier, seed, i, wl, ws, w, v, root, known):
	def test(wl2, tape2):
		t0 = _now()
		try:
			vs, w2 = execute(mod, wl2, ws, tape2, root)
		except Exception:
			return None
		finally:
			spent[0] = max(spent[0], _now()-t0)
		for x in vs:
			if x['kind'] == v['kind'] and not matches(known, prop, x):
				return x, w2
		return None
	spent = [0.0]
	best = shrink.minimise(mod, wl, w.tape, v, w, test, _now, float(os.environ.get('VERIF_SHRINK', '25')), spent)
	wl2, tape, v2, w2 = best
	d = os.path.join(HERE, 'replays')
	os.makedirs(d, exist_ok=True)
	path = os.path.join(d, '%s-%s-%d.json' % (prop, seed, i))
	with open(path, 'w') as f:
		json.dump(dict(property=prop, seed=seed, run=i, tier=tier, world_seed=ws, hashseed=os.environ.get('PYTHONHASHSEED'),
					   stormpy=boot.STORMPY, violation=v2, workload=wl2, tape=tape,
					   trace=[list(map(str, e)) for e in w2.log[-400:]], digest=w2.digest(),
					   original=dict(workload_chars=len(json.dumps(wl)), decisions=len(w.tape), detail=v['detail'])), f, indent=1)
	return dict(path=path, kind=v2['kind'], detail=v2['detail'], run=i)


def replay_main(path, out=None):
	with open(path) as f:
		r = json.load(f)
	mod = importlib.import_module('props.'+r['property'].lower())
	boot.install(r['stormpy'])
	boot.load()
	root = scratch()
	try:
		vs, w = execute(mod, r['workload'], r['world_seed'], r['tape'], root)
	finally:
		twin.stop()
		os.chdir(HERE)
		shutil.rmtree(root, ignore_errors=True)
	again = any(v['kind'] == r['violation']['kind'] for v in vs)
	res = dict(reproduced=again, exact=again and w.digest() == r['digest'], violations=vs, trace=[list(map(str, e)) for e in w.log])
	if out:
		with open(out, 'w') as f:
			json.dump(res, f)
	return res


def serve_main(prop, stormpy):
	twin.IS_TWIN = True
	fd = os.dup(1)
	os.dup2(2, 1)
	out = os.fdopen(fd, 'w')
	mod = importlib.import_module('props.'+prop)
	boot.install(stormpy)
	boot.load()
	root = scratch()
	try:
		for line in sys.stdin:
			wl, seed, tape = json.loads(line)
			vs, w = execute(mod, wl, seed, tape, root)
			out.write(json.dumps(dict(violations=vs, observe=w.observe))+'\n')
			out.flush()
	finally:
		os.chdir(HERE)
		shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
	if sys.argv[1] == 'serve':
		serve_main(sys.argv[2], sys.argv[3] == '1')
	elif sys.argv[1] == 'shard':
		_, _, prop, tier, seed, shard, nshards, out = sys.argv
		shard_main(prop, tier, int(seed), int(shard), int(nshards), out)
	else:
		print(json.dumps(replay_main(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None), indent=1))
