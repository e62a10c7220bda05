"""C12: models survive storage exactly, whatever happens to the disk."""
import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, unexpected
from . import common

RUNS = {'quick': 6000, 'thorough': 200000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = ['the file system below the scratch folder (user-space buffers of a chosen size, every system call is a fault point; the bytes live in real scratch files)', 'process kill']
ASSUMPTIONS = ['what was handed to the operating system survives a kill of the process; power loss (lost page cache) is not modelled', 'constants of parametric models keep 12 significant digits', 'labels and names without line breaks']
RULE = 'a history of saves and loads of random models of the 6 types (also chains load-save-load) on a simulated file system with a kill, Ctrl-C, EIO or ENOSPC at any operation, and loads of the wrong kind. Non-trivial: a fault fired between two operations on the same file, or a chain was followed.'

LOADERS = {'MC': 'loadMC', 'MDP': 'loadMDP', 'HMM': 'loadHMM', 'GoHMM': 'loadGoHMM', 'CTMC': 'loadCTMC', 'PCTMC': 'loadPCTMC'}


def generate(rng, i, tier):
	k = rng.randint(1, 3)
	t = rng.choice(gen.ALL)
	specs = []
	for _ in range(k):
		s = gen.rare(rng, gen.model(rng, t if rng.random() < 0.8 else None, absorbing=rng.random() < 0.3))
		if s['t'] == 'PCTMC':
			if rng.random() < 0.4:
				del s['values'][rng.choice(s['params'])]
			if rng.random() < 0.3:
				s['values'] = {p: v*(1+2.0**-rng.randint(3, 40)) for p, v in s['values'].items()}
			if rng.random() < 0.2 and s['values']:
				s['values'][rng.choice(sorted(s['values']))] = rng.choice([0.0, 0.0, 1.0, 1e-9])
		elif rng.random() < 0.3:
			s['A'] = np.array(s['A'], dtype=float).tolist()
		specs.append(s)
	ops = []
	for _ in range(rng.randint(2, 7)):
		r = rng.random()
		path = rng.randrange(2)
		if r < 0.55:
			f = rng.random()
			fault = None
			if f < 0.35:
				fault = ['crash', rng.randint(0, 8)]
			elif f < 0.6:
				fault = [rng.choice(['EIO', 'ENOSPC']), rng.randint(0, 8), rng.random() < 0.5]
			elif f < 0.7:
				fault = ['interrupt', rng.randint(0, 8)]
			ops.append(['save', path, rng.randrange(k), fault])
		elif r < 0.8:
			ops.append(['load', path, None if rng.random() < 0.8 else rng.randint(0, 4)])
		elif r < 0.9:
			ops.append(['wrong', path, rng.choice(gen.ALL)])
		else:
			ops.append(['copy', path, 1-path])
	ops.append(['load', rng.randrange(2), None])
	return {'env': gen.env(rng), 'specs': specs, 'ops': ops, 'buf': rng.choice([1, 7, 64, 200, 8192, 1 << 20])}


def same(v, spec):
	tol = 1e-12 if spec['t'] == 'PCTMC' else 0.0
	return ref.differ(v, spec_view(spec), tol, 0.0, name=True)


def spec_view(spec):
	if spec['t'] != 'PCTMC':
		return ref.spec_view(spec)
	v = {'t': 'PCTMC', 'name': spec['name'], 'pi': np.array(ref.pi(spec), dtype=float), 'labels': list(spec['labels']), 'params': list(spec['params']), 'values': dict(spec['values'])}
	n = len(spec['labels'])
	A = np.zeros((n, n))
	for s, d, c, pw in spec['trans']:
		x = c
		for p in pw:
			x = x*spec['values'][p]**pw[p] if p in spec['values'] else np.nan
		A[s, d] += x
	v['A'] = A
	return v


def view(h):
	v = ref.view(h)
	if v['t'] == 'PCTMC':
		v['values'] = {p: x for p, x in v['values'].items() if not np.isnan(x)}
	return v


def execute(ja, wl, w):
	specs = wl['specs']
	fs = w.fs
	state = {}        # path -> (contents it may have, may be broken)

	def build(j):
		s = dict(specs[j])
		if s['t'] == 'PCTMC':
			s['values'] = dict({p: np.nan for p in s['params']}, **s['values'])
		return ref.build(ja, s)

	def load(path, t, where, exact_error=True):
		o = call(getattr(ja, LOADERS[t]), path)
		w.ops += 1
		return o
	for op in wl['ops']:
		path = 'm%d.txt' % op[1]
		may, broken = state.get(path, ([], True))
		if op[0] == 'save':
			h = build(op[2])
			f = op[3]
			fs.arm(crash_at=f[1] if f and f[0] == 'crash' else None, fail_at=(f[1], f[0], f[2]) if f and f[0] in ('EIO', 'ENOSPC') else None,
				   interrupt_at=f[1] if f and f[0] == 'interrupt' else None, bufsize=wl['buf'])
			n0 = sum(w.fired.values())
			o = call(h.save, path)
			fs.kill()
			fs.disarm()
			hit = sum(w.fired.values()) > n0
			w.ops += 1
			w.tags['save '+specs[op[2]]['t']] = 1
			if not hit and not o.ok:
				return [unexpected(o, 'save')]
			if o.ok:
				state[path] = ([op[2]], False)
			else:
				state[path] = (may+[op[2]], True)
			if hit:
				w.nontrivial = True
		elif op[0] == 'load':
			if not may:
				continue
			if op[2] is not None:
				fs.arm(fail_at=(op[2], 'EIO', False))
			n0 = sum(w.fired.values())
			kinds = sorted(set(specs[j]['t'] for j in may))
			outs = [(t, load(path, t, 'load')) for t in kinds]
			fs.disarm()
			hit = sum(w.fired.values()) > n0
			for t, o in outs:
				if not o.ok:
					if not broken and not hit:
						return [unexpected(o, 'load')]
					if o.kind in ('hang', 'crash', 'interrupt'):
						return [unexpected(o, 'load')]
					continue
				ds = [same(view(o.value), specs[j]) for j in may]
				if all(ds):
					return [Violation('different', 'a %s was loaded that was never saved there: %s' % (t, ds[-1]))]
				w.tags['loaded '+t] = 1
		elif op[0] == 'wrong':
			if not may or any(specs[j]['t'] == op[2] for j in may):
				continue
			o = load(path, op[2], 'wrong')
			if o.ok:
				return [Violation('wrong-kind', 'the file of a %s was loaded as a %s' % (specs[may[0]]['t'], op[2]))]
			if o.kind in ('hang',):
				return [unexpected(o, 'load')]
			w.tags['wrong kind refused'] = 1
		elif op[0] == 'copy':
			if len(may) != 1 or broken:
				continue
			o = load(path, specs[may[0]]['t'], 'copy')
			if not o.ok:
				return [unexpected(o, 'load')]
			o2 = call(o.value.save, 'm%d.txt' % op[2])
			if not o2.ok:
				return [unexpected(o2, 'save')]
			state['m%d.txt' % op[2]] = ([may[0]], False)
			w.nontrivial = True
	return []
