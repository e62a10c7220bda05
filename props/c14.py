"""C14: a Set is a multiset of traces, through merges, storage and crashes."""
import numpy as np

from sim import gen, ref
from sim.core import Violation, _Random
from sim.lib import call, unexpected
from . import common

RUNS = {'quick': 8000, 'thorough': 300000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = ['the file system below the scratch folder', 'process kill']
ASSUMPTIONS = ['each distinct trace is given once when a set is created with explicit multiplicities', 'labels without line breaks', 'what was handed to the operating system survives a kill of the process']
RULE = 'a history of creations, merges, sorts, saves, loads and restarts over several sets and files, with kills, Ctrl-C and disk errors inside saves and loads, against a reference multiset. Non-trivial: a set was changed after it was loaded, or a fault fired.'
TWIN = True


def traces(rng, t):
	"""a few distinct traces of one kind"""
	if t == 3:
		d = rng.randint(1, 3)
		return [[[round(rng.uniform(-5, 5), rng.choice([1, 17])) for _ in range(d)] for _ in range(rng.randint(1, 4))] for _ in range(6)]
	lab = rng.choice(gen.LABELS)
	acts = rng.choice(gen.ACTIONS)
	out = []
	for _ in range(6):
		n = rng.randint(1, 4)
		if t == 0:
			x = [rng.choice(lab) for _ in range(n)]
			if rng.random() < 0.2 and n > 1:
				x = [rng.choice(lab)]
		elif t == 1:
			x = [rng.choice(lab)]
			for _ in range(n):
				x += [rng.choice(acts), rng.choice(lab)]
		else:
			x = [rng.choice(lab)]
			for _ in range(n):
				x += [rng.choice([rng.random(), 1e-17, 3.0, 1e22, 0.1+0.2]), rng.choice(lab)]
		if x not in out:
			out.append(x)
	return out


def generate(rng, i, tier):
	t = rng.choice([0, 0, 1, 3, 4])
	pool = traces(rng, t)
	t2 = rng.choice([0, 1, 3, 4])
	pool2 = traces(rng, t2)
	ops = []
	for _ in range(rng.randint(3, 12)):
		k = rng.random()
		a, b = rng.randrange(3), rng.randrange(3)
		if k < 0.25:
			ops.append(['list', a, [rng.randrange(6) for _ in range(rng.randint(1, 7))], rng.random() < 0.05, rng.random() < 0.5])
		elif k < 0.35:
			ids = rng.sample(range(6), rng.randint(0, 4))
			ops.append(['counts', a, ids, [rng.choice([1, 1, 2, 7, 1000, 10**7]) for _ in ids], rng.random() < 0.5])
		elif k < 0.6:
			ops.append(['add', a, b])
		elif k < 0.65:
			ops.append(['sort', a])
		elif k < 0.82:
			f = rng.random()
			fault = None
			if f < 0.35:
				fault = ['crash', rng.randint(0, 7)]
			elif f < 0.6:
				fault = [rng.choice(['EIO', 'ENOSPC']), rng.randint(0, 7), rng.random() < 0.5]
			elif f < 0.7:
				fault = ['interrupt', rng.randint(0, 7)]
			ops.append(['save', a, rng.randrange(2), fault])
		elif k < 0.95:
			ops.append(['load', a, rng.randrange(2), None if rng.random() < 0.85 else rng.randint(0, 5)])
		else:
			ops.append(['equal', a, b])
		if rng.random() < 0.2:
			ops.append(['near', a, b, rng.choice(['same', 'rotate', 'swap', 'replace', 'move', 'drop']), rng.randrange(1 << 20)])
	return {'env': dict(gen.env(rng), twin=rng.random() < 0.1), 't': t, 'pool': pool, 't2': t2, 'pool2': pool2, 'ops': ops, 'buf': rng.choice([1, 5, 16, 64, 8192])}


def content(s):
	c = {}
	for x, n in zip(s.sequences, s.times):
		k = repr(plain(x))
		c[k] = c.get(k, 0)+int(n)
	return {'type': s.type, 'traces': c}


def plain(x):
	return [plain(y) for y in x] if isinstance(x, (list, tuple)) else (float(x) if isinstance(x, float) else x)


def execute(ja, wl, w):
	sets, model = {}, {}
	files = {}
	fs = w.fs
	changed_after_load = set()
	obs = []

	def check(a, what):
		s, m = sets[a], model[a]
		got = content(s)
		if got != m:
			return Violation(what, 'the set has %s, it should have %s' % (str(got)[:500], str(m)[:500]))
		if len(s.sequences) != len(s.times) or any(int(n) != n or n < 1 for n in s.times):
			return Violation(what, 'multiplicities %r of %d traces' % (list(s.times), len(s.sequences)))
		if len(set(repr(plain(x)) for x in s.sequences)) != len(s.sequences):
			return Violation(what, 'a trace is stored twice')
		tot = sum(m['traces'].values())
		if tot < 3000:
			o = call(s.to_list)
			if not o.ok:
				return unexpected(o, 'to_list')
			c = {}
			for x in o.value:
				c[repr(plain(x))] = c.get(repr(plain(x)), 0)+1
			if c != m['traces']:
				return Violation(what, 'to_list gives %s instead of %s' % (str(c)[:400], str(m)[:400]))
			w.ops += 1
		ts = [eval(k) for k in m['traces']]
		if m['type'] in (0, 1, 4) and ts:
			o = call(s.getAlphabet)
			if not o.ok:
				return unexpected(o, 'getAlphabet')
			want = sorted(set(y for x in ts for y in (x if m['type'] == 0 else x[0::2])))
			if sorted(o.value) != want:
				return Violation(what, 'alphabet %r instead of %r' % (o.value, want))
			if m['type'] == 1:
				o = call(s.getActionsObservations)
				if not o.ok:
					return unexpected(o, 'getActionsObservations')
				if sorted(o.value[1]) != want or sorted(o.value[0]) != sorted(set(y for x in ts for y in x[1::2])):
					return Violation(what, 'actions and observations %r' % (o.value,))
				obs.append(sorted(o.value[0]))
		return None

	for j, op in enumerate(wl['ops']):
		k, a = op[0], op[1]
		t, pool = (wl['t2'], wl['pool2']) if k in ('list',) and op[3] else (wl['t'], wl['pool'])
		w.tags[k] = w.tags.get(k, 0)+1
		w.ops += 1
		if k == 'list':
			xs = [gen._copy(pool[i % len(pool)]) for i in op[2]]
			guess = op[4] and len(xs[0]) > 1 and t != 1
			o = call(ja.Set, xs, None, None) if guess else call(ja.Set, xs, t=t)
			if not o.ok:
				return [unexpected(o, 'Set')]
			sets[a] = o.value
			c = {}
			for x in xs:
				c[repr(x)] = c.get(repr(x), 0)+1
			model[a] = {'type': t, 'traces': c}
		elif k == 'counts':
			ids = [i for i in op[2] if i < len(pool)]
			xs = [gen._copy(pool[i]) for i in ids]
			ns = op[3][:len(ids)]
			o = call(ja.Set, xs, np.array(ns) if op[4] else list(ns), t)
			if not o.ok:
				return [unexpected(o, 'Set')]
			sets[a] = o.value
			model[a] = {'type': t, 'traces': {repr(x): n for x, n in zip(xs, ns)}}
		elif k == 'add':
			b = op[2]
			if a not in sets or b not in sets or a == b:
				continue
			o = call(sets[a].addSet, sets[b])
			if model[a]['type'] != model[b]['type']:
				if o.ok or o.kind != 'TypeError':
					return [Violation('add', 'sets of two kinds were merged: %r' % o)]
			elif not o.ok:
				return [unexpected(o, 'addSet')]
			else:
				for x, n in model[b]['traces'].items():
					model[a]['traces'][x] = model[a]['traces'].get(x, 0)+n
				if a in changed_after_load:
					w.nontrivial = True
			v = check(b, 'add')
			if v:
				return [v]
		elif k == 'sort':
			if a not in sets:
				continue
			o = call(sets[a].sort)
			if not o.ok:
				return [unexpected(o, 'sort')]
			if sets[a].sequences != sorted(sets[a].sequences):
				return [Violation('sort', 'not sorted: %r' % sets[a].sequences)]
		elif k == 'save':
			if a not in sets:
				continue
			path = 's%d.txt' % op[2]
			f = op[3]
			fs.arm(crash_at=f[1] if f and f[0] == 'crash' else None, fail_at=(f[1], f[0], f[2]) if f and f[0] in ('EIO', 'ENOSPC') else None,
				   interrupt_at=f[1] if f and f[0] == 'interrupt' else None, bufsize=wl['buf'])
			n0 = sum(w.fired.values())
			o = call(sets[a].save, path)
			fs.kill()
			fs.disarm()
			hit = sum(w.fired.values()) > n0
			if not hit and not o.ok:
				return [unexpected(o, 'save')]
			may, broken = files.get(path, ([], True))
			import copy
			if o.ok:
				files[path] = ([copy.deepcopy(model[a])], False)
			else:
				files[path] = (may+[copy.deepcopy(model[a])], True)
				w.nontrivial = True
			if f and f[0] == 'crash' and hit:
				sets.clear()
				model.clear()
				w.tags['restart'] = w.tags.get('restart', 0)+1
				continue
		elif k == 'load':
			path = 's%d.txt' % op[2]
			if path not in files:
				continue
			may, broken = files[path]
			if op[3] is not None:
				fs.arm(fail_at=(op[3], 'EIO', False))
			n0 = sum(w.fired.values())
			o = call(ja.loadSet, path)
			fs.disarm()
			hit = sum(w.fired.values()) > n0
			if not o.ok:
				if not broken and not hit or o.kind in ('hang', 'crash', 'interrupt'):
					return [unexpected(o, 'loadSet')]
				continue
			got = content(o.value)
			if got not in may:
				return [Violation('load', 'the file was written with %s, it is read as %s' % (str(may[-1])[:500], str(got)[:500]))]
			sets[a] = o.value
			model[a] = copy_of(got)
			changed_after_load.add(a)
		elif k == 'near':
			# almost the content of another set, in another order
			b = op[2]
			if a == b or b not in sets or not model[b]['traces']:
				continue
			rng = _Random(op[4])
			items = [[eval(x), n] for x, n in model[b]['traces'].items()]
			rng.shuffle(items)
			ns = [n for _, n in items]
			if op[3] == 'rotate':
				ns = ns[1:]+ns[:1]
			elif op[3] == 'swap' and len(ns) > 1:
				ns[0], ns[1] = ns[0]+1, max(1, ns[1]-1)
			elif op[3] == 'replace':
				new = [x for x in pool if model[b]['type'] == wl['t'] and repr(x) not in model[b]['traces']]
				if new:
					items[0][0] = new[0]
			elif op[3] == 'move':
				items[0][0] = items[0][0]+items[0][0][-2:]
			elif op[3] == 'drop' and len(ns) > 1:
				ns[0] += ns.pop()
				items.pop()
			xs = [gen._copy(x) for x, _ in items]
			if len(set(map(repr, xs))) != len(xs):
				continue
			o = call(ja.Set, xs, np.array(ns), model[b]['type'])
			if not o.ok:
				return [unexpected(o, 'Set')]
			sets[a] = o.value
			model[a] = {'type': model[b]['type'], 'traces': {repr(x): n for x, n in zip(xs, ns)}}
			changed_after_load.discard(a)
		elif k == 'equal':
			b = op[2]
			if a not in sets or b not in sets:
				continue
			o = call(sets[a].isEqual, sets[b])
			if not o.ok:
				return [unexpected(o, 'isEqual')]
			if bool(o.value) != (model[a] == model[b]):
				return [Violation('equal', 'isEqual says %r for %s and %s' % (o.value, str(model[a])[:400], str(model[b])[:400]))]
		if a in sets:
			v = check(a, k)
			if v:
				return [v]
			for b in sorted(sets):
				for x, y in ((a, b), (b, a)):
					o = call(sets[x].isEqual, sets[y])
					if not o.ok:
						return [unexpected(o, 'isEqual')]
					if bool(o.value) != (model[x] == model[y]):
						return [Violation('equal', 'isEqual says %r for %s and %s' % (o.value, str(model[x])[:400], str(model[y])[:400]))]
	w.observe = {'sets': {str(a): [model[a]['type'], sorted(content(s)['traces'].items())] for a, s in sets.items()}, 'actions': obs}
	return []


def copy_of(m):
	import copy
	return copy.deepcopy(m)
