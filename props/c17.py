"""C17: instantiating the parameters of a model is all or nothing."""
import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, interrupt_after, unexpected
from . import common
from .c21 import text, value

RUNS = {'quick': 2600, 'thorough': 200000}
LEVEL = 'exploration'
REAL = common.REAL+['sympy (symbolic rates)']
STUB = ['random generators with boundary draws', 'entropy', 'Ctrl-C at a chosen executed line']
ASSUMPTIONS = ['an instantiation is invalid when a rate all of whose parameters have a value is negative', 'rates within 1e-9 of zero are not judged', 'random instantiation is asked only for ranges in which valid values are not rare']
RULE = 'a history of full, partial, repeated, invalid, random and interrupted instantiations of models with polynomial rates (negative terms included), with queries between them, against a dictionary. Non-trivial: at least one instantiation was refused or interrupted, or one was made on a partly instantiated model.'

LAB = [list('abcdef'), ['ok', 'ko', 'x1', 'x2'], ['aa', 'aa', 'aa', 'aa']]


def generate(rng, i, tier):
	n = rng.randint(1, 4)
	lab = rng.choice(LAB)[:n]
	params = rng.sample(rng.choice([['p', 'q', 'k1', 'alpha', 'rate_x']]*3+[['lambda', 'beta', 'E', 'S', 'N', 'gamma', 'I', 'pi', 'mu']]), rng.randint(1, 4))
	trans, seen = [], set()
	for _ in range(rng.randint(n, 3*n)):
		s, d = rng.randrange(n), rng.randrange(n)
		if (s, d) in seen:
			continue
		seen.add((s, d))
		k = rng.random()
		if k < 0.25:
			r = [[round(rng.uniform(0.1, 3), 2), {}]]
		elif k < 0.5:
			r = [[round(rng.uniform(0.1, 3), 2), {rng.choice(params): rng.choice([1, 1, 2])}]]
		elif k < 0.75 or len(params) < 2:
			# 3 - p
			r = [[round(rng.uniform(0.5, 4), 2), {}], [-1.0, {rng.choice(params): 1}]]
		else:
			a, b = rng.sample(params, 2)
			r = rng.choice([[[1.0, {a: 1}], [-0.5, {b: 1}]], [[1.0, {a: 1, b: 1}]], [[2.0, {}], [-1.0, {a: 1, b: 1}]], [[1.0, {a: 1}], [1.0, {b: 2}]]])
		trans.append([s, d, r])
	for s in range(n):
		if all(s not in x[:2] for x in trans):
			trans.append([s, (s+1) % n, [[1.0, {}]]])
	init = rng.choice([0, gen.dist(rng, n)])
	while True:
		given = {p: val(rng) for p in params if rng.random() < 0.4}
		if judge(trans, given) is True or rng.random() < 0.02 and judge(trans, {}):
			break
	if judge(trans, given) is not True:
		given = {}
	ops = []
	for _ in range(rng.randint(3, 12)):
		x = rng.random()
		ps = rng.sample(params, rng.randint(1, len(params)))
		if x < 0.5:
			ops.append(['set', ps, [val(rng) for _ in ps], rng.choice(['list', 'list', 'array', 'tuple', 'float64']), None])
		elif x < 0.6:
			ops.append(['set', ps, [val(rng) for _ in ps], 'list', rng.randint(1, 250)])
		elif x < 0.75:
			lo = round(rng.uniform(0.0, 1.0), 3)
			ops.append(['random', rng.choice([None, None, ps]), rng.choice([None, None, [lo, round(lo+rng.uniform(0.01, 2), 3)], [lo, round(lo+rng.uniform(0.01, 2), 3)], [lo, None], [None, round(lo+1, 3)]]), rng.choice([None, rng.randrange(1000)]), None if rng.random() < 0.8 else rng.randint(1, 400)])
		elif x < 0.8:
			ops.append(['back', ps])
		else:
			ops.append(['ask', rng.choice(['e', 'l', 'tau', 'lkl', 'expected_time', 'run', 'logLikelihood', 'str', 'toStormpy', 'save', 'next', 'set'])])
	return {'env': gen.env(rng, {'extreme_draw': rng.choice([0, 0, 0.1])}), 'n': n, 'labels': lab, 'params': params, 'trans': trans, 'init': init, 'given': given, 'ops': ops}


def val(rng):
	return rng.choice([round(rng.uniform(0.01, 1), 3), round(rng.uniform(0.5, 5), 2), round(rng.uniform(-2, 3), 2), 0.0, 1.0])


def judge(trans, values):
	"""True: valid, False: invalid, None: too close to call"""
	res = True
	for s, d, r in trans:
		if all(p in values for _, pw in r for p in pw):
			x = float(value(r, values))
			if x < -1e-9:
				return False
			if x < 1e-9:
				res = None
	return res


def check(h, wl, values, w):
	"""None or what differs from the dictionary"""
	got = {str(k): float(v) for k, v in h.parameter_values.items()}
	if got != values:
		return 'values %s instead of %s' % (got, values)
	n = wl['n']
	for p in wl['params']:
		if h.isInstantiated(param=p) != (p in values):
			return 'isInstantiated(param=%s) is %s' % (p, h.isInstantiated(param=p))
		x = h.parameterValue(p)
		if (p in values and float(x) != values[p]) or (p not in values and not np.isnan(x)):
			return 'parameterValue(%s) is %r' % (p, x)
	if h.isInstantiated() != all(p in values for p in wl['params']):
		return 'isInstantiated() is %s with %s' % (h.isInstantiated(), values)
	for s in range(n):
		mine = [x for x in wl['trans'] if x[0] == s]
		free = set(p for x in mine for _, pw in x[2] for p in pw)
		if h.isInstantiated(s) != (free <= set(values)):
			return 'isInstantiated(%d) is %s' % (s, h.isInstantiated(s))
	for s, d, r in wl['trans']:
		free = set(p for _, pw in r for p in pw)
		if set(h.involvedParameters(s, d)) != free:
			return 'involvedParameters(%d,%d) is %s' % (s, d, h.involvedParameters(s, d))
		if h.isInstantiated(s, d) != (free <= set(values)):
			return 'isInstantiated(%d,%d) is %s' % (s, d, h.isInstantiated(s, d))
		if free <= set(values):
			v = float(value(r, values))
			for x in (h.transitionValue(s, d), h.evaluateTransition(s, d)):
				if not ref.close(float(x), v, 1e-12, 1e-12):
					return 'the rate from %d to %d is %s instead of %r' % (s, d, x, v)
		other = {p: 1.0+k for k, p in enumerate(wl['params'])}
		if not ref.close(float(h.evaluateTransition(s, d, other)), float(value(r, other)), 1e-12, 1e-12):
			return 'the rate from %d to %d under %s is %s' % (s, d, other, h.evaluateTransition(s, d, other))
		# a valuation of some of the parameters (or of none): the others stay open
		part = {p: v for k, (p, v) in enumerate(sorted(other.items())) if k < len(values) % (len(other)+1)}
		for some in ({}, part):
			x = h.evaluateTransition(s, d, some)
			left = set(str(y) for y in getattr(x, 'free_symbols', ()))
			if left != free-set(some) and not (free <= set(some) and not left):
				return 'the rate from %d to %d under %s is %s' % (s, d, some, x)
			x = float(x.evalf(subs=other)) if left else float(x)
			if not ref.close(x, float(value(r, other)), 1e-12, 1e-12):
				return 'the rate from %d to %d under %s is %s' % (s, d, some, h.evaluateTransition(s, d, some))
	return None


def execute(ja, wl, w):
	values = {p: float(v) for p, v in wl['given'].items()}
	tr = [(s, d, text(r)) for s, d, r in wl['trans']]
	h = ja.createPCTMC(tr, list(wl['labels']), list(wl['params']), wl['init'], dict(values), name='m')
	twin = ja.createPCTMC(tr, list(wl['labels']), list(wl['params']), wl['init'], dict(values), name='m')
	fixed = dict(values)
	start = dict(values)
	structure = (h.matrix.tolist(), [str(x) for x in h.transition_expr])
	m = check(h, wl, values, w)
	if m:
		return [Violation('created', m)]
	for op in wl['ops']:
		w.ops += 1
		if op[0] in ('set', 'back'):
			if op[0] == 'back':
				ps = [p for p in op[1] if p in start]
				vs = [start[p] for p in ps]
				form, n = 'list', None
			else:
				ps, vs, form, n = op[1:]
			new = dict(values)
			new.update(zip(ps, vs))
			arg = {'list': list, 'array': np.array, 'tuple': tuple, 'float64': lambda x: [np.float64(y) for y in x]}[form](vs)
			keep = list(ps)
			with interrupt_after(w, n):
				o = call(h.instantiate, ps, arg)
			if ps != keep or list(arg) != vs:
				return [Violation('arguments', 'the lists of the caller are altered')]
			ok = judge(wl['trans'], new)
			if not o.ok:
				if o.kind != 'interrupt':
					return [unexpected(o, 'instantiate')]
				w.nontrivial = True
				got = {str(k): float(v) for k, v in h.parameter_values.items()}
				if got == new and ok is not False:
					values = new
			else:
				if ok is not None and bool(o.value) != ok:
					return [Violation('verdict', 'instantiate(%s,%s) on %s returned %s' % (ps, vs, values, o.value))]
				if len(values) and set(values) != set(wl['params']) or not o.value:
					w.nontrivial = True
				if o.value:
					values = new
				w.tags['accepted' if o.value else 'refused'] = w.tags.get('accepted' if o.value else 'refused', 0)+1
		elif op[0] == 'random':
			_, ps, bounds, seed, n = op
			todo = ps if ps is not None else [p for p in wl['params'] if p not in values]
			# a bound that is not given: the extreme value known, or the documented default
			known = list(values.values()) if len(values) > 1 else [0.1, 5.0]
			lo, hi = bounds if bounds is not None else (None, None)
			lo, hi = min(known) if lo is None else lo, max(known) if hi is None else hi
			if lo > hi or not likely(wl, values, todo, lo, hi):
				continue
			kw = {}
			if ps is not None:
				kw['parameters'] = list(ps)
			if bounds is not None:
				kw.update({k: v for k, v in zip(('min_val', 'max_val'), bounds) if v is not None})
			if seed is not None:
				kw['sseed'] = seed
			with interrupt_after(w, n):
				o = call(h.randomInstantiation, **kw)
			got = {str(k): float(v) for k, v in h.parameter_values.items()}
			if not o.ok and o.kind != 'interrupt':
				return [unexpected(o, 'randomInstantiation')]
			if o.ok or got != values:
				for p in got:
					if p not in todo and values.get(p) != got[p]:
						return [Violation('random', '%s changed although only %s were to be drawn' % (p, todo))]
				for p in todo:
					if p not in got:
						return [Violation('random', '%s has no value' % p)]
					if not lo-1e-12 <= got[p] <= hi+1e-12:
						return [Violation('random', '%s = %r is outside of [%r,%r]' % (p, got[p], lo, hi))]
				if judge(wl['trans'], got) is False:
					return [Violation('random', 'the drawn values %s make a rate negative' % got)]
				if set(got) != set(values) | set(todo):
					return [Violation('random', 'values %s' % got)]
				values = got
			w.tags['random'] = w.tags.get('random', 0)+1
		else:
			v = ask(ja, h, op[1], wl, values, w)
			if v:
				return [v]
		m = check(h, wl, values, w)
		if m:
			return [Violation('state', 'after %s: %s' % (op, m))]
		if (h.matrix.tolist(), [str(x) for x in h.transition_expr]) != structure:
			return [Violation('structure', 'after %s the rates are other expressions' % op)]
		m = check(twin, wl, fixed, w)
		if m:
			return [Violation('other-model', 'after %s on another model: %s' % (op, m))]
	return []


def likely(wl, values, todo, lo, hi):
	"""are valid values frequent in the range?"""
	from sim.core import _Random
	rng = _Random(1)
	good = 0
	for _ in range(20):
		v = dict(values)
		for p in todo:
			v[p] = lo+rng.random()*(hi-lo)
		good += judge(wl['trans'], v) is True
	# the extreme draws too, so that a stream that repeats them is no trap
	return good >= 8


def ask(ja, h, what, wl, values, w):
	"""operations that need values: right with them, refused without"""
	n = wl['n']
	full = all(p in values for p in wl['params'])
	if what == 'str':
		o = call(str, h)
		return unexpected(o, 'str')
	if what == 'save':
		o = call(h.save, 'm.txt')
		if not o.ok:
			return unexpected(o, 'save')
		o = call(ja.loadPCTMC, 'm.txt')
		if not o.ok:
			return unexpected(o, 'load')
		m = check(o.value, wl, values, w)
		return Violation('save', m) if m else None
	if what in ('run', 'logLikelihood', 'toStormpy'):
		ts = ja.Set([[wl['labels'][0], 1.0, wl['labels'][0]]], [1], 4)
		o = call({'run': lambda: h.run(3, True), 'logLikelihood': lambda: h.logLikelihood(ts), 'toStormpy': lambda: ja.jajapyModeltoStormpy(h)}[what])
		if full:
			return unexpected(o, what)
		if o.ok and what != 'run':
			return Violation('needs-values', '%s on a model without all its values returned %s' % (what, str(o.value)[:200]))
		if not o.ok and o.kind != 'ValueError':
			return Violation('error:'+what, '%s' % o)
		return None
	for s in range(n):
		mine = [x for x in wl['trans'] if x[0] == s]
		free = set(p for x in mine for _, pw in x[2] for p in pw)
		ready = free <= set(values)
		e = sum(float(value(x[2], values)) for x in mine) if ready else None
		if what == 'e':
			o = call(h.e, s)
			if ready and (not o.ok or not ref.close(float(o.value), e, 1e-12, 1e-12)):
				return Violation('query', 'e(%d) is %s instead of %r' % (s, o.value if o.ok else o, e))
			if not ready and o.kind != 'ValueError':
				return Violation('needs-values', 'e(%d): %s' % (s, o))
		elif what in ('lkl', 'expected_time', 'tau'):
			f = {'lkl': lambda: h.lkl(s, 0.5), 'expected_time': lambda: h.expected_time(s), 'tau': lambda: h.tau(s, 0, wl['labels'][s])}[what]
			o = call(f)
			if not o.ok:
				return unexpected(o, what)
			if not ready:
				if o.value is not None:
					return Violation('needs-values', '%s(%d) is %s' % (what, s, o.value))
				continue
			r = sum(float(value(x[2], values)) for x in mine if x[1] == 0)
			want = {'lkl': e*np.exp(-e*0.5), 'expected_time': 1/e if e > 1e-9 else None, 'tau': r/e if e > 1e-9 else None}[what]
			if want is not None and not ref.close(float(o.value), want, 1e-9, 1e-12):
				return Violation('query', '%s(%d) is %s instead of %r' % (what, s, o.value, want))
		elif what == 'next':
			o = call(h.next, s)
			if ready and e > 1e-9 and judge(wl['trans'], values) is True:
				if not o.ok:
					return unexpected(o, 'next')
				if not any(x[1] == o.value[1] for x in mine):
					return Violation('query', 'next(%d) is %s' % (s, o.value))
			elif not ready and o.kind != 'ValueError':
				return Violation('needs-values', 'next(%d): %s' % (s, o))
		elif what == 'l':
			for x in mine:
				if set(p for _, pw in x[2] for p in pw) <= set(values):
					o = call(h.l, s, x[1], wl['labels'][s])
					if not o.ok or not ref.close(float(o.value), float(value(x[2], values)), 1e-12, 1e-12):
						return Violation('query', 'l(%d,%d) is %s' % (s, x[1], o))
	return None
