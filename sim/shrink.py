"""Minimises a failing (workload, tape) pair."""
import copy
import itertools
import json

# keys of a workload whose list elements may be dropped
LISTS = {'data', 'ops', 'seqs', 'history', 'events', 'traces', 'batches', 'calls', 'order'}


def _paths(x, pre=()):
	if isinstance(x, dict):
		for k, v in x.items():
			yield pre+(k,), v
			yield from _paths(v, pre+(k,))
	elif isinstance(x, list) and pre and (len(pre) < 2 or True):
		if len(x) <= 40:
			for i, v in enumerate(x):
				if isinstance(v, (dict, list)):
					yield from _paths(v, pre+(i,))


def _get(x, p):
	for k in p:
		x = x[k]
	return x


def _with(x, p, v):
	y = copy.deepcopy(x)
	t = y
	for k in p[:-1]:
		t = t[k]
	t[p[-1]] = v
	return y


def candidates(wl):
	# faults off, smaller environment
	env = wl.get('env', {})
	for k in list(env.get('faults', {})):
		c = copy.deepcopy(wl)
		del c['env']['faults'][k]
		yield c
	for k, v in (('overlap', False), ('cpus', 2), ('platform', 'linux')):
		if k in env and env[k] != v:
			yield _with(wl, ('env', k), v)
	for p, v in _paths(wl):
		if p and p[-1] in LISTS and isinstance(v, list) and len(v) > 1:
			n = len(v)
			size = n//2
			while size >= 1:
				for i in range(0, n, size):
					if n-size >= 1:
						yield _with(wl, p, v[:i]+v[i+size:])
				size //= 2
	for p, v in _paths(wl):
		if isinstance(p[-1], str) and p[-1] in ('max_it', 'times', 'size', 'length', 'n', 'rounds', 'iterations') and isinstance(v, int) and v > 1:
			yield _with(wl, p, 1)
			yield _with(wl, p, v//2)


def minimise(mod, wl, tape, v, w, test, now, budget, spent):
	t0 = now()
	best = (wl, list(tape), v, w)
	r = test(wl, list(tape))
	if r is None:
		# not reproducible from its tape: report the original as it is
		return best
	best = (wl, r[1].tape, r[0], r[1])
	if spent[0] > 10:
		# one execution takes that long: it is reported as it is
		return best
	progress = True
	while progress and now()-t0 < budget:
		progress = False
		for c in itertools.chain(mod.shrink(best[0]) if hasattr(mod, 'shrink') else (), candidates(best[0])):
			if now()-t0 > budget:
				break
			r = test(c, list(best[1]))
			if r is not None and len(json.dumps(c)) <= len(json.dumps(best[0])):
				if c == best[0]:
					continue
				best = (c, r[1].tape, r[0], r[1])
				progress = True
				break
	# the schedule: all defaults, then truncations, then single decisions
	def tryt(t):
		r = test(best[0], t)
		return r
	for t in ([], best[1][:len(best[1])//2]):
		if now()-t0 < budget+10:
			r = tryt(t)
			if r is not None:
				best = (best[0], r[1].tape, r[0], r[1])
				break
	i = 0
	while i < len(best[1]) and now()-t0 < budget+10:
		if best[1][i]:
			t = list(best[1])
			t[i] = 0
			r = tryt(t)
			if r is not None and sum(1 for x in r[1].tape if x) < sum(1 for x in best[1] if x):
				best = (best[0], r[1].tape, r[0], r[1])
		i += 1
	return best
