"""Deterministic simulation kernel.

A World is one simulated execution.  Every nondeterministic decision (which
worker runs next, which result arrives first, whether a fault fires, ...) goes
through World.choose/World.chance and is appended to a *tape*.  A World built
from a seed draws the decisions from a seeded PRNG; a World built from a tape
replays them.  Decision 0 always means "the boring alternative" (first in FIFO
order, no fault), so that truncating or zeroing a tape simplifies a run.
"""
import hashlib
import random as _random

# the PRNG class, captured before any seam is installed
_Random = _random.Random


class SimHang(BaseException):
	"""The simulated program would wait (or loop) forever."""


class SimCrash(BaseException):
	"""The simulated program is killed here; only durable state survives."""


CURRENT = None  # the World being executed, None outside of a simulation


def mix(*parts):
	"""A stable 60-bit integer from the given parts."""
	h = hashlib.sha256(repr(parts).encode()).hexdigest()
	return int(h[:15], 16)


class World:
	def __init__(self, seed, env=None, tape=None):
		self.seed = seed
		self.env = env or {}
		self.faults = self.env.get('faults', {})   # kind -> probability
		self.rng = _Random(seed)
		self.replaying = tape is not None
		self.intape = list(tape) if tape is not None else None
		self.pos = 0
		self.tape = []            # decisions actually taken
		self.log = []             # schedule / fault trace
		self.fired = {}           # fault kind -> times injected
		self.opportunities = {}   # fault kind -> times it could have fired
		self.now = 1000.0         # simulated clock, seconds
		self.started = self.now
		self.skew = 0.0
		self.steps = 0
		self.step_limit = self.env.get('step_limit', 2_000_000)
		self.draws = 0
		self.pools = []
		self.entropy = mix('entropy', self.env.get('entropy', 0))
		self.cpus = self.env.get('cpus', 4)
		self.platform = self.env.get('platform', 'linux')
		self.fs = None
		self.max_faults = self.env.get('max_faults', 1000)
		self.quiet = False        # True: no fault is injected (oracle phases)
		self.stdout_chars = 0
		self.stdout_keep = None   # a list: what is printed
		self.bars = []            # progress bars made by the main program
		self.in_task = 0          # > 0 while a simulated worker executes a task

	# -- decisions -----------------------------------------------------------
	def choose(self, n, label=''):
		if n <= 1:
			return 0
		if self.replaying:
			v = self.intape[self.pos] % n if self.pos < len(self.intape) else 0
			self.pos += 1
		else:
			v = self.rng.randrange(n)
		self.tape.append(v)
		return v

	def chance(self, p, label=''):
		if p <= 0.0:
			return False
		if self.replaying:
			v = 1 if self.pos < len(self.intape) and self.intape[self.pos] % 2 else 0
			self.pos += 1
		else:
			v = 1 if self.rng.random() < p else 0
		self.tape.append(v)
		return bool(v)

	def fault(self, kind, detail=''):
		"""True if fault `kind` is injected at this point."""
		p = self.faults.get(kind, 0.0)
		if p <= 0.0 or self.quiet or sum(self.fired.values()) >= self.max_faults:
			return False
		self.opportunities[kind] = self.opportunities.get(kind, 0)+1
		if self.chance(p, kind):
			self.fired[kind] = self.fired.get(kind, 0)+1
			self.event('FAULT', kind, detail)
			return True
		return False

	def note_fault(self, kind, detail=''):
		self.fired[kind] = self.fired.get(kind, 0)+1
		self.event('FAULT', kind, detail)

	# -- time, log -----------------------------------------------------------
	def event(self, *what):
		self.log.append(tuple(what))

	def step(self, dt=0.001):
		self.steps += 1
		self.now += dt
		if self.steps > self.step_limit:
			raise SimHang('no end after %d simulated steps' % self.steps)

	def clock(self):
		"""what the program sees when it reads a clock"""
		self.step(0.0001)
		if self.fault('clock_jump'):
			self.skew += (-3600.0, 3600.0, 1e9, -1e-9)[self.choose(4)]
		if self.fault('clock_freeze'):
			self.now -= 0.0001
		return self.now+self.skew

	def draw_entropy(self):
		"""the value of an unseeded generator's seed"""
		self.entropy = mix(self.entropy, 'next')
		self.event('entropy', self.entropy & 0xffff)
		return self.entropy & 0xffffffff

	def draw(self):
		self.draws += 1
		lim = self.env.get('draw_limit', 3_000_000)
		if self.draws > lim:
			raise SimHang('no end after %d random draws' % self.draws)

	def digest(self):
		h = hashlib.sha256()
		for e in self.log:
			h.update(repr(e).encode())
		h.update(repr(self.tape).encode())
		return h.hexdigest()[:16]

	def schedule_digest(self):
		h = hashlib.sha256()
		for e in self.log:
			if e[0] in ('task', 'FAULT', 'pool', 'switch', 'end'):
				h.update(repr(e).encode())
		return h.hexdigest()[:16]


class Violation(dict):
	def __init__(self, kind, detail):
		super().__init__(kind=str(kind), detail=str(detail)[:1500])
