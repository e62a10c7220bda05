"""Threads of the simulated program.

Real threads execute real code, but only the one that holds the baton runs.
The baton is handed over at executed lines of the library; after how many lines
and to whom is decided by the World, so that one seed is one interleaving.
"""
import os
import sys
import threading

from . import boot
from .core import SimHang


class Threads:
	def __init__(self, w, jobs, quanta=(700, 150, 40, 10, 3, 1)):
		self.w = w
		self.quanta = quanta
		self.jobs = jobs
		self.locks = [threading.Semaphore(0) for _ in jobs]
		self.live = list(range(len(jobs)))
		self.over = threading.Semaphore(0)
		self.left = 0
		self.abort = False
		self.errors = []
		self.switches = 0
		self.where = set()
		self.prefix = os.path.realpath(boot.REPO)+os.sep

	def quantum(self):
		self.left = self.quanta[self.w.choose(len(self.quanta), 'quantum')]

	def switch(self, me, place):
		"""the thread 'me' gives the baton away"""
		w = self.w
		k = self.live[w.choose(len(self.live), 'thread')]
		self.quantum()
		if k != me:
			self.switches += 1
			w.event('switch', me, k, place)
			self.where.add(place)
			w.thread = k
			self.locks[k].release()
			self.locks[me].acquire()
			if self.abort:
				raise SimHang('aborted')

	def tracer(self, me):
		w = self.w
		prefix = self.prefix

		def local(frame, event, arg):
			if self.abort:
				raise SimHang('aborted')
			if event == 'line' and not w.in_task:
				self.left -= 1
				if self.left <= 0:
					self.switch(me, '%s:%s' % (frame.f_code.co_filename[len(prefix):], frame.f_code.co_name))
			return local

		def glob(frame, event, arg):
			return local if frame.f_code.co_filename.startswith(prefix) else None
		return glob

	def body(self, me):
		self.locks[me].acquire()
		try:
			if not self.abort:
				sys.settrace(self.tracer(me))
				try:
					self.jobs[me]()
				finally:
					sys.settrace(None)
		except BaseException as e:
			e.__traceback__ = None
			self.errors.append(e)
		finally:
			self.live.remove(me)
			if not self.live:
				self.over.release()
			elif self.abort:
				pass
			else:
				k = self.live[self.w.choose(len(self.live), 'thread')]
				self.w.event('end', me, k)
				self.quantum()
				self.w.thread = k
				self.locks[k].release()

	def run(self):
		ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.jobs))]
		for t in ts:
			t.start()
		first = self.w.choose(len(ts), 'thread')
		self.quantum()
		self.w.thread = first
		self.locks[first].release()
		try:
			self.over.acquire()
		except BaseException:
			# out of time: every thread stops at its next line
			self.abort = True
			for k in self.locks:
				k.release()
			raise
		finally:
			for t in ts:
				t.join(20)
			self.w.thread = 0
		if self.errors:
			raise self.errors[0]
