"""A second simulator process with another hash seed.

It executes the same workload from the same world seed and tape and returns what
the run observed; everything that must not depend on the iteration order of
Python's sets is compared between the two."""
import json
import os
import subprocess
import sys

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_proc = None
IS_TWIN = False


def start(prop, stormpy):
	global _proc
	e = dict(os.environ)
	e['PYTHONHASHSEED'] = str(core.mix('twin', e.get('PYTHONHASHSEED', '0')) % 4294967295)
	_proc = subprocess.Popen([sys.executable, '-m', 'sim.runner', 'serve', prop, '1' if stormpy else '0'], cwd=HERE, env=e,
							 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)


def ask(prop, stormpy, workload, seed, tape):
	global _proc
	if _proc is None:
		start(prop, stormpy)
	try:
		_proc.stdin.write(json.dumps([workload, seed, tape])+'\n')
		_proc.stdin.flush()
		line = _proc.stdout.readline()
	except OSError:
		line = ''
	if not line:
		stop()
		return None
	return json.loads(line)


def stop():
	global _proc
	if _proc is not None:
		try:
			_proc.stdin.close()
			_proc.wait(20)
		except (OSError, subprocess.TimeoutExpired):
			_proc.kill()
			_proc.wait()
		_proc = None
