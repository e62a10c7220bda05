"""Defaults shared by the property modules."""
REAL = ['every line of jajapy (imported from /repo)', 'numpy', 'scipy', 'sympy', 'pickle (tasks and results really cross a pickle boundary)', 'CPython random and numpy random generators (seeded)']
STUB = ['process/thread pools (simulated: scheduling, pickling time, completion order, worker death)', 'alive_progress bar', 'clocks (simulated)', 'cpu_count / platform name (decided by the simulator)']
FSREAL = ['files in a scratch directory, written through a simulated user-space buffer']
