import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
import outs, work
c = Check('R10')
exe = c.exe('smash', smash=True)
outs.repetitions(c, exe, [f for f in work.families() if f != 'thermalizer'], 6 if c.thorough else 1)
c.finish('Complete runs of random configurations of every family, repeated with the same seed, with other outputs and '
         'logging, without the cached tabulations, and event by event with the logged seeds: the events must be the same. '
         'Distinct: by configuration.')
