import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
import hostile
c = Check('R28')
exe = c.exe('smash', cfg='release', smash=True)
hostile.run(c, exe, 20 if c.thorough else 1, 6000 if c.thorough else 240, 3000 if c.thorough else 150)
c.finish('Complete runs of the released code under the address, leak and undefined-behaviour sanitizers: every workload family, '
         'configurations with damaged values, and damaged particle lists, decay modes, event lists and nuclei. Distinct: '
         'outcomes and damages.')
