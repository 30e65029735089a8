import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
import switches
c = Check('R35')
exe = c.exe('smash', smash=True)
switches.run(c, exe, 700 if c.thorough else 56)
c.finish('Complete runs of boxes full of reactive hadrons, and of nuclei, with random subsets of the reactions switched off; every logged interaction against the switches, and the categories that are on were seen to happen. Distinct: by reaction.')
