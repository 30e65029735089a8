import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
import balance
c = Check('R36')
exe = c.exe('smash', smash=True)
balance.run(c, exe, c.thorough)
c.finish('Boxes initialised in equilibrium: the numbers and energies of nine families of hadrons late against early; and gases of light nuclei, mesons and antinucleons, where the reactions of many particles in the first time step are counted in both directions. Distinct: by reaction.')
