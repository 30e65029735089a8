import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from check import Check  # noqa: E402
c = Check('R23')
c.harness(c.exe('forces', ['forces.cc'], cfg='asan', core='auto'), timeout=300)
c.finish('Random parameters, densities, currents and particle lists: potentials against their formulas, forces against '
         'numeric derivatives of the potentials, momenta and positions against force and velocity times time.')
