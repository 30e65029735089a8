import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from check import Check  # noqa: E402
c = Check('R25')
c.harness(c.exe('thermal', ['thermal.cc'], cfg='asan', core='auto'), timeout=300)
c.finish('Thermal densities, the solved state and the samples agree with integrals over momenta, and forced thermalization conserves.')
