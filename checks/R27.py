import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from check import Check  # noqa: E402
c = Check('R27')
c.harness(c.exe('extract', ['extract.cc'], cfg='asan', core='auto'), timeout=300)
c.finish('Random particles and steps against the exact crossing of the hyperbola, random fluids, histories and formation '
         'times against the conditions for joining the fluid; parameters and output against what was configured.')
