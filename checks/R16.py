import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R16')
c.harness(c.exe('widths', ['widths.cc'], cfg='plain', core='auto'), timeout=300)
c.harness(c.exe('order', ['order.cc'], cfg='plain', core='auto'), timeout=300)
c.finish('Resonances of the full particle list, random masses: partial and total widths against phase-space integrals, spectral functions against their formula and norm, sampled masses against the distribution they should follow; processes that ask for widths and spectral functions in random orders must get the same; distinct: by particle and mass.')
