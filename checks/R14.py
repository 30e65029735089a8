import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R14')
c.harness(c.exe('pdg', ['pdg.cc'], cfg='asan', core='auto'))
c.finish('Every combination of quark digits, spin and sign with random excitations, random nuclei and malformed texts, read in every way and compared with an independent reading of the digits; distinct: by code.')
