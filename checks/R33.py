import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R33')
c.harness(c.exe('cache', ['cache.cc'], cfg='plain', core='auto'), timeout=300)
c.finish('Processes with random particle lists that find the cache of tabulations in random states, compared with integrals computed afresh; truncated tabulations, competing locks, integrals against an independent integration; distinct: by state and lists.')
