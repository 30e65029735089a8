import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R03')
c.harness(c.exe('particles', ['particles.cc'], cfg='asan', core='auto'))
c.finish('Random histories of create, insert, remove, replace, update and reset on the container, compared after '
         'every operation with a map from ids to records; distinct: histories that differ in their sequence of '
         'operations and sizes. Compiled with AddressSanitizer and UndefinedBehaviorSanitizer.')
