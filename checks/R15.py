import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R15')
c.harness(c.exe('tables', ['tables.cc'], cfg='release', core='auto'))
c.finish('All tables of the repository and random valid ones are loaded and compared with an independent reading (states, names, antiparticles, multiplets, modes, ratios, thresholds, lists); tables with one mistake have to be refused, damaged ones may not crash; distinct: by table.')
