import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R32')
c.harness(c.exe('rad', ['rad.cc'], cfg='asan', core='auto'), timeout=600)
c.finish('Random unstable particles, thousands of copies each, searched for decays: number and times against the exponential law of the widths; final decays of all species under all options; dileptons of random particles against the widths and the spectra of the literature; distinct: by species, mass and mode.')
