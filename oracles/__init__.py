import importlib
import os


def load_all(prop):
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith('o_') and f.endswith('.py'):
            src = open(os.path.join(here, f), 'rb').read().decode('utf-8')
            if "'%s'" % prop in src:
                importlib.import_module('oracles.' + f[:-3])
