# usage: run.py PROP SEED BUDGET OUT [HINTS.json]
import json
import os
import sys
sys.dont_write_bytecode = True
os.environ['TQDM_DISABLE'] = '1'
import logging
logging.disable(logging.CRITICAL)
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[0:1] = [REPO, os.path.dirname(HERE)]
from oracles import lib
hints = json.load(open(sys.argv[5], encoding='utf-8')) if len(sys.argv) > 5 else {}
import pymorphy2
assert os.path.abspath(pymorphy2.__file__).startswith(REPO + '/'), pymorphy2.__file__
lib.run(sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), hints, sys.argv[4])
