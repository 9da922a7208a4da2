#!/usr/bin/env python3
"""Run every proof as the checks do (one process each) and list what is not discharged: tools/allproofs.py [SUBSTRING] [JOBS]"""
import concurrent.futures
import json
import os
import subprocess
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check

items = {}
for p in sorted(check.TECH):
    for i in check.list_proofs(p)[0]:
        items[(i['module'], i['index'])] = i
sel = sys.argv[1] if len(sys.argv) > 1 else ''
items = [i for i in items.values() if sel in i['module'] + ' ' + i['name']]


def one(i):
    t = time.time()
    return i, check.run_proof(i, 8000, 1.0), time.time() - t


with concurrent.futures.ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 6) as pool:
    slow = []
    for i, r, t in pool.map(one, sorted(items, key=lambda i: -i['budget'])):
        bad = [o for o in r['obligations'] if not o['ok']]
        slow.append((round(t, 1), i['module'], i['name']))
        if r['status'] != 'ok' or bad:
            print('%s %s: %s %s %.0f s' % (i['module'], i['name'], r['status'], ' '.join(r['detail'].split())[-200:], t))
            for o in bad:
                print('     FAILED %s: %s' % (o['name'], o['fails'][0]['reason'][:100]))
            sys.stdout.flush()
print(len(items), 'proofs; slowest:', sorted(slow, reverse=True)[:8])
