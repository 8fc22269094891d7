#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
DBNOTE = ('Seeded search over simulated runs of the real generated helpers, runtime packages and database/sql against a simulated database server; '
          'evidence, not proof. Trusts the simulated SQL engine and its model of the three dialects, and treats code between two yield points '
          '(driver calls, pool accesses, lock waits) as atomic. ')
GENNOTE = ('Seeded search over simulated runs of the real command line program, its file system calls intercepted below package os; '
           'evidence, not proof. Trusts the interception layer and the go command that package loading starts as a child process. ')
L = {
 'C01': 'Result streams are broken at every row, close and connection point; a successful call must carry every row the engine produced for it.',
 'C02': 'The table before and after each statement is compared with a reference executor of the call.',
 'C03': 'Random predicate trees, orders and bounds are compared with a reference evaluator under three-valued logic.',
 'C04': 'A violation counts when it disappears if the same calls run alone or with fresh pooled objects; pooled objects are also tracked directly.',
 'C05': 'The simulated driver counts open result sets, statements, transactions and connections after each call and at the end of each run.',
 'C06': 'Page iterations interleave with other writers; the visited sequence is compared with the rows nobody touched.',
 'C07': 'Written records are compared with the stored row and with later reads under every wire representation.',
 'C08': 'Driver buffers are overwritten after use and earlier results are compared with their content at return time.',
 'C09': 'Every driver error is matched with the error the call returned, and calls without any failure must return none.',
 'C10': 'Contexts are cancelled or expire at every point, under delays on the simulated clock.',
 'C11': 'Concurrent lock/read/write-back transactions count up a row; the final count and the locks held are compared with what was acknowledged.',
 'C12': 'Records after inserts and upserts are compared with the row each produced.',
 'C13': 'Upserts are compared with a reference upsert, sequentially and racing.',
 'C14': 'Statements seen by the server are counted per call under connection loss, server crashes and lost replies; the table is compared before, after and across restarts.',
 'C22': 'Statements written by hand or by helpers are formatted at any point of concurrent runs over shared pools; the rendering is compared literal by literal.',
 'C21': 'Random structs go through the real generator in all three dialects with and without quoting; the output must compile and every generated method is exercised against the simulated database.',
}
G = {
 'C15': 'Repeated runs under different seeded map orders, directory orders, clocks and schedules must give identical bytes.',
 'C16': 'Kills and I/O errors at every file system call; each output path must hold its complete old or new content, and a later undisturbed run repairs it.',
 'C17': 'Exit status is compared with what is on disk, under I/O errors and unusable sources.',
 'C18': 'The whole tree is compared before and after each run, faults included.',
 'C19': 'Several processes are stepped by one scheduler at file system calls; readers sample outputs between steps.',
 'C20': 'The init dialogue runs with scripted answers under kills and I/O errors.',
}
NA = {
 'C23': 'Naming conventions are pure functions of an identifier: no schedule, clock, I/O or fault takes part, so simulation has nothing to decide.',
 'C24': 'The declared column type is a pure function of the Go field type and tag, and whether it holds every value is a question about real database types which the simulated engine does not model.',
}
import os
have = os.path.exists('sim/py/gensim.py')
checks = []
for t, note in ((L, DBNOTE), (G if have else {}, GENNOTE)):
    for p in sorted(t):
        checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                           technique='deterministic simulation with fault injection', level='exploration', level_note=note + t[p]))
if not have:
    for p in G:
        NA[p] = 'check under construction'
checks.sort(key=lambda c: c['property'])
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks,
         hooks=dict(guard='go build -overlay', enable='No hook is committed in /repo: the checks build with overlays of Go standard library files kept in /verif (sync, runtime, internal/poll, syscall), so the shipped code is unchanged.', source_commits=[]),
         not_applicable=[dict(property=p, reason=NA[p]) for p in sorted(NA)],
         notes='See DESIGN.md. Replays: python3 check.py --replay FILE.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
