"""Write MANIFEST.json: every property with a module in props/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = 'deterministic simulation with fault injection'
HOW = {
    'C01': 'twin runs of one seeded session (whole messages vs. split, delayed, truncated) compared event for event',
    'C02': 'seeded interleavings of streams, cursors, COPY and statements against a per-operation reference result',
    'C03': 'twin runs with and without injected EAGAIN/EWOULDBLOCK/EINTR/ETIMEDOUT at sends and receives',
    'C04': 'connection cut or server killed at a seeded byte or protocol step; history checked for hangs, silent truncation and false commits',
    'C05': 'server errors injected at seeded protocol steps; each reported exactly once and the connection resynchronised',
    'C06': 'nested transaction blocks with failing commits, releases, statements and connections against a transactional model store',
    'C07': 'streamed results of seeded sizes, chunk sizes, errors and interleavings against the generated row list',
    'C08': 'seeded cursor programs with commits, reclaimed objects and errors against a list cursor model',
    'C09': 'seeded COPY FROM STDIN loads with rejecting servers, raising sources and lost connections; stored lines compared',
    'C10': 'seeded COPY TO STDOUT reads with asynchronous messages, interleaving and faults against the line list',
    'C11': 'seeded multi-receiver copies with faults on every side, bytes compared at each simulated server',
    'C12': 'seeded notification schedules under a simulated clock and select, exactly-once and order checked over the history',
    'C13': 'several clients scheduled by the simulator on one lock table; exclusion, nesting and reports checked after every step',
    'C14': 'seeded setting reads, writes, transactions and server-initiated changes against the server\'s own values',
    'C15': 'simulated multi-address connection attempts with refusals, timeouts, TLS and authentication faults; attempt log compared with the documented order',
    'C16': 'seeded reclamation of statements and cursors at arbitrary steps with identifier reuse; the server\'s open objects compared with the reachable ones',
    'C17': 'asynchronous messages injected between any two server messages; deliveries and results compared with a run without them',
    'C18': 'cancel requests raced against queries by the seeded scheduler',
    'C19': 'server bytes corrupted at seeded places; outcome checked against the allowed set and against later results',
    'C20': 'seeded bulk loads with packing, source and server failures; stored rows compared with whole leading chunks',
    'C21': 'simulated server process, pid file, clock and signals under cluster control',
    'C22': 'simulated file system with errors and crashes at every I/O step of a configuration update',
    'C23': 'seeded DB-API programs with failures and closes against a transactional model store',
    'C25': 'seeded type universes and values read and sent by every interface, lookups interleaved and failing; values compared with an independent model of the server\'s types',
    'C26': 'seeded programs of pg_tmp blocks, forks, kills and exits on simulated processes, files and servers, failing at every step; what remains is compared with what was there',
    'C27': 'seeded databases of overloaded functions called by signature, oid, position and keyword, with errors injected at any exchange; calls, arguments and results compared with the model server\'s functions',
    'C24': 'sessions closed in every state under faults; sockets, goodbye messages and uncommitted work checked at the server',
}
NA = {
    'C90': 'pure functions of their input: no schedule, clock, I/O or fault for a simulator to decide; what a session makes of them is decided by C25',
    'C91': 'pure string functions: no schedule, clock, I/O or fault for a simulator to decide; out of reach of this technique',
    'C92': 'a static table lookup: no schedule, clock, I/O or fault for a simulator to decide; out of reach of this technique',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/props/%s.py' % (V, i.lower())):
        checks.append({
            'property': i,
            'quick_cmd': './check %s' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'technique': TECH + ': ' + HOW[i],
            'level': 'exploration',
            'level_note': 'Real driver and protocol code against a simulated server, network, clock and identities; a fixed number of '
                          'seeded runs per tier. A clean batch is evidence, not proof; trusts the simulated peer and the reference model described in DESIGN.md.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were needed in /repo: every seam is an attribute the code already has (socket factories, modules, file and process functions).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed,', len(na), 'not')
