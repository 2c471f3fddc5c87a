"""tools/finding.py PROP SUBJECT-PREFIX TEXT: append a fixed finding to known_findings.jsonl"""
import json, subprocess, sys
prop, key, text = sys.argv[1:4]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
h = [l.split()[0] for l in log if key in l][0]
n = 1 + max(int(json.loads(l)['id'][1:]) for l in open("known_findings.jsonl") if "\"F" in l[:9])
with open('known_findings.jsonl', 'a') as f:
    f.write(json.dumps({'id': 'F%02d' % n, 'status': 'fixed', 'property': prop, 'commit': h, 'what': 'fixed: property=%s %s %s' % (prop, h, text)}) + '\n')
