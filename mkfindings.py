# regenerates known-findings.json: the known entries plus one "fixed" entry per fix: commit of /repo (property map by commit order)
import json, subprocess
M = 'C03 C03 C08 C06 C06 C06 C06 C05 C02 C06 C08 C08 C07 C09 C09 C08 C08 C04 C16 C08 C04 C04 C06 C07 C10 C10 C03 C03 C11 C12 C12 C12 C12 C13 C14 C14 C14 C14 C14 C15 C14 C14 C23 C17 C18 C18 C20 C19 C19 C19 C19 C22 C22 C19 C19 C19 C19 C19 C19 C19 C19 C19 C19 C16 C22'.split()
L = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '22e01e8..HEAD'], text=True).splitlines()]
L = [(h, s[5:]) for h, s in L if s.startswith('fix: ')]
known = [e for e in json.load(open('/verif/known-findings.json')) if e['status'] == 'known']
extra = json.load(open('/verif/fixmap.json')) if __import__('os').path.exists('/verif/fixmap.json') else {}
assert len(L) >= len(M)
out = known
for i, (h, s) in enumerate(L):
    p = M[i] if i < len(M) else extra[s]
    out.append({'property': p, 'status': 'fixed', 'commit': h, 'what': 'fixed: property=%s %s %s' % (p, h, s)})
json.dump(out, open('/verif/known-findings.json', 'w'), indent=1)
