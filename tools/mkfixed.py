"""records the fix: commits of /repo in known_findings.json (run by hand after a fix, never by a check)"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of each fix, oldest first, keyed by a fragment of its subject
MAP = [('in normalized coordinates', 'C05'), ('in normalized space', 'C06'), ('as documented', 'C13'), ('documented formula', 'C13'), ('their own formulas', 'C13'), ('Perm sums', 'C13'), ('modified Schwefel', 'C13'), ('built by its name', 'C16'), ('Runner runs', 'C16'), ('set_parameters takes', 'C11'), ('record fitness improvements', 'C02'), ('own generator', 'C07'), ('ABC never ended', 'C05'), ('bee colony with one', 'C03'), ('camel', 'C08'), ('aging of equally', 'C05'), ('reflect could round', 'C04'), ('harmony search ignored', 'C05'), ('aging of individuals', 'C05'), ('bare bones', 'C05'),
       ('overwrote the best', 'C08'), ('selection of fireworks', 'C05'), ('view of the population', 'C08'), ('gravitational', 'C06'), ('cat swarm', 'C08'), ('Harris', 'C05'),
       ('monarch butterflies crashed', 'C05'), ('lost butterflies', 'C08'), ('passed the instance twice', 'C11'), ('under names', 'C11'), ('depredation', 'C05'), ('step counters', 'C12'),
       ('krill', 'C06'), ('mutated particle', 'C06'), ('center of the swarm', 'C06'), ('reflect returned', 'C04'), ('previous best fitness', 'C05'), ('outside the bounds', 'C06'),
       ('unseeded', 'C07'), ('prides without', 'C05'), ('driven out', 'C05'), ('anarchic society crashed', 'C05'), ('Nelder-Mead crashed', 'C05'), ('local search of MTS returned', 'C17'),
       ('third local search', 'C17'), ('parameters of', 'C11'), ('random search reported', 'C05'), ('cooling method', 'C11'), ('random search crashed', 'C03'), ('temperature of zero', 'C05'),
       ('did not report', 'C11'), ('bees algorithm', 'C08'), ('copy of an individual', 'C15'), ('unevaluated individual', 'C15')]
EXTRA = os.path.join(ROOT, 'tools', 'fixed_extra.json')
if os.path.exists(EXTRA):
    MAP = [tuple(x) for x in json.load(open(EXTRA))] + MAP
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
K = os.path.join(ROOT, 'known_findings.json')
keep = [k for k in json.load(open(K)) if k.get('status') != 'fixed']
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    p = [p for f, p in MAP if f in s]
    assert p, s
    out.append(dict(status='fixed', property=p[0], line='fixed: property=%s %s %s' % (p[0], h, s[5:])))
json.dump(out + keep, open(K, 'w'), indent=1)
print(len(out), 'fixed', len(keep), 'known')
