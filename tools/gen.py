"""Write properties.jsonl and MANIFEST.json from sa/meta.py"""
import json
import pathlib
import sys

root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
from sa.meta import META, NA   # NOQA

with open(root / 'properties.jsonl', 'w') as f:
    for pid, m in sorted(META.items()):
        assert len(m['title']) <= 80, pid
        assert m['statement'].count('. ') <= 2, (pid, 'sentences')
        f.write(json.dumps({
            'id': pid, 'title': m['title'], 'statement': m['statement'],
            'quantifier': {'over': m['over'], 'text': m['text']},
            'why_tests_cant': m['tests'],
            'anchors': {'files': m['files'], 'mechanism': m['mech'],
                        'state': m['state'], 'observe_at': m['observe'],
                        'hook_needed': None}}) + '\n')

checks = []
for pid, m in sorted(META.items()):
    if pid in NA:
        continue
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 -m sa.main {pid} --tier quick',
        'thorough_cmd': f'python3 -m sa.main {pid} --tier thorough',
        'technique': m['tech'],
        'level': 'other',
        'level_note': (
            'Static analysis of the source on every run. Within its abstract '
            'domain every path of the named functions is covered, with '
            'exceptions and cancellation at every call and await; library '
            'calls are uninterpreted. Values the analysis merges are treated '
            'as unknown. ' + m['explanation'])})
(root / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q sa >/dev/null || true',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v}
                       for k, v in sorted(NA.items())],
    'notes': 'All checks are pure source analyses (python3, standard library '
             'only); see DESIGN.md. No hooks in /repo.'}, indent=1) + '\n')

# DESIGN.md: texts per property and planted bugs between the markers
design = root / 'DESIGN.md'
text = design.read_text()


def fill(name, lines):
    global text
    a, b = f'<!-- {name} -->\n', f'<!-- end of {name} -->\n'
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + '\n' + '\n'.join(lines) + '\n\n' + text[j:]


fill('properties', [
    f'**{pid} {m["title"]}.** {m["explanation"]} '
    f'*Out of reach of tests:* {m["tests"]}.' + '\n'
    for pid, m in sorted(META.items()) if pid not in NA])
fill('not applicable', [
    f'* **{pid} {m["title"]}.** {NA[pid]}'
    for pid, m in sorted(META.items()) if pid in NA] or ['None.'])
rows = []
for d in sorted((root / 'seeded').iterdir()):
    x = json.loads((d / 'meta.json').read_text())
    rows.append((x['property'], d.name, x['needs']))
fill('planted', ['| bug | property | needs | caught by |', '|-|-|-|-|', *(
    f'| {n} | {p} | {w} | {p} |' for p, n, w in sorted(rows))])
design.write_text(text)
