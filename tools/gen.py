"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOTE, NOT_APPLICABLE   # noqa: E402

PY = '/opt/pvenv/bin/python -B symex/run.py %s --tier %s'


def prop_line(p):
    return {
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mech']],
                    'observe_at': p['observe']},
    }


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(prop_line(p)) + '\n')
    na = dict(NOT_APPLICABLE)
    checks = []
    for p in PROPS:
        if p['id'] in na:
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': PY % (p['id'], 'quick'),
            'thorough_cmd': PY % (p['id'], 'thorough'),
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'symbolic execution of the real Python code, '
                         'decided by z3',
            'level': 'model_checking',
            'level_note': p['note'],
        })
    m = {
        'version': 1,
        'setup_cmd': '/opt/pvenv/bin/python -B tools/setup.py',
        'checks': checks,
        'not_applicable': [{'property': k, 'reason': v}
                           for k, v in NOT_APPLICABLE],
        'notes': 'Every check runs the functions of /repo/src symbolically: '
                 'the sources are read, transformed and explored path by '
                 'path on each run; see DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def harnesses():
    """(property, name, text, quick, thorough) of each harness"""
    import ast
    import glob
    for f in sorted(glob.glob(os.path.join(HERE, 'harness', 'c*.py'))):
        for n in ast.parse(open(f).read()).body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if getattr(getattr(d, 'func', None), 'id', '') == 'harness':
                    args = [ast.unparse(a) for a in d.args]
                    kw = {k.arg: ast.unparse(k.value) for k in d.keywords}
                    quick = kw.get('quick') or args[1]
                    thorough = kw.get('thorough') or (
                        args[2] if len(args) > 2 else '')
                    yield (ast.literal_eval(args[0]), n.name,
                           ' '.join((ast.get_docstring(n) or '').split()),
                           quick, thorough)


def bound(text):
    """The parameter sets of a harness in short"""
    text = ' '.join(text.split())
    return text.replace('dict(', '(').replace('|', '\\|')[:400]


def design():
    hs = list(harnesses())
    out = []
    for p in PROPS:
        out.append('### %s %s' % (p['id'], p['title']))
        out.append('')
        out.append(p['statement'])
        out.append('')
        if p['note'].replace(NOTE, '').strip():
            out.append(p['note'].replace(NOTE, '').strip())
            out.append('')
        for prop, name, text, quick, thorough in hs:
            if prop == p['id']:
                out.append('* `%s`: %s' % (name, text))
                out.append('  - quick `%s`' % bound(quick))
                if thorough:
                    out.append('  - thorough `%s`' % bound(thorough))
        out.append('')
    seeds = ['| planted bug | property | needs | what it breaks |',
             '|---|---|---|---|']
    sd = os.path.join(HERE, 'seeded')
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        seeds.append('| %s | %s | %s | %s |' % (
            s, m['property'], m['needs'], m['what_it_breaks']))
    defects = []
    findings = []
    with open(os.path.join(HERE, 'known_findings.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            if 'fixed' in d:
                defects.append('* %s' % d['fixed'].replace('fixed: ', '', 1))
            else:
                findings.append('* %s (%s): %s' % (
                    d['id'], d['property'], d['what']))
    with open(os.path.join(HERE, 'tools', 'design.md')) as f:
        text = f.read()
    for k, v in (('@@PROPS@@', out), ('@@SEEDS@@', seeds),
                 ('@@DEFECTS@@', defects),
                 ('@@FINDINGS@@', findings or ['None at present.'])):
        text = text.replace(k, '\n'.join(v).rstrip())
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(text)


main()
design()
