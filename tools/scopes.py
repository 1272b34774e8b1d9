#!/usr/bin/env python3
"""Rewrites the tables between the markers in DESIGN.md: planted bugs (from seeded/*/meta.json, if it is there) and
bounds (from the evidence files of the last runs on the unchanged tree)."""
import glob, json, os, re
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    'C03-far-reference': 'scope far', 'C03-signed-generation': 'scope reference-numbers', 'C03-comment-cr': 'CR after comments',
    'C05-message-limit': 'scope many', 'C06-size-cap': 'scope large', 'C08-early-change': 'all EarlyChange values in pairs with sizes',
    'C10-filter-limit': 'scope long', 'C10-single-parms-list': 'scope first-parms', 'C11-subsection-cap': 'scope large',
    'C11-zero-offset': 'free-list variants', 'C11-generation-order': 'generations numbered in four ways', 'C12-number-digits': 'scope digits',
    'C12-repaired-generation': 'generations of repaired objects', 'C12-scan-last': 'damage behind the last object', 'C12-scan-resume': 'objects close together',
    'C14-chain-limit': 'scope chains', 'C16-short-u': 'cut-off entries', 'C17-crypt-parms': 'spellings of the own filter',
    'C17-type-reference': 'Type by reference and by chain', 'C18-tj-split-code': 'scope pieces', 'C18-kid-depth': 'scope large trees',
    'C18-shared-contents': 'scope shared', 'C19-section-limit': 'scope sections', 'C20-known-triggers': 'scope triggers', 'C20-depth': 'scope depth',
    'C21-tree-root-names': 'entries in inner nodes', 'C21-same-name': 'equal keys', 'C21-xfa-part-twice': 'repeated parts',
    'C22-dictionary-changed': 'scope entries', 'C22-size-bound': 'scope sizes', 'C22-empty-stream': 'empty streams need their markers',
    'C24-rho': 'scope aliases', 'C25-find-offset': 'shifts over powers of two',
}
extra = os.path.join(verif, 'tools', 'missed.json')
if os.path.exists(extra):
    MISSED.update(json.load(open(extra)))

def short(s, n):
    s = ' '.join(s.split()).replace('|', '/')
    return s if len(s) <= n else s[:n - 3] + '...'

path = os.path.join(verif, 'DESIGN.md')
doc = open(path).read()

def put(name, text):
    global doc
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    i, j = doc.index(a) + len(a), doc.index(b)
    doc = doc[:i] + '\n' + text + '\n' + doc[j:]

seeded = sorted(glob.glob(os.path.join(verif, 'seeded', '*', 'meta.json')))
if seeded:
    rows = ['| change | what it breaks | needs | first missed: what was added |', '|---|---|---|---|']
    for p in seeded:
        m = json.load(open(p))
        i = os.path.basename(os.path.dirname(p))
        rows.append('| %s%s | %s | %s | %s |' % (i, '*' if i in MISSED else '', short(m['what_it_breaks'], 110), short(m['needs'], 110), MISSED.get(i, '')))
    put('seeded', '\n'.join(rows))
rows = ['| property | scope | bound | executions | choice-tree nodes |', '|---|---|---|---|---|']
for p in sorted(glob.glob(os.path.join(verif, 'evidence', 'C*.json'))):
    e = json.load(open(p))
    i = os.path.basename(p)[:-5]
    for s in e['coverage']['scopes']:
        rows.append('| %s | %s | %s | %d | %d |' % (i, s['scope'], s['bound'].replace('|', '/'), s['executed_on_impl'], s['choice_tree_states']))
    assert e['coverage']['exhaustive'], i
put('scopes', '\n'.join(rows))
open(path, 'w').write(doc)
