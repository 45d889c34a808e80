#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'merge-list-chunks': 'caught after lists of up to 200 maps',
 'error-cached': 'caught after the loader cases keep names that the failing module defined',
 'header-first': 'caught after the harness records the contents at drop time', 'index-byte': 'caught after arrays of more than 256 items',
 'keyword-shadow': 'caught after keywords as names', 'range-count-byte': 'caught after maps of more than 256 ranges',
 'require-nested-current': 'caught after three-level file graphs with require in nested directories',
 'shift-by-word': 'caught after shifts by 2^6..2^16 digits', 'string-bom': 'caught after every non-surrogate escape was added',
 'drop-short-index': 'caught after long arrays in the heap model', 'size-after-drop': 'C21 caught it at once, C10 after release sizes were compared',
 'zero-equal': 'caught after all pairs of special values were compared',
 'long-key-prefix': 'caught after families of long keys in the model of large systems',
 'json-int-saturate': 'caught after numbers next to powers of two and ten, and to the ends of the machine integers',
 'align-min': 'caught after alignments of 128 and more',
 'string-limit': 'caught after the model of long texts', 'path-parts': 'caught after paths of hundreds of parts',
 'locale-comma': 'caught after the environment was varied further',
 'local-align': 'caught after over-aligned elements with the local manager'}
rows = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); rows.setdefault(m['property'], []).append(os.path.basename(os.path.dirname(f)))
for p in sorted(rows):
    print('| ' + p + ' | ' + ', '.join(x + ('*' if x in MISSED else '') for x in rows[p]) + ' |')
print()
for k in sorted(MISSED): print(f'- `{k}`: {MISSED[k]}')
