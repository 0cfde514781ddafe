#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cell(text):
    text = ' '.join(text.split()).replace('|', '/')
    return text if len(text) < 170 else text[:167].rsplit(' ', 1)[0] + ' ...'


rows = ['| planted | what it breaks | needs | caught by |',
        '|---|---|---|---|']
for name in sorted(os.listdir(HERE + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, name)))
    rows.append('| %s | %s | %s | %s |' % (
        name, cell(meta['what_it_breaks']), cell(meta['needs']),
        meta.get('caught_by', meta['property'])))
path = HERE + '/DESIGN.md'
text = open(path).read()
text = re.sub(r'(?s)<!-- seeds -->.*?<!-- /seeds -->', lambda m:
              '<!-- seeds -->\n%s\n<!-- /seeds -->' % '\n'.join(rows), text)
open(path, 'w').write(text)
