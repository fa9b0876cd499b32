"""Write the lists of findings and planted bugs into DESIGN.md.

They stand between markers and are taken from known_findings.jsonl and
seeded/*/meta.json.
"""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fill(text, mark, body):
    return re.sub(r'(<!-- {0} -->\n).*?(<!-- /{0} -->)'.format(mark),
                  lambda m: m.group(1) + body + m.group(2), text,
                  flags=re.S)


def main():
    fixed, known = [], []
    with open(os.path.join(HERE, 'known_findings.jsonl')) as f:
        for line in f:
            if not line.strip():
                continue
            d = json.loads(line)
            if d['kind'] == 'fixed':
                fixed.append('* {} `{}`: {}\n'.format(
                    d['property'], d['commit'],
                    d['what'].split(' ', 3)[3]))
            else:
                known.append('* {} `{}`: {}\n'.format(
                    d['property'], d['id'], d['what']))
    seeds = []
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        with open(m) as f:
            d = json.load(f)
        seeds.append('* `{}`: {}\n'.format(
            os.path.basename(os.path.dirname(m)), d['what_it_breaks']))
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    text = fill(text, 'FIXED', ''.join(sorted(fixed)))
    text = fill(text, 'KNOWN', ''.join(sorted(known)))
    text = fill(text, 'SEEDS', ''.join(seeds))
    with open(path, 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
