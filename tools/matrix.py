"""Write the table of seeded changes into DESIGN.md (development aid)."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {
    's35-hook-list': 'P26 gained values a validator would change by now',
    's05-observer-override': 'P12 gained the probing of removed members',
    's06-link-flag': 'P14 gained transforms that fail once',
    's11-shared-default': 'P11 gained the counting of calls of defaults',
    's16-singleton-kw': 'P15 gained names that are coerced',
    's41-choice-prefix': 'P02 gained choices with spaces and odd synonyms',
    's43-alias-kinds': 'P06 gained kinds that are changed after a context was made',
    's44-registry-subclass': 'P09 gained registries of subclasses',
    's46-image-append': 'P21 gained images opened for appending',
    's48-own-defaults': 'P25 gained inherited defaults of redefined properties',
    's50-init-flag': 'found by P31, which was added then',
    's51-interrupted-save': 'found by P31, which was added then',
    's57-shared-guard': 'P33 gained two switches between short uses, and each use again afterwards',
    's58-shared-messages': 'P33 gained each use against itself, and whole messages',
    's52-numpy-bool': 'found by P32, which was added then',
    's54-held-validate': 'found by P30, which was added then',
    's55-early-init': 'found by P30, which was added then',
    's56-deep-validate': 'P07 gained depths of nesting',
}


def main():
    rows = ['| change | property | what it breaks | reported by | first missed |',
            '|---|---|---|---|---|']
    base = os.path.join(VERIF, 'seeded')
    for name in sorted(os.listdir(base)):
        with open(os.path.join(base, name, 'meta.json')) as fid:
            meta = json.load(fid)
        caught = meta.get('reported_by') or meta['property']
        rows.append('| %s | %s | %s | %s | %s |' % (
            name, meta['property'], meta['what_it_breaks'].replace('|', '/'),
            caught, meta.get('strengthened') or FIRST_MISSED.get(name, '')))
    path = os.path.join(VERIF, 'DESIGN.md')
    with open(path) as fid:
        text = fid.read()
    text = re.sub(r'<!-- seeded -->.*?(<!-- /seeded -->\n|\Z)',
                  lambda m: '<!-- seeded -->\n\n%s\n\n<!-- /seeded -->\n' %
                  '\n'.join(rows), text, flags=re.S)
    with open(path, 'w') as fid:
        fid.write(text)


if __name__ == '__main__':
    main()
