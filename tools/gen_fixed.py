"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo (developer tool)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
# property of each fix commit, in order
PROPS = ('C07 C11 C13 C01 C03 C02 C34 C34 C01 C04 C03 C04 C03 C02 C05 C07 C08 C08 C07 C08 C08 C09 C09 C09 C09 C10 C09 C10 C10 C10 '
         'C10 C16 C18 C19 C19 C17 C20 C20 C20 C27 C28 C27 C27 C28 C27 C29 C29 C29 C29 C21 C21 C22 C23 C23 C23 C23 C23 C23 C23 C23 '
         'C24 C25 C26 C26 C30 C30 C30 C30 C30 C30 C30 C30 C30 C31 C31 C33 C36 C36 C32 C32 C32 C32 C37 C37 C37 C35 C35 C35 C35 C35 '
         'C35 C35 C35 C35 C35 C35 C38 C38 C38 C38 C38 C38 C38 C38 C23 C38 C39 C09 C39 C30').split()


def main():
    log = subprocess.run(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'log', '--reverse', '--format=%h %s'],
                         capture_output=True, text=True, check=True).stdout.splitlines()
    fixes = [l for l in log if l.split(' ', 1)[1].startswith('fix:')]
    assert len(fixes) == len(PROPS), (len(fixes), len(PROPS))
    path = os.path.join(HERE, '..', 'known_findings.json')
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    data['fixed'] = ['fixed: property=%s %s %s' % (prop, l.split(' ', 1)[0], l.split(' ', 2)[2]) for prop, l in zip(PROPS, fixes)]
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(data, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
