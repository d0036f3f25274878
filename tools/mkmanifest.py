"""Writes MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'pure': "TLC checks the property's laws on the TLA+ definition of every operation (small widths exhaustively), then judges each recorded call of the real library (every vector type and entry point; edge and seeded operands; {cfg}) against that definition. Sampled, not exhaustive, over operand values; trusts TLC, rustc and the recorder's raw-memory reads.",
 'state': "TLC exhaustively checks the machine's invariants on small instances, generates behaviours of the specification (every transition of each small instance plus random walks), replays them into the real library for every vector type ({cfg}), and accepts each recorded run only if it is a behaviour of the specification. Trusts TLC, rustc and the recorder.",
}
def cfgs(p): return 'built as ' + ', '.join(PROPS[p]['configs']['quick'])
checks = []
for p in sorted(PROPS):
    st = 'gen' in PROPS[p]
    checks.append(dict(property=p, quick_cmd='python3 tools/check.py %s --tier quick' % p,
        thorough_cmd='python3 tools/check.py %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
        technique=('TLA+ spec checked by TLC; TLC-generated behaviours replayed into the real code; traces validated by TLC' if st else
                   'TLA+ spec checked by TLC; traces recorded from the real code validated against the spec by TLC'),
        level='model_checking', level_note=NOTE['state' if st else 'pure'].format(cfg=cfgs(p))))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks are needed: the checks use the public interface only', source_commits=[]),
    checks=checks, not_applicable=[],
    notes='TLA+ specification in spec/, recorder crate in harness/ (path dependency on /repo), runner tools/check.py. Every check builds from /repo itself; nothing is reused between runs.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
