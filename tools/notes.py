NA = {}
import re as _re
# deciding technique of every check: the row of the table in DESIGN.md
for _l in open(os.path.join(ROOT, 'DESIGN.md')):
    _c = [x.strip() for x in _l.strip().strip('|').split(' | ')]
    if _re.fullmatch(r'C\d\d', _c[0]) and len(_c) == 5:
        TECH[_c[0]] = 'runtime monitoring: %s observed while the real code runs; oracle: %s' % (_c[1], _c[2])
        NOTE[_c[0]] = 'Held on the generated executions counted in the evidence file (workload: %s); nothing is said about inputs outside of it.' % _c[3]
TECH['C03'] = 'sanitizers and runtime monitoring: ASan+UBSan, numba bounds checks, red zones and canaries; oracle: definitions in plain Python/numpy'
