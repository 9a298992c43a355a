"""known_findings.txt (committed) and the assumptions reported in the evidence"""
import os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'known: property=(\w+) contract=(\S+) obligation=(\S+) values=(\S+) (.*)', line)
            if m:
                out.append({'kind': 'known', 'property': m[1], 'contract': m[2], 'obligation': m[3], 'values': m[4], 'text': m[5]})
    return out


def match(kf, prop, v):
    import json
    for k in kf:
        if k['property'] == prop and k['contract'] == v['contract'] and \
                k['values'] == json.dumps(v['values'], sort_keys=True, separators=(',', ':')).replace(' ', ''):
            return k
    return None


ASSUMPTIONS = {
    '*': ['Python integers are mathematical integers (exact); str/bytes/list operations behave as documented',
          'the interpreter of the verified subset agrees with CPython (cross-checked natively on every run)'],
}
