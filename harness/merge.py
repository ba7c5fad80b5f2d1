"""comparison of what the workers of different backends have observed"""

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def backends(results, prop='C11', tier='quick'):
    seen = {}
    for b, s, r in results:
        for k, v in r['digests'].items():
            seen.setdefault(k, {})[b] = v
    partial = any(r.get('truncated') for _, _, r in results)
    out = []
    for k, v in sorted(seen.items()):
        if len(v) < 2:
            if not partial:
                out.append({'what': 'only one of the backends could be driven', 'program': k, 'backend': ','.join(v)})
            continue
        a, b = v['lxml'], v['std']
        if a == b:
            continue
        idx = next((i for i in range(0, max(len(a), len(b)), 10) if a[i:i + 10] != b[i:i + 10]), 0) // 10
        info = {}
        for bk in ('lxml', 'std'):
            env = dict(os.environ, FORCE_STD_XML='true' if bk == 'std' else 'false', PYTHONDONTWRITEBYTECODE='1',
                       PYTHONPATH=os.environ.get('VERIF_REPO', '/repo') + ':' + HERE, PYTHONWARNINGS='ignore')
            try:
                p = subprocess.run([sys.executable, os.path.join(HERE, 'harness', 'props', prop.lower() + '.py'), k, str(idx), tier],
                                   env=env, capture_output=True, text=True, timeout=60)
                info[bk] = p.stdout.splitlines() or [p.stderr[-500:]]
            except Exception as e:
                info[bk] = [str(e)]
        out.append({
            'what': 'the two backends disagree', 'program': k, 'backend': 'lxml/std', 'doc': info['lxml'][0],
            'got': 'lxml: ' + ' '.join(info['lxml'][1:]), 'expected': 'std:  ' + ' '.join(info['std'][1:]),
        })
        if len(out) >= 5:
            break
    return out
