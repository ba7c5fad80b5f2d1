"""writes a violation as a standalone python script"""

import json


def write(path: str, prop: str, v: dict) -> None:
    lines = [
        f'# property {prop}: {v["what"]}',
        f'# backend: {v.get("backend", "")}   program: {v.get("program", "")}',
        f'# run with: PYTHONPATH=/repo FORCE_STD_XML={"true" if v.get("backend") == "std" else "false"} '
        f'/opt/venv/bin/python {path}',
        '#',
    ]
    for k, x in v.items():
        if k in ('source', 'neutral', 'what', 'backend', 'program'):
            continue
        for i, part in enumerate(str(x).splitlines() or ['']):
            lines.append(f'# {k + ":" if i == 0 else " " * (len(k) + 1)} {part}')
    lines.append('')
    if v.get('source'):
        lines.append(v['source'])
    top = 'Top'
    if v.get('kind') == 'parse':
        lines += [
            '',
            f'doc = {v["doc"]!r}',
            f'kwargs = {v.get("kwargs") or {}!r}',
            f'expected = {v.get("expected")!r}',
            'import sys',
            "tops = [c for c in list(globals().values()) if isinstance(c, type) and issubclass(c, BaseXmlModel)]",
            'try:',
            '    got = repr(tops[-1].from_xml(doc, **kwargs))',
            'except Exception as e:',
            "    got = f'rejected: {type(e).__name__}: {e}'",
            "print('document:', doc)",
            "print('expected:', expected)",
            "print('got:     ', got)",
        ]
    elif v.get('script'):
        lines.append(v['script'])
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
