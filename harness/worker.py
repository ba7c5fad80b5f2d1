"""
One worker process: runs its shard of the jobs of one property on one backend and writes what it found as json.

usage: worker.py PROPERTY TIER BACKEND SHARD NSHARDS OUT
"""

import fcntl
import importlib
import json
import os
import resource
import sys
import time
import traceback


class Claims:
    """the workers of one backend take the jobs in turn: a counter in a shared file"""

    def __init__(self, path):
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)

    def __call__(self) -> int:
        fcntl.lockf(self.fd, fcntl.LOCK_EX)
        n = int(os.pread(self.fd, 20, 0) or b'0')
        os.pwrite(self.fd, b'%019d' % (n + 1), 0)
        fcntl.lockf(self.fd, fcntl.LOCK_UN)
        return n


def main() -> None:
    prop, tier, backend, shard, nshards, out = sys.argv[1:7]
    shard, nshards = int(shard), int(nshards)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

    from harness import engine
    rep = engine.Report()
    claim = Claims(f'{out.rsplit("-", 1)[0]}.claims')
    result = {'error': None}
    t0 = time.time()
    deadline = t0 + float(os.environ.get('VERIF_WORKER_SECONDS', '600'))
    try:
        import pydantic_xml
        assert os.path.realpath(pydantic_xml.__file__).startswith(os.path.realpath(repo) + os.sep), pydantic_xml.__file__
        from pydantic_xml.element.native import etree
        assert (etree.__name__ == 'lxml.etree') == (backend == 'lxml'), (etree.__name__, backend)
        mod = importlib.import_module(f'harness.props.{prop.lower()}')
        jobs = done = 0
        mine = -1
        truncated = False
        for idx, job in enumerate(mod.jobs(tier, backend)):
            jobs += 1
            if idx > mine:
                mine = claim()
            if idx < mine:
                continue
            if time.time() > deadline:
                truncated = True
                break
            try:
                mod.run(job, rep, tier, backend)
            except engine.Hang:
                rep.violation('a library call does not terminate', job=repr(job)[:2000])
            except RecursionError as e:
                rep.violation(f'unbounded recursion: {e}', job=repr(job)[:2000], got=traceback.format_exc()[-1500:])
            except MemoryError as e:
                rep.violation(f'memory exhausted: {e}', job=repr(job)[:2000])
            done += 1
            if rep.counts.get('violations', 0) >= 20:
                truncated = True
                break
        result.update(jobs=jobs, done=done, truncated=truncated)
    except engine.Hang:
        rep.violation('a library call does not terminate', job='import')
    except BaseException as e:
        # the library cannot even be imported/driven: nothing can be established about the property
        result['error'] = traceback.format_exc()[-3000:]
    result.update(rep.dump())
    result['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(result, f)


if __name__ == '__main__':
    main()
