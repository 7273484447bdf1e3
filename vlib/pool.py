"""Process plumbing: each driver process owns one nempy worker (a separate interpreter, /opt/venv)."""
import json, os, subprocess, sys, select, time

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


class WorkerDied(Exception):
    pass


class Worker:
    def __init__(self, env=None):
        self.env = dict(os.environ)
        self.env.update({'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
                         'PYTHONPATH': '/repo/src'})
        self.env.pop('PYTHONHOME', None)
        if env:
            self.env.update(env)
        self.p = None
        self.n = 0
        self.reached = set()      # (file, line) of the code under test executed so far

    def start(self):
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('VWORKER_DEBUG') else subprocess.DEVNULL, env=self.env, text=True, bufsize=1, cwd=os.environ.get('VSCRATCH', '/tmp'))

    def run(self, job, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.n += 1
        job = dict(job)
        job['id'] = self.n
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            end = time.time() + timeout
            while True:
                r, _, _ = select.select([self.p.stdout], [], [], max(0.1, end - time.time()))
                if not r:
                    self.close()
                    return {'harness_error': {'err': 'timeout'}}
                line = self.p.stdout.readline()
                if not line:
                    self.close()
                    return {'harness_error': {'err': 'died'}}
                m = json.loads(line)
                if m['id'] == self.n:
                    self.reached.update(tuple(x) for x in m.get('reached', ()))
                    return m['r']
        except (BrokenPipeError, OSError):
            self.close()
            return {'harness_error': {'err': 'died'}}

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait(5)
            except Exception:
                pass
            self.p = None
