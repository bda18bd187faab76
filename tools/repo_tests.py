#!/opt/venv/bin/python
"""Runs the repository's own datastore tests (which need an emulator this sandbox doesn't have)
against the simulated datastore, outside simulation: real threads, real clocks, no faults.

Shows that the stub the checks trust behaves like the one the maintainers' tests expect.
Usage: repo_tests.py [REPO] [pytest args]
"""
import os
import sys
import threading
import time

repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
sys.dont_write_bytecode = True
sys.path[:0] = [repo, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = '/tmp/hyp-unused'

import google.cloud.ndb.client as ndbc  # noqa: E402
from sim import datastore  # noqa: E402


class K:
    faults_on = False

    @staticmethod
    def active():
        return False

    @property
    def now(self):
        return time.monotonic_ns()

    def __getattr__(self, name):
        return lambda *a, **kw: None


class Stub:
    def __init__(self):
        self.lock = threading.RLock()
        self.reset()

    def reset(self):
        self.ds = datastore.Datastore(K())

    def __getattr__(self, name):
        if name not in datastore.Datastore.RPCS:
            raise AttributeError(name)
        return Method(self, name)


class Method:
    def __init__(self, stub, name):
        self.stub, self.name = stub, name

    def future(self, *a, **kw):
        with self.stub.lock:
            return getattr(self.stub.ds, self.name).future(*a, **kw)

    def __call__(self, *a, **kw):
        with self.stub.lock:
            return getattr(self.stub.ds, self.name)(*a, **kw)


stub = Stub()
ndbc.datastore_grpc.DatastoreGrpcTransport = lambda **kw: stub
ndbc.grpc.insecure_channel = lambda *a, **kw: None

import requests  # noqa: E402
real_post = requests.post


def post(url, *a, **kw):
    if url.endswith('/reset'):
        stub.reset()
        return None
    return real_post(url, *a, **kw)


requests.post = post
os.chdir(repo)
import pytest  # noqa: E402
sys.exit(pytest.main(['-q', '-p', 'no:cacheprovider', '--timeout=60', '--tb=short', '-x'
                      if '-x' in sys.argv else '-q',
                      *(sys.argv[2:] or ['arroba/tests/test_datastore_storage.py',
                                         'arroba/tests/test_xrpc_repo.py',
                                         'arroba/tests/test_xrpc_sync.py',
                                         'arroba/tests/test_storage.py'])]))
