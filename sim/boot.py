"""Installs the simulator's seams, then imports the code under test from /repo.

Import this module before anything else (it must run before arroba, ndb or cachetools bind
clocks, locks and queues).
"""
import os
import sys

REPO = os.environ.get('ARROBA_REPO', '/repo')

if os.environ.get('PYTHONHASHSEED') != os.environ.get('SIM_HASHSEED', '0'):
    os.environ['PYTHONHASHSEED'] = os.environ.get('SIM_HASHSEED', '0')
    os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])

sys.dont_write_bytecode = True
os.environ.update({
    'TZ': 'UTC',
    'DATASTORE_EMULATOR_HOST': 'sim.invalid:1',
    'GOOGLE_CLOUD_PROJECT': 'app', 'DATASTORE_DATASET': 'app', 'CLOUDSDK_CORE_PROJECT': 'app',
    'REPO_TOKEN': 'sim-token', 'PDS_HOST': 'pds.sim', 'PLC_HOST': 'plc.sim',
    'APPVIEW_HOST': 'appview.sim', 'RELAY_HOST': 'relay.sim',
    'ENCRYPTED_PROPERTY_KEY': 'c2ltLXNpbS1zaW0tc2ltLXNpbS1zaW0tc2ltLXNpbS0=',
})
for var in ('GETREPO_TOKEN', 'DISABLE_GETREPO', 'SUPPORTED_COLLECTIONS', 'ROLLBACK_WINDOW',
            'PRELOAD_WINDOW', 'SUBSCRIBE_REPOS_BATCH_DELAY', 'SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW',
            'SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY', 'MEMCACHE_SEQUENCE_BATCH', 'MEMCACHE_SEQUENCE_BUFFER',
            'BLOB_REFETCH_DAYS', 'BLOB_REFETCH_TYPES', 'BLOB_MAX_BYTES', 'GOOGLE_APPLICATION_CREDENTIALS'):
    os.environ.pop(var, None)
os.chdir('/')   # arroba and webutil look for key files in the working directory

import _thread
import datetime as _dt
import gc
import logging
import random
import threading
import time
import queue
import uuid

from . import kernel
from .kernel import BASE_WALL, NS, SimLock, SimRLock, SimSimpleQueue

real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_sleep = time.sleep
real_urandom = os.urandom

logging.disable(logging.CRITICAL)

# -- clocks -----------------------------------------------------------------------------------


def wall_ns():
    k = kernel.K
    if k is None:
        return BASE_WALL
    t = k.me()
    off = t.node.wall_offset if t is not None and t.node is not None else 0
    return BASE_WALL + k.now + off


def mono_ns():
    k = kernel.K
    return 10 ** 12 + (k.now if k is not None else 0)


clock_hook = None   # optional: callable returning wall ns, for clock fault checks


date_hook = None    # likewise, only for timestamps: time.time_ns() and the current date


def _time_ns():
    if date_hook is not None:
        return date_hook()
    if clock_hook is not None:
        return clock_hook()
    return wall_ns()


def _time():
    return (clock_hook() if clock_hook is not None else wall_ns()) / 1e9


def _sleep(secs):
    k = kernel.K
    if k is None or not k.active():
        return
    k.sleep(int(secs * NS), 'sleep')


time.time = _time
time.time_ns = _time_ns
time.monotonic = lambda: mono_ns() / 1e9
time.monotonic_ns = mono_ns
time.sleep = _sleep

_EPOCH = _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)


def utc_now(tz=_dt.timezone.utc):
    d = _EPOCH + _dt.timedelta(microseconds=_time_ns() // 1000)
    return d.astimezone(tz) if tz is not None else d.replace(tzinfo=None)


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _dt.datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _dt.datetime)


class SimDatetime(_dt.datetime, metaclass=_DTMeta):
    """Stands in for datetime.datetime in arroba's modules: reads the simulated clock."""
    def __new__(cls, *a, **kw):
        return _dt.datetime(*a, **kw)

    @classmethod
    def now(cls, tz=None):
        return utc_now(tz)

    @classmethod
    def utcnow(cls):
        return utc_now(None)

    @classmethod
    def today(cls):
        return utc_now(None)

    @classmethod
    def fromisoformat(cls, s):
        return _dt.datetime.fromisoformat(s)

    @classmethod
    def fromtimestamp(cls, *a, **kw):
        return _dt.datetime.fromtimestamp(*a, **kw)

    @classmethod
    def strptime(cls, *a):
        return _dt.datetime.strptime(*a)

    @classmethod
    def combine(cls, *a, **kw):
        return _dt.datetime.combine(*a, **kw)


# -- locks, queues, threads -------------------------------------------------------------------

threading.Lock = SimLock
threading._allocate_lock = SimLock
threading.RLock = SimRLock
queue.SimpleQueue = SimSimpleQueue

_orig_start = threading.Thread.start
_orig_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive


def _start(self):
    k = kernel.K
    if k is None or not k.active():
        return _orig_start(self)
    if getattr(self, '_sim_task', None) is not None:
        raise RuntimeError('threads can only be started once')
    parent = k.me()
    with threading._active_limbo_lock:
        threading._limbo[self] = self
    self._sim_task = k.spawn(None, self.name or 'thread', parent.node, daemon=True, thread=self)
    k.yield_('thread start')


def _join(self, timeout=None):
    t = getattr(self, '_sim_task', None)
    if t is None or kernel.K is None:
        return _orig_join(self, timeout)
    kernel.K.join(t, None if timeout is None else int(timeout * NS))


def _is_alive(self):
    t = getattr(self, '_sim_task', None)
    if t is None:
        return _orig_is_alive(self)
    return t.state != 'done' and not t.killed


threading.Thread.start = _start
threading.Thread.join = _join
threading.Thread.is_alive = _is_alive

# -- randomness -------------------------------------------------------------------------------

_entropy = random.Random('zygote')
_uuid_n = 0


def seed_entropy(seed):
    global _entropy, _uuid_n
    _entropy = random.Random(f'{seed}/entropy')
    _uuid_n = 0
    random.seed(f'{seed}/random')


def _urandom(n):
    return _entropy.randbytes(n)


def _uuid1(node=None, clock_seq=None):
    global _uuid_n
    _uuid_n += 1
    return uuid.UUID(int=_uuid_n)


os.urandom = _urandom
random.seed('zygote')
uuid.uuid1 = _uuid1
uuid.uuid4 = _uuid1

import secrets  # noqa: E402
import hashlib  # noqa: E402
from cryptography.hazmat.primitives import serialization  # noqa: E402
from cryptography.hazmat.primitives.asymmetric import ec  # noqa: E402
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature  # noqa: E402

_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


det_sign = False


class SimKey:
    """A secp256k1 private key whose signatures use seeded nonces.

    Real ECDSA signatures differ every time, which matters when a transaction is retried, but
    OpenSSL's nonces cannot be seeded; so the signature equation is evaluated here.
    """
    __slots__ = ('_key', '_d')

    def __init__(self, key):
        self._key = key
        self._d = key.private_numbers().private_value

    @property
    def curve(self):
        return self._key.curve

    @property
    def key_size(self):
        return self._key.key_size

    def public_key(self):
        return self._key.public_key()

    def private_numbers(self):
        return self._key.private_numbers()

    def private_bytes(self, *a, **kw):
        return self._key.private_bytes(*a, **kw)

    def exchange(self, *a):
        return self._key.exchange(*a)

    def sign(self, data, signature_algorithm):
        z = int.from_bytes(hashlib.sha256(data).digest(), 'big')
        if det_sign:      # the same data always gets the same signature
            rnd = random.Random(b'%d/%s' % (self._d, bytes(data)))
        else:
            rnd = _entropy
        while True:
            k = rnd.randrange(1, _N)
            pub = _orig_derive(k, ec.SECP256K1()).public_key().public_numbers()
            r = pub.x % _N
            s = pow(k, -1, _N) * (z + r * self._d) % _N
            if r and s:
                return encode_dss_signature(r, s)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _wrap_key(key):
    if isinstance(key, ec.EllipticCurvePrivateKey) and isinstance(key.curve, ec.SECP256K1):
        return SimKey(key)
    return key


_orig_derive = ec.derive_private_key
_orig_load_pem = serialization.load_pem_private_key


def _generate_private_key(curve, backend=None):
    if isinstance(curve, ec.SECP256K1):
        return SimKey(_orig_derive(_entropy.randrange(1, _N), curve))
    return _orig_derive(_entropy.randrange(1, 1 << 250), curve)


def _derive_private_key(value, curve, backend=None):
    return _wrap_key(_orig_derive(value, curve))


_pem_cache = {}


def _load_pem_private_key(data, password=None, *a, **kw):
    key = _pem_cache.get(bytes(data))
    if key is None:
        key = _pem_cache[bytes(data)] = _wrap_key(_orig_load_pem(data, password, *a, **kw))
    return key


ec.EllipticCurvePrivateKey.register(SimKey)
ec.generate_private_key = _generate_private_key
ec.derive_private_key = _derive_private_key
serialization.load_pem_private_key = _load_pem_private_key

# -- the code under test ----------------------------------------------------------------------

import socket  # noqa: E402


def _no_network(*a, **kw):
    raise OSError('network access inside the simulator')


# multiformats validates argument types at length on every call; remember the answers for scalars
import typing  # noqa: E402
import typing_validation  # noqa: E402
import typing_validation.validation as _tv  # noqa: E402

_orig_validate = _tv.validate
_SCALARS = (int, str, bytes, bool, type(None), memoryview, bytearray)
_valid = set()


def _fast_validate(val, t):
    tv = type(val)
    if tv is t:
        return True
    if tv in _SCALARS:
        key = (tv, t)
        try:
            if key in _valid:
                return True
        except TypeError:
            return _orig_validate(val, t)
        _orig_validate(val, t)
        if 'Literal' not in repr(t):
            _valid.add(key)
        return True
    return _orig_validate(val, t)


typing_validation.validate = _tv.validate = _fast_validate

import webutil.util  # noqa: E402
webutil.util.now = utc_now

# outbound HTTP and DNS go to whatever the run installs
http_handler = None    # callable(method, url, **kwargs) -> response


def _http_get(url, **kwargs):
    return http_handler('GET', url, **kwargs)


def _http_post(url, **kwargs):
    return http_handler('POST', url, **kwargs)


webutil.util.session.get = _http_get
webutil.util.session.post = _http_post

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import google.cloud.ndb.model as _ndbm  # noqa: E402

_ndbm.DateTimeProperty._now = staticmethod(lambda: utc_now(None))
_ndbm.DateProperty._now = staticmethod(lambda: utc_now(None).date())
_ndbm.TimeProperty._now = staticmethod(lambda: utc_now(None).time())

import arroba  # noqa: E402

assert os.path.realpath(list(arroba.__path__)[0]) == os.path.realpath(os.path.join(REPO, 'arroba')), \
    arroba.__path__

import arroba.util  # noqa: E402
import arroba.mst  # noqa: E402
import arroba.repo  # noqa: E402
import arroba.storage  # noqa: E402
import arroba.server  # noqa: E402
import arroba.did  # noqa: E402
import arroba.diff  # noqa: E402
import arroba.memcache  # noqa: E402
import arroba.datastore_storage  # noqa: E402
import arroba.firehose  # noqa: E402
import arroba.xrpc_repo  # noqa: E402
import arroba.xrpc_sync  # noqa: E402
import arroba.xrpc_server  # noqa: E402

ARROBA = {n: m for n, m in sorted(sys.modules.items())
          if (n == 'arroba' or n.startswith('arroba.')) and '.tests' not in n}

for _m in ARROBA.values():
    if getattr(_m, 'datetime', None) is _dt.datetime:
        _m.datetime = SimDatetime
if getattr(arroba.firehose, 'datetime', None) is not None:
    pass

socket.create_connection = _no_network

from google.auth.credentials import AnonymousCredentials  # noqa: E402
from google.cloud import ndb  # noqa: E402


import google.cloud.ndb.client as _ndbc  # noqa: E402

_current_stub = [None]
_ndbc.datastore_grpc.DatastoreGrpcTransport = lambda **kw: _current_stub[0]
_ndbc.grpc.insecure_channel = lambda *a, **kw: None


def make_ndb_client(stub):
    _current_stub[0] = stub
    try:
        return ndb.Client(project='app', credentials=AnonymousCredentials())
    finally:
        _current_stub[0] = None


# A key, a context and a few encodings up front, so lazily-built tables exist before forking.
_warm = arroba.util.new_key(seed=7)
arroba.util.sign({'a': 1}, _warm)

gc.collect()
gc.disable()
gc.freeze()
