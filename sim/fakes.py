"""Simulated memcached, HTTP responses, DNS."""
import json
import socket

import requests

from .kernel import NS


class MemcacheServer:
    """One memcached; clients of every node share it."""

    def __init__(self, k, cfg=None):
        self.k = k
        self.cfg = dict(lat=0, err=0.0, lost=0.0, evict=0.0, slow=0.0, slow_s=2.0)
        self.cfg.update(cfg or {})
        self.data = {}      # key -> (bytes, expires ns or None, cas)
        self.cas = 0
        self.evictable = lambda key: True
        self.log = []       # (ev, op, key, result, task id, time)
        self.last_evict = -1 << 62
        self.evict_gap = 0

    def _live(self, key):
        v = self.data.get(key)
        if v is None:
            return None
        if v[1] is not None and self.k.now >= v[1]:
            del self.data[key]
            return None
        return v

    def put(self, key, val, expire):
        self.cas += 1
        self.data[key] = (val, self.k.now + int(expire * NS) if expire else None, self.cas)

    def flush(self):
        self.k.count('fault.mc_flush')
        self.k.ev('mc.flush')
        self.data.clear()


class MemcacheClient:
    """pymemcache.client.base.Client semantics (default_noreply=True, raw bytes values)."""

    def __init__(self, server):
        self.s = server

    def _op(self, name, key, apply):
        s, k = self.s, self.s.k
        ch, cfg = k.ch, s.cfg
        key = key.decode() if isinstance(key, bytes) else key
        k.count(f'mc.{name}')
        node = k.me().node if k.me() else None
        if node is not None:
            node.rpc_count += 1
            if node.crash_at_rpc is not None and node.rpc_count >= node.crash_at_rpc[0]:
                when = node.crash_at_rpc[1]
                node.crash_at_rpc = None
                if when == 'after':
                    r = apply(key)
                    s.log.append((k.ev(f'mc.{name}', key, r), name, key, r,
                                   k.me().id if k.me() else None, k.now))
                    k.count('fault.crash_after_apply')
                k.crash(node)
        if cfg['lat']:
            k.sleep(ch.sub('mc.lat', cfg['lat']), 'mc')
        else:
            k.yield_('mc')
        if k.faults_on:
            if cfg['slow'] and ch.chance('mc.slow', cfg['slow']):
                k.count('fault.mc_slow')
                k.sleep(ch.sub('mc.slow_ns', int(cfg['slow_s'] * NS)), 'mc slow')
            if cfg['err'] and ch.chance('mc.err', cfg['err']):
                k.count('fault.mc_error')
                k.ev('mc.err', name, key)
                raise socket.timeout('simulated memcache timeout')
            if cfg['evict'] and key in s.data and s.evictable(key) and \
                    k.now - s.last_evict >= s.evict_gap and ch.chance('mc.evict', cfg['evict']):
                k.count('fault.mc_evict')
                k.ev('mc.evict', key)
                s.last_evict = k.now
                del s.data[key]
        r = apply(key)
        s.log.append((k.ev(f'mc.{name}', key, r), name, key, r,
                                   k.me().id if k.me() else None, k.now))
        if k.faults_on and cfg['lost'] and ch.chance('mc.lost', cfg['lost']):
            k.count('fault.mc_lost_response')
            raise socket.timeout('simulated lost memcache response')
        if cfg['lat']:
            k.sleep(ch.sub('mc.lat', cfg['lat']), 'mc')
        else:
            k.yield_('mc')
        return r

    @staticmethod
    def _enc(value):
        return value if isinstance(value, bytes) else str(value).encode()

    def add(self, key, value, expire=0, noreply=None, flags=None):
        def f(key):
            if self.s._live(key) is not None:
                return False
            self.s.put(key, self._enc(value), expire)
            return True
        r = self._op('add', key, f)
        return r if noreply is False else True

    def set(self, key, value, expire=0, noreply=None, flags=None):
        def f(key):
            self.s.put(key, self._enc(value), expire)
            return True
        return self._op('set', key, f)

    def replace(self, key, value, expire=0, noreply=None, flags=None):
        def f(key):
            if self.s._live(key) is None:
                return False
            self.s.put(key, self._enc(value), expire)
            return True
        r = self._op('replace', key, f)
        return r if noreply is False else True

    def get(self, key, default=None):
        def f(key):
            v = self.s._live(key)
            return default if v is None else v[0]
        return self._op('get', key, f)

    def gets(self, key, default=None, cas_default=None):
        def f(key):
            v = self.s._live(key)
            return (default, cas_default) if v is None else (v[0], str(v[2]).encode())
        return self._op('gets', key, f)

    def cas(self, key, value, cas, expire=0, noreply=False, flags=None):
        def f(key):
            v = self.s._live(key)
            if v is None:
                return None
            if str(v[2]).encode() != self._enc(cas):
                return False
            self.s.put(key, self._enc(value), expire)
            return True
        return self._op('cas', key, f)

    def delete(self, key, noreply=None):
        def f(key):
            had = self.s._live(key) is not None
            self.s.data.pop(key, None)
            return had
        r = self._op('delete', key, f)
        return r if noreply is False else True

    def _arith(self, name, key, delta):
        def f(key):
            v = self.s._live(key)
            if v is None:
                return None
            n = max(0, int(v[0]) + delta)
            self.s.data[key] = (str(n).encode(), v[1], v[2] + 1)
            return n
        return self._op(name, key, f)

    def incr(self, key, value, noreply=False):
        r = self._arith('incr', key, value)
        return None if noreply else r

    def decr(self, key, value, noreply=False):
        r = self._arith('decr', key, -value)
        return None if noreply else r

    def touch(self, key, expire=0, noreply=None):
        def f(key):
            v = self.s._live(key)
            if v is None:
                return False
            self.s.put(key, v[0], expire)
            return True
        r = self._op('touch', key, f)
        return r if noreply is False else True

    def get_many(self, keys):
        return {key: v for key in keys if (v := self.get(key)) is not None}

    get_multi = get_many

    def close(self):
        pass


class Response:
    """The parts of requests.Response that arroba and webutil use."""

    def __init__(self, status=200, body=b'', headers=None, url='', body_error=None):
        self.status_code = status
        self._body = body if isinstance(body, bytes) else body.encode()
        self.headers = requests.structures.CaseInsensitiveDict(headers or {})
        self.url = url
        self.reason = str(status)
        self._body_error = body_error
        self.encoding = 'utf-8'

    @property
    def content(self):
        if self._body_error:
            raise self._body_error
        return self._body

    @property
    def text(self):
        return self.content.decode('utf-8', 'replace')

    def iter_content(self, chunk_size=1, decode_unicode=False):
        c = self.content
        for i in range(0, len(c), chunk_size or len(c) or 1):
            yield c[i:i + (chunk_size or len(c))]

    @property
    def ok(self):
        return self.status_code < 400

    def json(self, **kw):
        try:
            return json.loads(self.text)
        except ValueError as e:
            raise requests.exceptions.JSONDecodeError('bad json', self.text[:50] or '-', 0) from e

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError(f'{self.status_code} for url: {self.url}', response=self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __repr__(self):
        return f'<Response [{self.status_code}]>'
