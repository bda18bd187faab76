"""C17: PLC operations form a valid, correctly signed chain."""
import base64
import hashlib
import json

from arroba import did as adid
import cachetools
import dag_cbor
import requests
from cryptography.hazmat.primitives.asymmetric import ec

from sim import archive, boot, fakes, model, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

REAL = ['arroba.did.create_plc, update_plc, rollback_plc, write_plc, write_plc_operation',
        'arroba.util.sign', 'dag_cbor', 'cryptography (ECDSA)']
STUB = ['PLC directory (its documented rules for operations, signatures, recovery and nullified '
        'operations), HTTP transport', 'thread scheduling, clocks, entropy']
ASSUMPTIONS = [
    'updates keep the handle and aliases that the caller does not change; the PDS, the keys and the '
    'services are written anew, as documented',
    'foreign operations are plc_operations with an ATProto PDS and signing key',
]
QUICK_S = 20
HOUR = 3600 * NS
PDS = 'https://pds.sim'
NKEYS = 6


def dec_b58(s):
    n = 0
    for c in s:
        n = n * 58 + archive.B58.index(c)
    return n.to_bytes(35, 'big')


def pub_of(didkey):
    raw = dec_b58(didkey.removeprefix('did:key:z'))
    assert didkey.startswith('did:key:z') and raw[:2] == b'\xe7\x01', didkey
    return ec.EllipticCurvePublicKey.from_encoded_point(ec.SECP256K1(), raw[2:])


def raw_sig(op):
    sig = op['sig']
    if '=' in sig:
        raise ValueError('padded signature')
    return {**op, 'sig': base64.b64decode(sig + '=' * (-len(sig) % 4), altchars=b'-_', validate=True)}


class Entry:
    def __init__(self, did, op, at):
        self.did, self.op, self.at = did, op, at
        self.cid = model.cid_str(dag_cbor.encode(op))
        self.nullified = False

    def json(self):
        return {'did': self.did, 'operation': self.op, 'cid': self.cid, 'nullified': self.nullified,
                'createdAt': f't{self.at}'}


class Refused(Exception):
    def __init__(self, why, conflict=False):
        super().__init__(why)
        self.why, self.conflict = why, conflict


FIELDS = {'type', 'rotationKeys', 'verificationMethods', 'alsoKnownAs', 'services', 'prev', 'sig'}


class Directory:
    """https://web.plc.directory/spec/v0.1/did-plc"""

    def __init__(self, k):
        self.k = k
        self.logs = {}

    def head(self, did):
        return self.logs[did][-1]

    def live(self, did):
        return [e for e in self.logs[did] if not e.nullified]

    def post(self, did, op):
        """Applies an operation, or raises Refused."""
        if set(op) != FIELDS or op['type'] != 'plc_operation':
            raise Refused(f'fields {sorted(op)}')
        keys = op['rotationKeys']
        if not (1 <= len(keys) <= 5 and len(set(keys)) == len(keys)):
            raise Refused('rotationKeys')
        try:
            for x in keys + list(op['verificationMethods'].values()):
                pub_of(x)
            signed = raw_sig(op)
        except Exception as e:
            raise Refused(repr(e))
        if not all(isinstance(u, str) and '://' in u for u in op['alsoKnownAs']):
            raise Refused('alsoKnownAs')
        if any(set(s) != {'type', 'endpoint'} for s in op['services'].values()):
            raise Refused('services')
        entry = Entry(did, op, self.k.now)
        log = self.logs.get(did)
        if not log:
            if op['prev'] is not None:
                raise Refused('not registered')
            want = 'did:plc:' + base64.b32encode(
                hashlib.sha256(dag_cbor.encode(op)).digest()).decode().lower()[:24]
            if did != want:
                raise Refused(f'did is not the hash of the operation ({want})')
            self.signer(signed, keys)
            self.logs[did] = [entry]
            return entry
        live = self.live(did)
        at = next((i for i, e in enumerate(live) if e.cid == op['prev']), None)
        if at is None:
            raise Refused('prev is unknown', conflict=any(e.cid == op['prev'] for e in log))
        prev = live[at]
        later = live[at + 1:]
        if later:       # recovery by a key with more authority, within 72 h
            by = next((x for x in prev.op['rotationKeys']
                       if not oracles.sig_ok(raw_sig(later[0].op), pub_of(x))), None)
            allowed = prev.op['rotationKeys'][:prev.op['rotationKeys'].index(by)]
            if self.k.now - later[0].at > 72 * HOUR:
                raise Refused('recovery too late', conflict=True)
            try:
                self.signer(signed, allowed)
            except Refused as e:
                raise Refused(f'prev is not the latest operation; {e.why}', conflict=True)
        else:
            self.signer(signed, prev.op['rotationKeys'])
        for e in later:
            e.nullified = True
        log.append(entry)
        return entry

    @staticmethod
    def signer(signed, keys):
        why = 'no key may sign'
        for x in keys:
            why = oracles.sig_ok(signed, pub_of(x))
            if not why:
                return x
        raise Refused(why)


def sign_op(op, key):
    s = archive.sign(op, key)
    return {**s, 'sig': base64.urlsafe_b64encode(s['sig']).decode().rstrip('=')}


class Trip:
    """One HTTP request."""
    def __init__(self, op, method, url, t):
        self.op, self.method, self.url, self.t = op, method, url, t
        self.body = self.log = self.entry = self.refused = None
        self.delivered = False      # the caller got the server's true answer

    def __repr__(self):
        return (f'<{self.method} {self.url} {"ok" if self.delivered else "failed"} '
                f'{self.refused.why if self.refused else self.entry and self.entry.cid[-6:]}>')


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env, preempt=False)
    k.preempt_mean = ch.pick('cfg.preempt', [0, 0, 10, 40])
    k.time_limit = 4000 * HOUR
    w = World(env, preempt=('arroba.did', 'arroba.util'))
    w.start('f0')
    lat = ch.pick('cfg.lat', [0, NS // 10, 5 * NS])
    bad = ch.pick('cfg.bad', [0, 0, 0.1, 0.4])
    stale = ch.pick('cfg.stale', [0, 0, 0.2])
    step = ch.pick('cfg.step', [0, NS, HOUR, 40 * HOUR])
    foreign = ch.pick('cfg.foreign', [0, 0.2, 0.5])
    nclients = 1 + ch.draw('cfg.clients', 3)
    directory = Directory(k)
    known = {archive.did_key(key_for(i)): key_for(i) for i in range(NKEYS)}
    dids = []
    trips = []
    calls = {}      # op -> dict

    def key(n):
        return key_for(n)

    def transport(method, url, json_=None):
        op = w.op_of_task.get(k.me().id)
        tr = Trip(op, method, url, k.now)
        trips.append(tr)
        if json_ is not None:
            tr.body = json.loads(json.dumps(json_))
        if lat:
            k.sleep(ch.sub('net.lat', lat))
        else:
            k.yield_('net')
        fault = None
        if bad and ch.chance('net.bad', bad):
            fault = ch.pick('net.kind', ['reset', 'lost', '500', '502', '429', '200', 'html'])
            k.count(f'fault.http_{fault}_{method.lower()}')
        if fault in ('reset', '500', '429'):        # before it was processed
            if fault == 'reset':
                raise requests.ConnectionError('sim')
            return fakes.Response(int(fault), '{"message": "sim"}', {}, url)
        path = url.removeprefix('https://plc.sim/')
        status, out = 404, {'message': f'DID not registered: {path}'}
        if method == 'POST':
            try:
                tr.entry = directory.post(path, tr.body)
                status, out = 200, {}
                if path not in dids:
                    dids.append(path)
            except Refused as e:
                tr.refused = e
                status, out = 400, {'message': e.why}
        elif path.endswith('/log/audit') and path[:-10] in directory.logs:
            log = [e.json() for e in directory.logs[path[:-10]]]
            if stale and ch.chance('net.stale', stale):
                log = log[:1 + ch.draw('net.stale_n', len(log))]
                k.count('fault.stale_log')
            tr.log = log
            status, out = 200, log
        if lat:
            k.sleep(ch.sub('net.back', lat))
        if fault == 'lost':
            raise requests.Timeout('sim')
        if fault == '502' or (fault == '200' and method == 'POST'):
            return fakes.Response(502, '<html>', {}, url)
        if fault in ('html', '200') and method == 'GET':
            return fakes.Response(200, '<html>', {}, url)
        if fault == 'html':
            return fakes.Response(502, '<html>', {}, url)
        tr.delivered = True
        return fakes.Response(status, json.dumps(out), {}, url)

    def get(url, **kw):
        return transport('GET', url)

    def post(url, json=None, **kw):
        return transport('POST', url, json_=json)

    boot.http_handler = lambda method, url, json=None, **kw: transport(method, url, json)

    def current_key(did):
        return known[directory.head(did).op['rotationKeys'][0]]

    def pick_rotation(st, did):
        if ch.chance(f'{st}.wrong_key', 0.07):
            return key(ch.draw(f'{st}.key', NKEYS))
        # any key that may sign now, not just the first
        return known[ch.pick(f'{st}.which', directory.head(did).op['rotationKeys'])]

    def options(st, create):
        kw = {}
        if create or ch.chance(f'{st}.handle?', 0.5):
            kw['handle'] = ch.pick(f'{st}.handle', ['a.test', 'b.test', 'x.y.test'])
        sk = ch.draw(f'{st}.signing', NKEYS)
        if not create or ch.chance(f'{st}.signing?', 0.7):
            kw['signing_key'] = key(sk)
            if ch.chance(f'{st}.public', 0.3):
                kw['signing_key'] = key(sk).public_key()
        if ch.chance(f'{st}.pds?', 0.3):
            kw['pds_url'] = ch.pick(f'{st}.pds', ['https://other.pds', 'http://localhost:80'])
        if ch.chance(f'{st}.aka?', 0.3):
            kw['also_known_as'] = ch.pick(f'{st}.aka', ['https://me.test', ['https://x', 'https://y'],
                                                        ('https://z',), []])
        if ch.chance(f'{st}.get_fn', 0.5):
            kw['post_fn'] = post
            if not create:
                kw['get_fn'] = get
        return kw

    def one(st):
        kind = ch.wpick(f'{st}.op', [(2, 'create'), (5, 'update'), (3, 'rollback'), (1, 'invalid')])
        if not dids and kind != 'invalid':
            kind = 'create'
        if kind == 'create':
            kw = options(st, True)
            if ch.chance(f'{st}.rotation?', 0.7):
                kw['rotation_key'] = key(ch.draw(f'{st}.rotation', NKEYS))
            call('create', None, kw, lambda: adid.create_plc(**kw))
        elif kind == 'update':
            did = ch.pick(f'{st}.did', dids)
            kw = options(st, False)
            kw['rotation_key'] = pick_rotation(st, did)
            if ch.chance(f'{st}.rotate', 0.2):
                n = key(ch.draw(f'{st}.new', NKEYS))
                kw['new_rotation_key'] = n.public_key() if ch.chance(f'{st}.newpub', 0.5) else n
            call('update', did, kw, lambda: adid.update_plc(did, **kw))
        elif kind == 'rollback':
            did = ch.pick(f'{st}.did', dids)
            kw = {'rotation_key': pick_rotation(st, did)}
            if ch.chance(f'{st}.many', 0.3):
                kw['num_operations'] = 2 + ch.draw(f'{st}.n', 2)
            call('rollback', did, kw, lambda: adid.rollback_plc(did, **kw))
        else:
            bad_kw = ch.pick(f'{st}.bad', [
                dict(handle=''), dict(handle=None), dict(handle=5),
                dict(handle='a.test', rotation_key=ec.derive_private_key(5, ec.SECP256R1())),
                dict(handle='a.test', signing_key=ec.derive_private_key(7, ec.SECP256R1()))])
            op = call('invalid', None, bad_kw, lambda: adid.create_plc(**bad_kw))
            env.check(op.state == 'err', 'invalid input accepted', lambda: repr(op))

    def call(kind, did, kw, fn):
        shown = tuple(f'{a}={known_name(v)}' for a, v in sorted(kw.items()) if not callable(v))
        op = w.op('f0', kind, (did and did[-4:], *shown), lambda n: fn(), ndb=False)
        calls[op] = dict(kind=kind, did=did, kw=kw)
        return op

    def known_name(v):
        pub = v.public_key() if hasattr(v, 'public_key') else v
        for i in range(NKEYS):
            if pub == key(i).public_key():
                return f'key{i}'
        return v if isinstance(v, (str, int, list, tuple, type(None))) else type(v).__name__

    def foreign_op(st):
        """Another program writes to the directory."""
        how = ch.wpick(f'{st}.foreign', [(3, 'create'), (3, 'append'), (4, 'recover')])
        if how != 'create' and not dids:
            return

        def op_with(prev, keys):
            aka = ['at://' + ch.pick(f'{st}.f.handle', ['f.test', 'g.test'])]
            aka[ch.draw(f'{st}.f.pos', 2):0] = [f'https://f{i}' for i in
                                                 range(ch.draw(f'{st}.f.aka', 3))]
            return {'type': 'plc_operation', 'rotationKeys': [archive.did_key(x) for x in keys],
                    'verificationMethods': {'atproto': archive.did_key(
                        key(ch.draw(f'{st}.f.signing', NKEYS)))},
                    'alsoKnownAs': aka, 'prev': prev,
                    'services': {'atproto_pds': {'type': 'AtprotoPersonalDataServer',
                                                 'endpoint': 'https://foreign.pds'}}}
        first = ch.draw(f'{st}.f.key', NKEYS)
        keys = [key((first + i) % NKEYS) for i in range(1 + ch.draw(f'{st}.f.keys', 3))]
        if how == 'create':
            op = sign_op(op_with(None, keys), keys[0])
            did = 'did:plc:' + base64.b32encode(
                hashlib.sha256(dag_cbor.encode(op)).digest()).decode().lower()[:24]
            if did in directory.logs:
                return
        else:
            did = ch.pick(f'{st}.f.did', dids)
            live = directory.live(did)
            prev = live[-1] if how == 'append' else ch.pick(f'{st}.f.prev', live)
            signer = known.get(prev.op['rotationKeys'][0])
            if not signer:
                return
            op = sign_op(op_with(prev.cid, keys), signer)
        try:
            directory.post(did, op)
            k.count('foreign_' + how)
            if did not in dids:
                dids.append(did)
        except Refused as e:
            if not e.conflict:
                raise

    def client(i):
        st = f'c{i}'
        for _ in range(1 + ch.draw(f'{st}.n', 6)):
            if foreign and ch.chance(f'{st}.foreign?', foreign):
                foreign_op(st)
            one(st)
            if step:
                k.sleep(ch.sub(f'{st}.step', step))

    def main():
        tasks = [k.spawn(lambda i=i: client(i), f'client{i}') for i in range(nclients)]
        for t in tasks:
            k.join(t)
        w.all_ok(tasks)
        nonlocal bad, stale
        bad = stale = 0
        k.faults_on = False
        kw = dict(handle='last.test', rotation_key=key(0), signing_key=key(1))
        op = call('create', None, kw, lambda: adid.create_plc(**kw))
        env.check(op.state == 'ok', 'create failed without faults', lambda: repr(op))
        for did in list(dids):
            for sub in ('update', 'rollback'):
                rot = known.get(directory.head(did).op['rotationKeys'][0])
                if rot is None:
                    break
                ukw = dict(rotation_key=rot, signing_key=key(2))
                rkw = dict(rotation_key=rot)
                call(sub, did, ukw if sub == 'update' else rkw,
                     lambda: adid.update_plc(did, **ukw) if sub == 'update' else
                     adid.rollback_plc(did, **rkw))

    # keys that arroba generates are known to the clients too
    orig_new = adid.util.new_key

    def new_key(*a, **kw):
        out = orig_new(*a, **kw)
        known[archive.did_key(out)] = out
        return out
    adid.util.new_key = new_key
    k.run(main)
    judge(env, w, trips, calls, directory)


def describe(x):
    return json.dumps(x, sort_keys=True, default=repr)[:900]


def doc_of(did, op):
    return {'id': did, 'alsoKnownAs': op['alsoKnownAs'],
            'key': op['verificationMethods']['atproto'].removeprefix('did:key:'),
            'pds': op['services']['atproto_pds']['endpoint']}


def judge(env, w, trips, calls, directory):
    by_op = {}
    for tr in trips:
        by_op.setdefault(tr.op, []).append(tr)
    for op, c in calls.items():
        mine = by_op.get(op, [])
        posts = [t for t in mine if t.method == 'POST']
        gets = [t for t in mine if t.method == 'GET']
        kind, did, kw = c['kind'], c['did'], c['kw']

        def show(extra=''):
            return f'{op}; {mine}; {extra}; sent {describe([p.body for p in posts])}'
        env.check(op.state != 'open', 'no answer', show)
        if kind == 'invalid':
            env.check(not posts, 'operation sent for invalid input', show)
            env.probe('invalid')
            continue
        env.check(len(posts) <= 1, 'more than one operation sent', show)
        env.probe(f'{kind}_{op.state}')
        log = next((g.log for g in gets if g.delivered and g.log), None)
        want = expected(kind, did, kw, log)
        if not posts:
            env.check(op.state == 'err', 'success without sending anything', show)
            env.check(want is None or not all(g.delivered for g in gets), 'nothing sent',
                      lambda: show(describe(want)))
            if gets and not gets[-1].delivered:
                env.check(isinstance(op.exc, requests.RequestException), 'wrong exception', show)
            continue
        p = posts[0]
        env.check(want is not None, 'sent an operation it should not have', show)
        target = p.url.removeprefix('https://plc.sim/')
        env.check(did is None or target == did, 'wrong DID', show)
        body = {**p.body}
        body.pop('sig', None)
        for f, v in want.items():
            env.check(v is ANY or body.get(f) == v, f'wrong {f}', lambda: show(
                f'{f} should be {describe(v)}'))
        if p.refused:
            # wrong keys are refused; so is what another writer made obsolete
            wrong = kw.get('rotation_key') is not None and log is not None and archive.did_key(
                kw['rotation_key']) not in log[-1]['operation']['rotationKeys']
            dup = kind == 'create' and target in directory.logs
            env.check(wrong or dup or p.refused.conflict, 'refused by the directory',
                      lambda: show(p.refused.why))
            env.probe('refused')
        if op.state == 'ok':
            env.check(p.entry is not None and p.delivered, 'false success', show)
            env.check(op.res is not None, 'no result', show)
            env.check(op.res.did == target, 'wrong DID returned', show)
            got = op.res.doc
            methods = {m['id']: m for m in got['verificationMethod']}
            services = {s['id']: s for s in got['service']}
            seen = {'id': got['id'], 'alsoKnownAs': got['alsoKnownAs'],
                    'key': methods.get(f'{target}#atproto', {}).get('publicKeyMultibase'),
                    'pds': services.get('#atproto_pds', {}).get('serviceEndpoint')}
            env.check(seen == doc_of(target, p.entry.op), 'wrong document returned', lambda: show(
                f'{seen}'))
            if kind != 'rollback':
                keys = op.res.signing_key, op.res.rotation_key
                env.check(did_key_of(keys[0]) == p.entry.op['verificationMethods']['atproto'],
                          'wrong signing key returned', show)
                new = kw.get('new_rotation_key')
                env.check(did_key_of(new or keys[1]) in p.entry.op['rotationKeys'],
                          'wrong rotation key returned', show)
                env.check(hasattr(keys[1], 'sign'), 'no private rotation key', show)
        else:
            env.check(p.entry is None or not p.delivered, 'false failure', show)
            env.check(isinstance(op.exc, requests.RequestException), 'wrong exception', show)


def did_key_of(key):
    pub = key.public_key() if hasattr(key, 'public_key') else key

    class P:
        @staticmethod
        def public_key():
            return pub
    return archive.did_key(P)


ANY = object()


def expected(kind, did, kw, log):
    """The operation a call has to send, or None if it can't."""
    pds = kw.get('pds_url') or PDS
    aka = kw.get('also_known_as')
    aka = [aka] if isinstance(aka, str) else aka and list(aka)
    if kind != 'create' and not log:
        return None
    if kind == 'rollback':
        live = [e for e in log if not e['nullified']]
        n = kw.get('num_operations', 1)
        if len(live) <= n or archive.did_key(kw['rotation_key']) not in \
                live[-1]['operation']['rotationKeys']:
            return None
        return {**{f: v for f, v in live[-1 - n]['operation'].items() if f != 'sig'},
                'prev': live[-1]['cid']}
    handle, prev = kw.get('handle'), None
    if kind == 'update':
        old = log[-1]['operation']['alsoKnownAs']
        prev = log[-1]['cid']
        i = next((i for i, u in enumerate(old) if u.startswith('at://')), None)
        if not handle:
            if i is None:
                return None
            handle = old[i].removeprefix('at://')
        if 'also_known_as' not in kw:
            aka = [u for j, u in enumerate(old) if j != i]
    rot = kw.get('new_rotation_key') or kw.get('rotation_key')
    return {'type': 'plc_operation', 'prev': prev, 'alsoKnownAs': [f'at://{handle}', *(aka or [])],
            'rotationKeys': [did_key_of(rot)] if rot else ANY,
            'verificationMethods': {'atproto': did_key_of(kw['signing_key'])}
            if kw.get('signing_key') else ANY,
            'services': {'atproto_pds': {'type': 'AtprotoPersonalDataServer', 'endpoint': pds}}}
