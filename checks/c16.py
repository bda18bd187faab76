"""C16: DID and handle resolution is fresh, never mixed up, and DID failures are not sticky."""
import json

from arroba import did as adid
import cachetools
import dns.message
import dns.rdataclass
import dns.rdatatype
import dns.resolver
import dns.rrset
import requests

from sim import archive, boot, fakes, nodes, world
from sim.kernel import NS
from sim.world import World, key_for

REAL = ['arroba.did.resolve, resolve_plc, resolve_web, resolve_handle and their caches', 'cachetools',
        'dnspython answer parsing']
STUB = ['HTTP and DNS servers', 'thread scheduling, clocks']
ASSUMPTIONS = [
    'the cache lifetime is 6 hours, counted from when the answer was stored',
    'a handle that could not be resolved may be remembered as such for the cache lifetime (only '
    'failures to resolve a DID must not be)',
    'an answer of a concurrent resolution of the same identifier is as good as the own one',
]
QUICK_S = 20
HOUR = 3600 * NS
TTL = 6 * HOUR

PLC = ['did:plc:aaa', 'did:plc:bbb', 'did:plc:ccc']
WEB = {'did:web:a.test': 'https://a.test/.well-known/did.json',
       'did:web:a.test:user': 'https://a.test/user/did.json',
       'did:web:a.test:user:x': 'https://a.test/user/x/did.json',
       'did:web:a.test%3A8443': 'https://a.test:8443/.well-known/did.json',
       'did:web:aaa': 'https://aaa/.well-known/did.json'}
HANDLES = ['han.test', 'a.test', 'x-y.Mixed.test', 'aaa.bb']
BAD = {'did': ['', 'did:key:zabc', 'han.test', None, 'did:plx:a'],
       'plc': ['did:web:a.test', 'han.test', '', None], 'web': ['did:plc:aaa', 'a.test', None],
       'handle': ['nodots', 'a..test', '-a.test', 'a.test/x', 'a.test:80', 'did:plc:aaa', 'a_b.test',
                  'han.test\n', '', None]}


class Look:
    """One lookup that an operation made."""
    def __init__(self, op, how, what, t):
        self.op, self.how, self.what, self.t = op, how, what, t
        self.t1 = None
        self.value = None       # DID: the document or None; handle: set of acceptable DIDs
        self.either = False     # a CNAME: may be used or not

    def __repr__(self):
        return f'<{self.how} {self.what} @{self.t}: {self.value}{" cname" if self.either else ""}>'


def answer(qname, target, txts, err):
    if err == 'timeout':
        raise dns.resolver.LifetimeTimeout(timeout=5, errors=[])
    if err == 'servfail':
        raise dns.resolver.NoNameservers(request=dns.message.make_query(qname, 'TXT'), errors=[])
    if err == 'nxdomain':
        raise dns.resolver.NXDOMAIN(qnames=[dns.name.from_text(qname)], responses={})
    if err == 'yxdomain':
        raise dns.resolver.YXDOMAIN()
    query = dns.message.make_query(qname, dns.rdatatype.TXT)
    resp = dns.message.make_response(query)
    owner = dns.name.from_text(qname)
    if target:
        resp.answer.append(dns.rrset.from_text(owner, 300, 'IN', 'CNAME', target))
        owner = dns.name.from_text(target)
    if txts:
        resp.answer.append(dns.rrset.from_text(
            owner, 300, 'IN', 'TXT', *(' '.join(json.dumps(s) for s in ss) for ss in txts)))
    return dns.resolver.Answer(dns.name.from_text(qname), dns.rdatatype.TXT, dns.rdataclass.IN,
                               dns.message.from_wire(resp.to_wire()))


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env, preempt=False)
    k.preempt_mean = ch.pick('cfg.preempt', [0, 3, 10, 40])
    k.time_limit = 4000 * HOUR
    w = World(env, preempt=('arroba.did', cachetools))
    w.start('f0')
    node = w.nodes['f0']
    lat = ch.pick('cfg.lat', [0, NS // 10, 20 * NS])
    bad = ch.pick('cfg.bad', [0, 0.1, 0.5])
    step = ch.pick('cfg.step', [0, NS, HOUR, 5 * HOUR])
    jump = ch.pick('cfg.jump', [0, 0, 0.2])
    change_p = ch.pick('cfg.change', [0.5, 0.1, 0])
    ndids = 1 + ch.draw('cfg.dids', len(PLC) + len(WEB))
    nhandles = 1 + ch.draw('cfg.handles', len(HANDLES))
    nclients = 1 + ch.draw('cfg.clients', 4)
    pool = PLC + list(WEB)
    dids = [pool.pop(ch.draw('cfg.did', len(pool))) for _ in range(ndids)]
    handles = HANDLES[:nhandles]
    version = {d: 0 for d in dids}
    site = {}       # handle -> (dns: (target, txts), http: (status, body))
    counter = [0]
    looks = []

    def url_of(d):
        return WEB.get(d) or f'https://plc.sim/{d}'

    def doc(d):
        return {**archive.did_doc(d, key_for(1), 'han.test'), 'version': version[d]}

    def fresh():
        counter[0] += 1
        return f'did:{ch.pick("dns.method", ["plc", "web"])}:h{counter[0]}'

    def change(ident, st):
        if ident in version:
            version[ident] += 1
            return
        txts, target = [], None
        for _ in range(ch.draw(f'{st}.txts', 4)):
            val = ch.wpick(f'{st}.txt', [(4, 'did=' + fresh()), (1, 'v=spf1 -all'), (1, 'did='),
                                         (1, 'xdid=did:plc:evil'), (1, 'did=evil'), (1, '')])
            cut = ch.draw(f'{st}.split', 3)
            txts.append([val] if not cut or len(val) < 9 else [val[:8 if cut == 1 else 4 * cut],
                                                               val[8 if cut == 1 else 4 * cut:]])
        if ch.chance(f'{st}.cname', 0.15):
            target = 'elsewhere.test.'
        body = ch.wpick(f'{st}.body', [(4, fresh()), (2, fresh() + '\r\n'), (1, ''),
                                       (1, '<html>'), (1, 'x did:plc:evil')])
        site[ident] = ((target, txts), (ch.wpick(f'{st}.status', [(5, 200), (1, 404)]), body))

    def lookup(how, what):
        op = w.op_of_task.get(k.me().id)
        lk = Look(op, how, what, k.now)
        looks.append(lk)
        k.count(f'{how}.lookup')
        if lat:
            k.sleep(ch.sub('net.lat', lat))
        else:
            k.yield_('net')
        lk.t = k.now
        return lk

    def back():
        if lat:
            k.sleep(ch.sub('net.back', lat))

    def fault(how, kinds):
        if bad and ch.chance(f'{how}.bad', bad):
            kind = ch.pick(f'{how}.kind', kinds)
            k.count(f'fault.{how}_{kind}')
            return kind

    def http(method, url, **kw):
        lk = lookup('http', url)
        kind = fault('http', ['timeout', 'reset', 'chunk', '404', '500', 'json'])
        for d in dids:
            if url == url_of(d):
                status, body = 200, json.dumps(doc(d))
                lk.value = doc(d)
                break
        else:
            for h in handles:
                if url == f'https://{h}/.well-known/atproto-did':
                    status, body = site[h][1]
                    lk.value = {body.strip()} if status < 400 and body.startswith('did:') else {None}
                    break
            else:
                status, body = 404, 'nothing here'
        if kind:
            lk.value = {None} if isinstance(lk.value, set) else None
        back()
        if kind in ('timeout', 'reset', 'chunk'):
            raise {'timeout': requests.Timeout, 'reset': requests.ConnectionError,
                   'chunk': requests.exceptions.ChunkedEncodingError}[kind]('sim')
        if kind == 'json':
            body = '{"id": '
        elif kind:
            status = int(kind)
        return fakes.Response(status, body, {}, url)

    def resolve_txt(self, qname, rdtype='A', *a, **kw):
        qname = qname if isinstance(qname, str) else qname.to_text()
        lk = lookup('dns', qname)
        lk.value = set()
        kind = fault('dns', ['timeout', 'servfail', 'nxdomain', 'yxdomain', 'noanswer'])
        h = next((h for h in handles if qname.rstrip('.') == f'_atproto.{h}'), None)
        target, txts = site[h][0] if h else (None, [])
        if kind:
            target, txts = None, []
        else:
            lk.value = {''.join(ss)[4:] for ss in txts if ''.join(ss).startswith('did=did:')}
            lk.either = bool(target)
        back()
        return answer(qname, target, txts, kind)

    boot.http_handler = http
    dns.resolver.Resolver.resolve = resolve_txt
    dns.resolver.default_resolver = dns.resolver.Resolver(configure=False)

    def one(st):
        kind = ch.wpick(f'{st}.op', [(4, 'did'), (1, 'plc'), (1, 'web'), (5, 'handle')])
        fn = {'did': adid.resolve, 'plc': adid.resolve_plc, 'web': adid.resolve_web,
              'handle': adid.resolve_handle}[kind]
        good = handles if kind == 'handle' else [d for d in dids if kind == 'did'
                                                 or d.startswith(f'did:{kind}:')]
        if not good or ch.chance(f'{st}.invalid', 0.05):
            ident, valid = ch.pick(f'{st}.bad', BAD[kind]), False
        else:
            ident, valid = ch.pick(f'{st}.ident', good), True
        kw = {'get_fn': boot._http_get} if ch.chance(f'{st}.get_fn', 0.3) else {}
        op = w.op('f0', kind, (ident,), lambda n: snapshot(fn(ident, **kw)), ndb=False)
        op.extra['valid'] = valid

    def snapshot(val):
        return json.loads(json.dumps(val)) if isinstance(val, dict) else val

    def client(i):
        st = f'c{i}'
        for _ in range(1 + ch.draw(f'{st}.n', 7)):
            one(st)
            if change_p and ch.chance(f'{st}.change', change_p):
                change(ch.pick(f'{st}.which', dids + handles), f'{st}.change')
            if jump and ch.chance(f'{st}.jump', jump):
                by = ch.sub(f'{st}.jump_by', 48 * HOUR)
                node.wall_offset += by if ch.chance(f'{st}.fwd', 0.5) else -by
                k.count('fault.clock_jump')
            if step:
                k.sleep(ch.sub(f'{st}.step', step))

    def main():
        for h in handles:
            change(h, 'init')
        tasks = [k.spawn(lambda i=i: client(i), f'client{i}') for i in range(nclients)]
        for t in tasks:
            k.join(t)
        w.all_ok(tasks)
        k.faults_on = False
        nonlocal bad
        bad = 0
        for ident in dids + handles:    # once faults stopped
            h = ident in handles
            op = w.op('f0', 'handle' if h else 'did', (ident,),
                      lambda n: snapshot((adid.resolve_handle if h else adid.resolve)(ident)),
                      ndb=False)
            op.extra['valid'] = True

    k.run(main)
    judge(env, w, looks)


def judge(env, w, looks):
    by_op = {}
    for lk in looks:
        by_op.setdefault(lk.op, []).append(lk)
    for op in w.ops:
        mine = by_op.get(op, [])
        op.extra['shown'] = f'{op} after {mine}'
        op.extra['own'] = own(op, mine)
    for op in w.ops:
        ident = op.args[0]
        if op.state == 'open':
            env.fail('no answer', op.extra['shown'])
        if not op.extra['valid']:
            env.check(isinstance(op.exc, ValueError), 'invalid input accepted', op.extra['shown'])
            env.check(not by_op.get(op), 'lookup for invalid input', op.extra['shown'])
            env.probe('invalid')
            continue
        allowed = []
        for o in w.ops:
            if o is op or not o.extra['valid'] or o.args[0] != ident or o.extra['own'] is None or o.inv > op.ret:
                continue
            if (op.extra['own'] is None and o.t1 + TTL >= op.t0) or (op.extra['own'] is not None and o.ret > op.inv):
                allowed += o.extra['own']
        if op.extra['own'] is None:
            env.check(op.state == 'ok', 'failed without asking', lambda: op.extra['shown'])
            env.check(op.res in allowed, 'not a fresh answer', lambda: (
                f'{op.extra["shown"]}; fresh ones: {allowed}; '
                f'{[(o.extra['shown'], o.t0, o.t1) for o in w.ops if o.args[0] == ident]}'))
            env.probe('cached')
        elif op.state == 'err':
            env.check(not op.extra['own'] and op.kind != 'handle', 'failed although it could be resolved',
                      lambda: op.extra['shown'])
            env.check(isinstance(op.exc, requests.RequestException), 'wrong exception',
                      lambda: op.extra['shown'])
            env.probe('failed')
        else:
            env.check(op.res in op.extra['own'] + allowed, 'wrong answer', lambda: (
                f'{op.extra["shown"]}; right: {op.extra['own']}, concurrently: {allowed}'))
            env.probe('handle' if op.kind == 'handle' else 'document')
            if op.res is None:
                env.probe('unresolved')


def own(op, mine):
    """What an operation that made these lookups may answer; None if it made none."""
    if not mine:
        return None
    if op.kind != 'handle':
        return [lk.value for lk in mine if lk.value is not None]
    out = []
    dns_looks = [lk for lk in mine if lk.how == 'dns']
    http = [lk for lk in mine if lk.how == 'http']
    for lk in dns_looks:
        out += sorted(lk.value)
    if not out or (any(lk.either for lk in dns_looks) and http):
        for lk in http:
            out += list(lk.value)
    if not dns_looks:
        out = ['DNS was not asked']
    return out or [None]
