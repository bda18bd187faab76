"""Judges the durable state and the recorded history. Reads the simulated datastore's rows
directly and decodes them with independent code."""
import dag_cbor
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

from . import model
from .boot import _N as N
from .world import indefinite

EV = 'com.atproto.sync.subscribeRepos#'
COMMIT_KEYS = {'version', 'did', 'rev', 'prev', 'data', 'sig'}


class Blk:
    __slots__ = ('cid', 'data', 'seq', 'repo', 'ops', 'ts', 'dec')

    def __init__(self, cid, e):
        p = e.properties
        self.cid = cid
        self.data = bytes(p['encoded'].blob_value)
        self.seq = p['seq'].integer_value
        self.repo = p['repo'].key_value.path[-1].name if 'repo' in p else None
        self.ops = []
        if 'ops' in p:
            for v in p['ops'].array_value.values:
                q = v.entity_value.properties
                get = lambda n: q[n].string_value or None if n in q else None
                self.ops.append((get('action'), get('path'), get('cid'), get('prev_cid')))
        elif 'ops.action' in p:
            arr = lambda n: [x.string_value or None for x in p[f'ops.{n}'].array_value.values]
            self.ops = list(zip(arr('action'), arr('path'), arr('cid'), arr('prev_cid')))
        self.dec = None

    @property
    def obj(self):
        if self.dec is None:
            self.dec = dag_cbor.decode(self.data)
        return self.dec

    @property
    def is_commit(self):
        return isinstance(self.obj, dict) and set(self.obj) == COMMIT_KEYS and \
            self.obj['version'] != 98       # see checks.common.Gen.odd

    @property
    def is_event(self):
        return isinstance(self.obj, dict) and str(self.obj.get('$type', '')).startswith(EV) and \
            self.obj.get('did') != 'did:plc:forged'


class Truth:
    """The durable state as of datastore timestamp ts."""

    def __init__(self, w, ts=None):
        self.w = w
        ds = w.ds
        self.blocks = {}
        for path, e in ds.all('AtpBlock', ts):
            self.blocks[path[-1][1]] = Blk(path[-1][1], e)
        self.repos = {}
        for path, e in ds.all('AtpRepo', ts):
            p = e.properties
            self.repos[path[-1][1]] = (p['head'].string_value,
                                       p['status'].string_value or None if 'status' in p else None)
        self.writer = {}     # block cid -> task id that first stored it
        self.wts = {}
        for lts, t, name, tid, paths, tx in ds.log:
            for path in paths:
                if path[-1][0] == 'AtpBlock' and path[-1][1] not in self.writer:
                    self.writer[path[-1][1]] = tid
                    self.wts[path[-1][1]] = lts
        self._content = {}

    def get(self, cid):
        b = self.blocks.get(cid)
        return b.data if b else None

    def content(self, root):
        """{path: cid} of a stored tree, checked to be well-formed."""
        c = self._content.get(root)
        if c is None:
            c = self._content[root] = model.content_of(self.get, root)[0]
        return c

    def chain(self, did, env):
        """Commit blocks of a repo, oldest first."""
        head = self.repos[did][0]
        out, seen = [], set()
        cid = head
        while cid is not None:
            env.check(cid not in seen, 'commit cycle', f'{did}: {cid} repeats in the history')
            seen.add(cid)
            b = self.blocks.get(cid)
            env.check(b is not None, 'head unreadable',
                      f'{did}: commit {cid} in the history of head {head} is not stored')
            env.check(b.is_commit, 'head not a commit', f'{did}: {cid} {b.obj}')
            out.append(b)
            p = b.obj['prev']
            cid = model.s(p) if p is not None else None
        out.reverse()
        return out


def head_history(w, did):
    """[(datastore timestamp, head cid, status)] of a repo."""
    out = []
    for ts, e in w.ds.rows.get((('AtpRepo', did),), []):
        if e is None:
            out.append((ts, None, None))
        else:
            p = e.properties
            out.append((ts, p['head'].string_value,
                        p['status'].string_value or None if 'status' in p else None))
    return out


def sig_ok(obj, pubkey):
    sig = obj['sig']
    if len(sig) != 64:
        return 'signature is not 64 bytes'
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if s > N // 2:
        return 'signature is not low-S'
    unsigned = {k: v for k, v in obj.items() if k != 'sig'}
    try:
        pubkey.verify(encode_dss_signature(r, s), dag_cbor.encode(unsigned),
                      ec.ECDSA(hashes.SHA256()))
    except InvalidSignature:
        return 'signature does not verify'


def rec_cid(rec):
    return model.cid_str(dag_cbor.encode(rec))


def apply_writes(content, writes):
    """New {path: cid}, or None if the writes are not applicable."""
    c = dict(content)
    for action, coll, rkey, rec in writes:
        path = f'{coll}/{rkey}'
        if action == 'create':
            if path in c:
                return None
            c[path] = rec_cid(rec)
        elif action == 'update':
            if path not in c:
                return None
            c[path] = rec_cid(rec)
        elif action == 'put':
            c[path] = rec_cid(rec)
        else:
            if path not in c:
                return None
            del c[path]
    return c


def diff_ops(before, after):
    """{path: (action, cid, prev)} between two contents."""
    out = {}
    for p in set(before) | set(after):
        a, b = before.get(p), after.get(p)
        if a != b:
            out[p] = ('create' if a is None else 'delete' if b is None else 'update', b, a)
    return out


def fmt(content):
    return {p: c[-6:] for p, c in sorted(content.items())}


def check_chain(env, w, truth, did, pubkey, writes_of=None, rev=True):
    """The repo's history: linear, signed, advancing, content exact. Returns the chain.

    writes_of(op) -> [(action, coll, rkey, record)] for ops that commit.
    """
    chain = truth.chain(did, env)
    prev = None
    for b in chain:
        o = b.obj
        env.check(o['did'] == did, 'wrong did', lambda: f'{did}: commit {b.cid} has did {o["did"]}')
        env.check(o['version'] == 3, 'wrong version', lambda: f'{b.cid} version {o["version"]}')
        bad = sig_ok(o, pubkey)
        env.check(bad is None, 'bad signature', lambda: f'{did}: {b.cid}: {bad}')
        env.check(model.cid_str(b.data) == b.cid, 'cid mismatch', lambda: b.cid)
        try:
            content = truth.content(model.s(o['data']))
        except model.Missing as e:
            env.fail('tree unreadable', f'{did}: commit {b.cid} (seq {b.seq}): tree node '
                                        f'{e.cid} is not stored')
        except ValueError as e:
            env.fail('tree malformed', f'{did}: commit {b.cid}: {e}')
        if prev is None:
            env.check(content == {}, 'first commit not empty', lambda: f'{did}: {content}')
        else:
            po = prev.obj
            env.check(not rev or o['rev'] > po['rev'], 'rev not increasing', lambda:
                      f'{did}: commit {b.cid} (seq {b.seq}) has rev {o["rev"]}, its predecessor '
                      f'{prev.cid} (seq {prev.seq}) has {po["rev"]}')
            op = w.op_of_task.get(truth.writer.get(b.cid))
            if writes_of is not None:
                env.check(op is not None, 'unattributed commit', lambda:
                          f'{did}: commit {b.cid} was stored by no recorded operation')
                writes = writes_of(op)
                want = apply_writes(truth.content(model.s(po['data'])), writes)
                env.check(want is not None and want == content, 'wrong content', lambda:
                          f'{did}: {op} committed on top of '
                          f'{fmt(truth.content(model.s(po["data"])))} gave {fmt(content)}')
        prev = b
    return chain


def check_ops_effects(env, w, truth, chains, ops):
    """Each commit operation's outcome against the number of commits it left in the history."""
    in_chain = {}
    for did, chain in chains.items():
        for b in chain:
            op = w.op_of_task.get(truth.writer.get(b.cid))
            if op is not None:
                in_chain.setdefault(op.id, []).append(b)
    for op in ops:
        got = in_chain.get(op.id, [])
        env.check(len(got) <= 1, 'request committed twice', lambda:
                  f'{op} left {len(got)} commits in the history: '
                  f'{[(b.cid, b.seq) for b in got]}')
        if op.state == 'ok':
            env.check(len(got) == 1, 'acknowledged commit lost', lambda:
                      f'{op} returned successfully but is not in the history')
            if isinstance(op.res, str):
                env.check(got[0].cid == op.res, 'acknowledged commit differs', lambda:
                          f'{op} returned {op.res}, the history has {got[0].cid}')
        elif op.state == 'err' and not indefinite(op.exc):
            env.check(len(got) == 0, 'failed commit applied', lambda:
                      f'{op} failed but left commit {got[0].cid} (seq {got[0].seq})')
        elif op.state == 'err' and not w.ds.ambiguous.get(op.task):
            env.check(len(got) == 0, 'failed commit applied', lambda:
                      f'{op}: no commit response was lost, but it left {got[0].cid} '
                      f'(seq {got[0].seq})')
    return in_chain


def check_no_orphans(env, truth, chains):
    """Every stored commit belongs to a repo's history; every sequence number has one event."""
    known = {b.cid for c in chains.values() for b in c}
    by_seq = {}
    for b in truth.blocks.values():
        by_seq.setdefault(b.seq, []).append(b)
        if b.is_commit and b.obj['did'] in chains:
            env.check(b.cid in known, 'orphan commit', lambda:
                      f'commit {b.cid} (seq {b.seq}, repo {b.obj["did"]}, ops {b.ops}) is stored '
                      f'but is not in its repo\'s history')
    for seq, bs in by_seq.items():
        if seq == 0:
            continue
        heads = [b for b in bs if b.is_commit or b.is_event]
        env.check(len(heads) == 1, 'partial commit', lambda:
                  f'seq {seq} has {len(bs)} blocks stored, {len(heads)} of them commits or events')
