"""Repo archives and identities of a foreign PDS, built without arroba's code."""
import base64
import json

import dag_cbor
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature

from . import fakes, model
from .boot import _N as N

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
TID = '234567abcdefghijklmnopqrstuvwxyz'


def b58(data):
    n = int.from_bytes(data, 'big')
    out = ''
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    return '1' * (len(data) - len(data.lstrip(b'\0'))) + out


def did_key(key):
    raw = key.public_key().public_bytes(serialization.Encoding.X962,
                                        serialization.PublicFormat.CompressedPoint)
    return 'did:key:z' + b58(b'\xe7\x01' + raw)


def tid(n):
    out = ''
    for _ in range(13):
        out = TID[n & 31] + out
        n >>= 5
    return out


def sign(obj, key):
    r, s = decode_dss_signature(key.sign(dag_cbor.encode(obj), ec.ECDSA(hashes.SHA256())))
    s = min(s, N - s)
    return {**obj, 'sig': r.to_bytes(32, 'big') + s.to_bytes(32, 'big')}


def did_doc(did, key, handle):
    return {
        '@context': ['https://www.w3.org/ns/did/v1'],
        'id': did,
        'alsoKnownAs': [f'at://{handle}'] if handle else [],
        'verificationMethod': [{
            'id': f'{did}#atproto',
            'type': 'Multikey',
            'controller': did,
            'publicKeyMultibase': did_key(key).removeprefix('did:key:'),
        }],
        'service': [{'id': '#atproto_pds', 'type': 'AtprotoPersonalDataServer',
                     'serviceEndpoint': 'https://old.pds'}],
    }


class Archive:
    """records: {path: record}. Blocks in CAR order: commit, tree nodes, records."""

    def __init__(self, did, key, records, rev=None, prev=None):
        self.did, self.records = did, records
        self.content = {}
        self.recs = {}
        for path, rec in records.items():
            data = dag_cbor.encode(rec)
            cid = model.cid_str(data)
            self.content[path] = cid
            self.recs[cid] = data
        self.root, self.nodes = model.build(self.content)
        commit = sign({'did': did, 'version': 3, 'rev': rev or tid(1 << 52), 'prev': prev,
                       'data': model.to_cid(self.root)}, key)
        self.commit = dag_cbor.encode(commit)
        self.head = model.cid_str(self.commit)
        self.blocks = [(self.head, self.commit)] + list(self.nodes.items()) + \
            [(c, d) for c, d in self.recs.items() if c not in self.nodes]

    def car(self):
        return model.write_car([self.head], self.blocks)


def parse_did_web(did):
    return f'https://{did.removeprefix("did:web:")}/.well-known/did.json'


def serve_docs(docs, fallback=None):
    """An http handler that serves {did: doc}."""
    def handler(method, url, **kw):
        for did, doc in docs.items():
            if url in (f'https://plc.sim/{did}', parse_did_web(did)):
                return fakes.Response(200, json.dumps(doc),
                                      {'Content-Type': 'application/json'}, url)
        if fallback:
            return fallback(method, url, **kw)
        return fakes.Response(404, '{}', url=url)
    return handler
