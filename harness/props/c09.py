"""C09 MACs conform to RFC 8152 (interoperability)."""
import conform as X
import msgs as M
from core import Facet

RULE = ('out: what the library encodes is parsed strictly and its tag compared bit for bit with an independent '
        'implementation over the RFC 8152 MAC_structure built from the wire; in: messages made by the independent '
        'implementation, with protected headers and whole messages in arbitrary valid CBOR encodings, must verify as true. '
        'Non-trivial: every case (each compares one tag).')
ASSUMPTIONS = ['SHA-2 of hashlib and the AES block cipher of the cryptography package are right',
               'unknown header labels do not collide with registered names']
FACETS = [
    Facet('mac0-out', X.out_strategy(M.mac0), X.check_out, 1500, shards=4),
    Facet('mac-out', X.out_strategy(M.macm), X.check_out, 900, shards=4),
    Facet('mac0-in', X.in_strategy(M.mac0), X.check_in, 1500, shards=4),
    Facet('mac-in', X.in_strategy(M.macm), X.check_in, 900, shards=4),
]
