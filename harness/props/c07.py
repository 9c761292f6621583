"""C07 Signatures conform to RFC 8152 (interoperability)."""
import conform as X
import msgs as M
from core import Facet

RULE = ('out: what the library encodes is parsed strictly and its signatures compared with (or verified by) an independent '
        'implementation over the RFC 8152 signature structure built from the wire; in: messages made by the independent '
        'implementation, with protected headers and whole messages in arbitrary valid CBOR encodings, must verify as true. '
        'Non-trivial: every case (each compares at least one signature).')
ASSUMPTIONS = ['primitives (SHA-2, RSA, EdDSA, EC arithmetic) of the cryptography package are right',
               'unknown header labels do not collide with registered names']
FACETS = [
    Facet('sign1-out', X.out_strategy(M.sign1), X.check_out, 1200, shards=4),
    Facet('sign-out', X.out_strategy(M.sign), X.check_out, 500, shards=4),
    Facet('sign1-in', X.in_strategy(M.sign1), X.check_in, 1200, shards=4),
    Facet('sign-in', X.in_strategy(M.sign), X.check_in, 500, shards=4),
]
