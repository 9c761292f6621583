"""C08 Content encryption conforms to RFC 8152 (interoperability)."""
import conform as X
import msgs as M
from core import Facet

RULE = ('out: what the library encodes is parsed strictly and its ciphertext compared bit for bit with an independent '
        'implementation over the RFC 8152 Enc_structure built from the wire (AES-CCM also against the bare block cipher); '
        'in: messages made by the independent implementation, with protected headers and whole messages in arbitrary valid '
        'CBOR encodings, must decrypt to the plaintext. Non-trivial: every case (each compares one ciphertext).')
ASSUMPTIONS = ['the AES, GCM, HKDF hash and EC primitives of the cryptography package are right',
               'unknown header labels do not collide with registered names']
FACETS = [
    Facet('enc0-out', X.out_strategy(M.enc0), X.check_out, 1500, shards=4),
    Facet('enc-out', X.out_strategy(M.encm), X.check_out, 900, shards=4),
    Facet('enc0-in', X.in_strategy(M.enc0), X.check_in, 1500, shards=4),
    Facet('enc-in', X.in_strategy(M.encm), X.check_in, 900, shards=4),
]
