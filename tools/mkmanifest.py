import json
T = {
 'C01': ('property-based round trips over generated messages and keys', 'Signing and verifying through the public API for generated cases of every algorithm.'),
 'C02': ('property-based metamorphic testing: generated alterations must be refused', 'Every generated alteration of a signed message is refused; the algebraic twin of an ECDSA signature is excepted.'),
 'C03': ('property-based round trips over generated messages and recipients', 'Encrypting and decrypting through the public API for generated cases of every algorithm and recipient kind.'),
 'C04': ('property-based metamorphic testing: generated alterations must be refused', 'Every generated alteration of an encrypted message is refused.'),
 'C05': ('property-based round trips over generated messages and recipients', 'Creating and verifying MACs through the public API for generated cases.'),
 'C06': ('property-based metamorphic testing: generated alterations must be refused', 'Every generated alteration of a MACed message is refused.'),
 'C07': ('property-based differential testing against an independent RFC 8152 implementation', 'Bit-exact comparison in both directions; trusts the cryptography package for primitives.'),
 'C08': ('property-based differential testing against an independent RFC 8152 implementation', 'Bit-exact comparison in both directions; trusts the cryptography package for primitives.'),
 'C09': ('property-based differential testing against an independent RFC 8152 implementation', 'Bit-exact comparison in both directions; trusts hashlib and AES of the cryptography package.'),
 'C10': ('property-based differential testing against an independent RFC 8152 implementation', 'Bit-exact comparison of derived and wrapped keys in both directions.'),
 'C11': ('property-based testing: reference encoding of header maps, metamorphic spellings', 'Headers of every layer compared with an independent CBOR model.'),
 'C12': ('model-based stateful testing of header/payload/key change histories', 'Every encoding of a generated history is judged by an independent verifier against the model state.'),
 'C13': ('property-based testing against a reference lookup', 'Lookup in generated headers of every layer compared with a three-way reference.'),
 'C14': ('property-based testing with generated illegal attributes at every layer', 'Acceptance and refusal compared with a table-driven reference.'),
 'C15': ('property-based round trips and differential encoding of keys', 'Keys compared with an independent CBOR model, in every spelling.'),
 'C16': ('model-based stateful testing of keys against a dictionary model', 'Generated operation sequences on keys compared step by step with a map.'),
 'C17': ('property-based differential testing of key import and generation', 'Imported numbers compared with those of the cryptography package; generated keys checked for consistency.'),
 'C18': ('property-based testing of the operation/restriction matrix against a reference', 'Refusal compared with a reference decision for each generated cell.'),
 'C19': ('property-based testing with generated malformed and mismatched keys', 'Each generated defect must be refused, and its repaired counterpart accepted.'),
 'C20': ('structure-aware fuzzing and mutation of encoded messages with a parsing oracle', 'Decoded objects compared with an independent reading of the bytes.'),
 'C21': ('property-based testing of generated recipient structures against a rule reference', 'Acceptance and refusal compared with the listed rules, building and decoding.'),
 'C22': ('property-based differential testing of the nonce', 'Ciphertexts compared with an independent AEAD computation with the prescribed nonce.'),
 'C23': ('exhaustive enumeration of registry entries plus property-based testing of unknown inputs', 'Table of IANA values and names; generated unknown values.'),
 'C24': ('property-based differential testing of hashes, thumbprints and certificate chains', 'Digests compared with hashlib/cryptography; chains from a committed test PKI.'),
 'C25': ('stateful testing of interleavings with snapshots and a sequential differential', 'Interleaved runs compared with isolated runs in fresh processes.'),
 'C26': ('property-based testing and fuzzing of printing with a secret-search oracle', 'Printed forms searched for every secret of the case.'),
 'C27': ('property-based testing with a secret-search oracle on encoded bytes and freshness over histories', 'Secrets computed by an independent receiver are searched for; generated keys are compared over histories.'),
}
checks = []
for i, (t, n) in sorted(T.items()):
    checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python check.py ' + i,
                   'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % i,
                   'technique': t, 'level': 'exploration',
                   'level_note': n + ' Explores generated cases, never proves absence; assumptions are listed in the evidence.'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks: the checks use the public API of the working tree in /repo. check.py PROP --replay FILE replays a violation.'}
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
