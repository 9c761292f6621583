import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

M="pycose/messages/"; K="pycose/keys/"
p("C01","Signed messages verify after transport",
 "For every supported signature algorithm and a key that fits it, a single-signer or multi-signer message that was signed and encoded decodes to the same headers and payload, and every signature in it verifies as true with the signer's public key, the same external data and the same payload (carried in the message or detached). This holds whatever the headers, payload, external data, number of signers and key form, and it keeps holding when unrelated unprotected attributes are added, changed or dropped in transit.",
 ["inputs","configurations"],
 "All signature algorithms (ECDSA, EdDSA, RSA-PSS, RSA PKCS#1) x all fitting keys x arbitrary header maps, payloads (including empty), external data, attached/detached, tagged/untagged carriage, 1..4 signers with mixed algorithms.",
 "The tests sign a few dozen fixed vectors; keys whose coordinates or signature halves have leading zero bytes, boundary sizes, mixed signers, and detached payloads with external data are not sampled.",
 [M+"sign1message.py",M+"signmessage.py",M+"signer.py",M+"signcommon.py","pycose/algorithms.py"],
 [("signature computation and verification",M+"signcommon.py"),("to-be-signed structure",M+"sign1message.py, "+M+"signer.py"),("algorithm implementations","pycose/algorithms.py")],
 observe=["decoded message fields","result of signature verification"])
p("C02","Signature verification accepts nothing that was not signed",
 "Verification never returns true when the protected header of the message or of the signer, the payload, the external data, the signature bytes, the algorithm or the key differs from what was used to sign (an ECDSA signature's algebraic twin excepted). A signature never transfers between the single-signer and the multi-signer message kinds, nor between signers, and asking to verify without any payload, or with both a carried and a detached payload, is an error.",
 ["inputs","fault_sequences"],
 "Every signed message as in C01 and every edit of one or more of the listed components: bit flips, truncation, extension, swaps between signers/messages, reordered and re-encoded headers, wrong keys.",
 "A unit test can only try a handful of alterations; the claim is about every altered message.",
 [M+"sign1message.py",M+"signer.py",M+"signcommon.py",M+"cosebase.py","pycose/algorithms.py"],
 [("to-be-signed structure covers context, protected headers, external data, payload",M+"sign1message.py, "+M+"signer.py"),("received protected bytes kept verbatim",M+"cosebase.py")],
 observe=["result of signature verification"])
p("C03","Encrypted messages decrypt to the original plaintext",
 "A message encrypted with any supported content-encryption algorithm and encoded decodes to the same headers and decrypts to exactly the original plaintext, with an implicit key or through any one of its recipients, for every supported recipient kind (direct, key wrap, RSA key transport, direct key agreement, key agreement with key wrap). This holds for any plaintext including the empty one, any external data, a preset or a fresh content key, ephemeral keys supplied or generated, and any permitted mix and number of recipients.",
 ["inputs","configurations","histories"],
 "All AEAD algorithms x recipient kinds and algorithms x curves x 1..4 recipients x arbitrary headers, plaintext sizes, external data; encoding repeated; recipients decrypted in any order.",
 "Vectors cover single fixed recipients; combinations of recipients, generated ephemeral keys, curve and size corners are unsampled.",
 [M+"enc0message.py",M+"encmessage.py",M+"enccommon.py",M+"recipient.py","pycose/algorithms.py"],
 [("content encryption",M+"enccommon.py"),("content key distribution",M+"encmessage.py, "+M+"recipient.py")],
 observe=["decrypted plaintext","decoded headers"])
p("C04","Decryption never accepts an altered message",
 "Decryption of a message whose protected header, ciphertext, authentication tag, nonce, external data, key, or recipient information needed to obtain the key (wrapped key, ephemeral or static sender key, protected recipient header, party information) differs from what the sender used never returns a plaintext: it raises (the negative of a sender's elliptic-curve point, which yields the same shared secret, excepted). A ciphertext never transfers between the implicit-key message kind and the kind with recipients.",
 ["inputs","fault_sequences"],
 "Every encrypted message as in C03 and every edit of one or more of the listed components.",
 "Only sampled alterations can be unit-tested; authenticity is a for-all claim.",
 [M+"enccommon.py",M+"encmessage.py",M+"recipient.py",M+"cosebase.py","pycose/algorithms.py"],
 [("additional authenticated data",M+"enccommon.py"),("key unwrap / key derivation",M+"recipient.py")],
 observe=["result of decryption"])
p("C05","MACed messages verify after transport",
 "For every supported MAC algorithm, a MACed and encoded message decodes to the same headers, payload and tag, and its tag verifies as true with the same key and external data, with an implicit key or, for algorithms whose key size the library's symmetric keys support, with a key obtained through any of its recipients. This holds for all payloads (including empty), headers, external data and permitted recipient mixes, and is unaffected by changes to unrelated unprotected attributes in transit.",
 ["inputs","configurations"],
 "All MAC algorithms x key sizes x arbitrary headers, payload sizes around block boundaries, external data x implicit key or 1..3 recipients.",
 "Tests cover direct recipients and fixed vectors only; block-boundary sizes and wrapped/agreed MAC keys are unsampled.",
 [M+"mac0message.py",M+"macmessage.py",M+"maccommon.py",M+"recipient.py","pycose/algorithms.py"],
 [("tag computation and verification",M+"maccommon.py"),("MAC key distribution",M+"macmessage.py")],
 observe=["result of tag verification","decoded fields"])
p("C06","Tag verification accepts nothing that was not MACed",
 "Tag verification never returns true when the protected header, payload, external data, tag (including a truncated, extended or empty tag), algorithm or key differs from what was used to create the tag (HMAC keys which differ only in trailing zero bytes are the same key by HMAC's definition). A tag never transfers between the implicit-key message kind and the kind with recipients. MACing or verifying without any payload is an error.",
 ["inputs","fault_sequences"],
 "Every MACed message as in C05 and every edit of one or more of the listed components.",
 "Only a handful of alterations can be unit-tested; authenticity is a for-all claim.",
 [M+"maccommon.py",M+"mac0message.py",M+"macmessage.py",M+"cosebase.py","pycose/algorithms.py"],
 [("MAC structure",M+"maccommon.py"),("tag comparison","pycose/algorithms.py")],
 observe=["result of tag verification"])
p("C07","Signatures conform to RFC 8152 (interoperability)",
 "The encoding of a signed message is exactly the CBOR structure RFC 8152 prescribes, its signature is the one an independent implementation computes over the RFC's signature structure (bit-identical for deterministic ECDSA, EdDSA and PKCS#1; verifiable for PSS), and conversely every message signed by an independent RFC-conforming implementation is accepted. This includes empty protected headers (for which a zero-length string is authenticated, however the empty map was encoded) and protected headers in non-preferred CBOR encodings.",
 ["inputs","configurations"],
 "All signature algorithms x keys x arbitrary headers, payload, external data, message kind, signer count, CBOR encodings of received protected headers.",
 "A wrong-but-self-consistent structure passes every round-trip; fixed vectors cover few header/encoding combinations.",
 [M+"sign1message.py",M+"signmessage.py",M+"signer.py",M+"cosebase.py","pycose/algorithms.py"],
 [("to-be-signed structures",M+"sign1message.py, "+M+"signer.py"),("RFC 6979 ECDSA, EdDSA, PSS, PKCS#1","pycose/algorithms.py")],
 observe=["encoded bytes","acceptance of foreign messages"])
p("C08","Content encryption conforms to RFC 8152 (interoperability)",
 "The encoding of an encrypted message is exactly the CBOR structure RFC 8152 prescribes and its ciphertext is bit-identical to the one an independent implementation computes (AES-GCM, and AES-CCM with the algorithm's tag length, over the RFC's authenticated structure). Conversely every message encrypted by an independent RFC-conforming implementation decrypts, including those with empty protected headers or protected headers in non-preferred CBOR encodings.",
 ["inputs","configurations"],
 "All AEAD algorithms x key/nonce/plaintext/external data/header combinations, both message kinds, CBOR encodings of received protected headers.",
 "A wrong-but-self-consistent structure passes every round-trip; fixed vectors cover few combinations.",
 [M+"enccommon.py",M+"enc0message.py",M+"encmessage.py","pycose/algorithms.py"],
 [("authenticated structure",M+"enccommon.py"),("AEAD parameters","pycose/algorithms.py")],
 observe=["encoded bytes","decrypted plaintext of foreign messages"])
p("C09","MACs conform to RFC 8152 (interoperability)",
 "The encoding of a MACed message is exactly the CBOR structure RFC 8152 prescribes and its tag is bit-identical to the one an independent implementation computes (HMAC and AES-CBC-MAC with the algorithm's truncation, over the RFC's MAC structure). Conversely every message MACed by an independent RFC-conforming implementation verifies, including those with empty protected headers or protected headers in non-preferred CBOR encodings.",
 ["inputs","configurations"],
 "All MAC algorithms x key/payload/external data/header combinations, both message kinds, CBOR encodings of received protected headers.",
 "A wrong-but-self-consistent structure passes every round-trip; fixed vectors cover few combinations.",
 [M+"maccommon.py",M+"mac0message.py",M+"macmessage.py","pycose/algorithms.py"],
 [("MAC structure",M+"maccommon.py"),("HMAC / CBC-MAC with truncation","pycose/algorithms.py")],
 observe=["encoded bytes","acceptance of foreign messages"])
p("C10","Recipient key management conforms to RFC 8152 (interoperability)",
 "For every recipient algorithm the recipient structure on the wire, the key-derivation context, the derived key and the wrapped content key are what an independent RFC 8152 implementation computes (AES key wrap, RSA-OAEP, ECDH with HKDF including salt, party U/V information, public and private supplementary information and the recipient's protected header), in both directions. Changing any one of those context inputs changes the derived key.",
 ["inputs","configurations"],
 "All recipient algorithms x target algorithms x curves x optional context inputs present/absent x CBOR encodings of the received recipient header; key pairs whose shared secret has leading zero bytes.",
 "Self-consistent derivation errors are invisible to round trips; vectors use a few fixed contexts without salt or supplementary data.",
 [M+"recipient.py",M+"context.py","pycose/algorithms.py"],
 [("key derivation context",M+"context.py"),("ECDH + HKDF, AES-KW, RSA-OAEP","pycose/algorithms.py"),("recipient structures",M+"recipient.py")],
 observe=["encoded recipients","derived key","decryption of foreign messages"])
p("C11","Headers survive transport, in every spelling",
 "Every header map given at construction, with labels and algorithm values spelled as integers, names in any letter case, or attribute classes, yields the same message bytes, and decoding yields back every label and value unchanged in the same bucket (known labels and algorithms as attribute classes, unknown ones as they are). The protected header bytes of a received message are preserved exactly as received, for re-encoding as well as for authentication, in whatever valid CBOR encoding they came.",
 ["inputs","configurations"],
 "All known attributes x legal values x spellings, unknown integer/text labels with nested CBOR values, both buckets, all message kinds and their signer/recipient layers.",
 "Label spelling x value shape x layer combinations are unbounded; tests sample a few.",
 [M+"cosebase.py","pycose/headers.py","pycose/utils.py",M+"cosemessage.py"],
 [("header parsing",M+"cosebase.py"),("attribute lookup","pycose/utils.py")],
 observe=["encoded bytes","decoded header maps"])
p("C12","Header changes always take effect",
 "After any sequence of replacing or updating the protected and unprotected headers, the payload, the external data or the key of a message - freshly built or decoded - interleaved with encoding, signing, encrypting or MACing, the message encodes exactly the current content and authenticates exactly the current protected header. A protected header that was not changed since decoding keeps its received bytes. An assignment that is refused changes nothing.",
 ["histories"],
 "All sequences of header/payload/external-data/key changes and encode/transport steps, on built and decoded messages of every kind, including signers.",
 "Stale-cache defects need particular operation sequences, which example tests do not enumerate.",
 [M+"cosebase.py",M+"cosemessage.py"],
 [("protected header caching and invalidation",M+"cosebase.py")],
 state=[("cached protected bytes","bytes received for the protected header, until the header is changed",M+"cosebase.py")],
 observe=["encoded bytes","acceptance by an independent verifier"])
p("C13","Header lookup is unambiguous",
 "Looking up an attribute returns its value from whichever bucket holds it - whatever that value is, including zero, empty and false values - returns the caller's default (none if not given) exactly when neither bucket holds it, and raises when both buckets hold it. The outcome does not depend on the default, on how the label was spelled when the headers were given, or on whether the message was built or decoded.",
 ["inputs"],
 "All attributes x present in protected/unprotected/both/neither x values x defaults, at message, signer and recipient layer.",
 "The three-way case split over value shapes is only spot-checked.",
 [M+"cosebase.py"],[("attribute lookup",M+"cosebase.py")],
 observe=["lookup result or exception"])
p("C14","Attribute policy is enforced at every layer",
 "When unknown attributes are disallowed, decoding or constructing a message rejects an unknown header label in any bucket of any layer (body, every signer, every recipient), and otherwise keeps it; messages with only known labels are accepted either way. An illegal value of a standard attribute (key identifier, IVs, content type, critical list, counter signature, key objects, unknown algorithm) is rejected at every layer, in both buckets, whatever the policy.",
 ["inputs","configurations"],
 "All message kinds x layers x buckets x positions of the offending attribute among legal ones x both policies, by construction and by decoding.",
 "The policy must be threaded through every nested structure; tests check only a few positions.",
 [M+"cosebase.py",M+"signmessage.py",M+"encmessage.py",M+"macmessage.py",M+"recipient.py","pycose/headers.py","pycose/utils.py"],
 [("policy flag threading",M+"cosebase.py and subclasses"),("value checks","pycose/headers.py")],
 observe=["acceptance or rejection"])
p("C15","Keys survive encoding, in every spelling",
 "Every valid key of every type encodes to a CBOR map with the standard integer labels and identifiers and decodes to an equal key of the same type with every parameter, known or unknown, unchanged; building the key from a dictionary spelled with integers, names or classes gives the same key and the same bytes and leaves the caller's dictionary untouched. The same holds for keys carried inside message headers and for multi-prime RSA keys. Byte strings written in base64 by a key class are read back unchanged, in either alphabet and with or without padding. (An empty list of key operations means no restriction and is not kept.)",
 ["inputs","configurations"],
 "All key types and curves x private/public/compressed forms x optional parameters x spellings x unknown parameters.",
 "Tests use fixed keys; coordinates with leading zeros, unknown parameters, spellings and multi-prime keys are not combined.",
 [K+"cosekey.py",K+"ec2.py",K+"okp.py",K+"rsa.py",K+"symmetric.py",K+"keyparam.py"],
 [("key parsing",K+"*.py from_dict"),("key encoding",K+"cosekey.py")],
 observe=["encoded key bytes","decoded key parameters"])
p("C16","A key stays a valid key under any manipulation",
 "After any sequence of dictionary-style and attribute-style reads, deletions and writes of common and unknown parameters on an EC2, OKP or symmetric key, in any label spelling, the key behaves like a map from parameters to values in which all spellings of a label are the same entry. Deleting a parameter that the key needs to stay valid is refused and leaves the key unchanged, writes of ill-typed or disallowed values through attributes are refused and leave it unchanged, and the key can always be encoded and decoded again to the same key (a deleted public part which follows from the rest may be recomputed). On RSA keys the same holds for optional and unknown parameters.",
 ["histories"],
 "All finite sequences of get/set/delete/contains/iterate/pop/update/attribute writes over known and unknown labels, starting from private, public, partial keys of each type.",
 "Validity under deletion depends on which other parameters are present, i.e. on the history.",
 [K+"cosekey.py",K+"ec2.py",K+"okp.py",K+"symmetric.py"],
 [("mapping protocol",K+"cosekey.py"),("deletion guards",K+"ec2.py, "+K+"okp.py, "+K+"symmetric.py"),("attribute setters",K+"*.py")],
 observe=["mapping view of the key","encoded key"])
p("C17","Imported and generated keys are the right keys",
 "Importing any supported private or public PEM key gives a key with exactly that key's numbers in the fixed-size encoding of its curve plus the requested optional parameters, so that it interoperates with the original key in both directions; unsupported key kinds and wrong passwords are refused. Generating a key gives a fresh, complete, self-consistent private key on the requested curve or of the requested size carrying the requested optional parameters, and refuses illegal curves and sizes.",
 ["inputs","configurations"],
 "All curves and RSA sizes x private/public x PEM formats and passwords x optional parameters; keys with leading-zero numbers.",
 "Leading-zero coordinates occur in about 1% of keys, so tests with a few keys miss padding errors.",
 [K+"cosekey.py",K+"ec2.py",K+"okp.py",K+"rsa.py",K+"symmetric.py",K+"curves.py"],
 [("PEM import",K+"cosekey.py"),("generation",K+"ec2.py, "+K+"okp.py, "+K+"rsa.py, "+K+"symmetric.py")],
 observe=["imported key parameters","cross verification"])
p("C18","Key restrictions are always enforced",
 "An operation is refused when the key's type does not fit it, when the key is bound to an algorithm other than the one in the headers, or when the key lists permitted operations and none of them fits what is being done (sign, verify, encrypt, decrypt, create or verify a MAC, wrap or unwrap, derive); otherwise, and for a key without restrictions, the operation goes ahead. This holds for the content layer, for each signer and for each recipient's own key and peer key.",
 ["inputs","configurations"],
 "All operations x key types x subsets and orders of permitted operations x key algorithm bindings, at every layer.",
 "The operation/restriction matrix is large; tests check a few cells.",
 [K+"cosekey.py",M+"signcommon.py",M+"enccommon.py",M+"maccommon.py",M+"recipient.py"],
 [("restriction check",K+"cosekey.py"),("call sites",M+"*common.py, "+M+"recipient.py")],
 observe=["acceptance or refusal of the operation"])
p("C19","Malformed or mismatched key material is never used",
 "Constructing or decoding a key is refused when mandatory material is missing, symmetric keys have an illegal length, the curve does not belong to the key type, the declared key type differs, RSA parameter sets are incomplete, key material has the wrong type, or private and public parts of an EC2 key disagree. A symmetric key whose length does not fit the algorithm is never used. A public point that is not on its curve, or a key on a curve other than the algorithm's, never produces or verifies a signature and never yields a derived key.",
 ["inputs"],
 "All key types x all subsets of parameters x perturbed values, through constructor, dictionary and CBOR, and through use in signing, verification and key agreement.",
 "Invalid inputs form an open-ended set; tests enumerate a few.",
 [K+"ec2.py",K+"okp.py",K+"rsa.py",K+"symmetric.py",K+"cosekey.py","pycose/algorithms.py"],
 [("constructor validation",K+"*.py"),("curve and point checks","pycose/algorithms.py")],
 observe=["rejection"])
p("C20","Decoding is faithful and type-safe on arbitrary input",
 "Decoding any byte string either raises an ordinary exception or returns a message of the kind its tag announces whose protected bytes, headers, payload, signature, tag, signers and recipients are exactly the ones in the input (bytes behind the message and surplus array elements are not looked at); null or ill-typed headers, signatures, tags, signers and recipients are rejected. Decoding through a specific message kind never returns another kind, untagged, unknown-tagged or non-array input is always rejected, and whatever was decoded before has no influence on the result.",
 ["inputs","histories"],
 "Arbitrary bytes, structured near-miss COSE arrays, mutations of valid messages, through the generic and each specific entry point, in sequences.",
 "The input space is all byte strings.",
 [M+"cosemessage.py",M+"cosebase.py",M+"signmessage.py",M+"encmessage.py",M+"macmessage.py",M+"recipient.py"],
 [("tag dispatch",M+"cosemessage.py"),("per-kind parsing",M+"*.py from_cose_obj")],
 observe=["decoded object or exception"])
p("C21","Recipient rules are enforced when building and when decoding",
 "Encrypting or MACing is refused with no recipients, when a direct recipient is mixed with another kind, when a direct key agreement recipient is not the only one, when a key-wrap recipient with an authenticated-encryption-only algorithm or a plain direct recipient has protected attributes, when a direct recipient carries further recipients, or when the public part of an ephemeral key is in no header; decrypting is refused through a recipient that is not part of the message and for illegal mixes. Decoding rejects recipients without a recipient algorithm, plain direct recipients with a ciphertext or protected attributes, direct recipients with further recipients, wrapped-key recipients without a ciphertext, AES key-wrap recipients with protected attributes, and ephemeral direct agreement without an ephemeral key; legal structures are accepted and no recipient is silently dropped.",
 ["inputs","configurations"],
 "All recipient lists of length 0..4 over all kinds and algorithms x the listed defects at any position, built and decoded, for both message kinds with recipients.",
 "The rules concern combinations and positions of recipients; tests check a few.",
 [M+"recipient.py",M+"encmessage.py",M+"macmessage.py"],
 [("recipient mix check",M+"recipient.py"),("per-kind decode checks",M+"recipient.py")],
 observe=["acceptance or rejection"])
p("C22","The nonce is exactly the one the headers and key prescribe",
 "The nonce used to encrypt and to decrypt is the IV attribute from either bucket when present, and otherwise the partial IV, left-padded with zeros to the length of the key's base IV, XORed with that base IV - including all its leading zero bytes. A message without an IV whose key has no base IV, which has no partial IV, whose partial IV is longer than the base IV, or whose IV, partial IV or base IV is not a byte string, is refused.",
 ["inputs","configurations"],
 "All IV/partial IV/base IV combinations, lengths and byte patterns, bucket placement, both encrypted message kinds, all AEAD algorithms.",
 "Leading-zero results and length mismatches are rare and unsampled.",
 [M+"enccommon.py",K+"cosekey.py"],
 [("nonce selection",M+"enccommon.py")],
 observe=["ciphertext compared with an independent computation"])
p("C23","Identifiers and names map to the standard values, both ways",
 "For headers, algorithms, key types, key operations, curves and key parameters, every supported entry is found by its IANA integer identifier, by its name in any letter case and by its class, always yielding the same entry carrying that same identifier; distinct entries never share an identifier or name within a registry. An algorithm's key, tag and digest lengths and a curve's key type and coordinate size are the registered ones. Anything else (other integers, names or values) is reported as unknown (or returned unchanged where the caller allows unknown values), and using the library never changes these mappings.",
 ["inputs","histories"],
 "All registry entries x spellings (exhaustive) and arbitrary other integers/strings/values, before and after arbitrary library use.",
 "The value table is only partially asserted by tests, and unknown inputs are unbounded.",
 ["pycose/utils.py","pycose/headers.py","pycose/algorithms.py",K+"keytype.py",K+"keyops.py",K+"curves.py",K+"keyparam.py"],
 [("registries","pycose/utils.py")],
 observe=["lookup results"])
p("C24","Hashes and certificate attributes are correct",
 "Every hash algorithm computes, for every input, the digest its standard prescribes with the prescribed length, and a certificate thumbprint matches a certificate exactly when it is the digest of that certificate, also after a trip through a message header. Certificate bags and chains encode a single certificate as a byte string and several as an array in the given order, and chain verification accepts certificates which lead to a root the system trusts and never accepts a chain that does not.",
 ["inputs"],
 "All hash algorithms x arbitrary inputs; thumbprints x certificates and near misses; bags/chains of 1..5 byte strings; invalid certificate chains.",
 "Digest/truncation/compare errors show only for particular lengths or near misses.",
 ["pycose/extensions/x509.py","pycose/algorithms.py"],
 [("hash computation","pycose/algorithms.py"),("thumbprint match","pycose/extensions/x509.py")],
 observe=["digest","match result","encoded header value"])
p("C25","Objects are independent and operations repeatable",
 "Encoding a message or key any number of times gives the same result (identical bytes for deterministic algorithms, an equally valid message otherwise) and does not change its headers, payload or key. No operation on one message, recipient, key or derivation context changes another one or an object the caller passed in, and operations on unrelated objects, in between or at the same time in other threads, never influence a result. An operation that failed part-way leaves its objects usable: repeated, it gives the result it would have had. (A recipient or signer object belongs to one message.)",
 ["histories"],
 "All interleavings of construction, encode, decode, verify, decrypt, header and key changes over several live objects of all kinds.",
 "Aliasing and shared-default defects need particular multi-object sequences.",
 [M+"cosebase.py",M+"cosemessage.py",M+"encmessage.py",M+"context.py",K+"cosekey.py"],
 [("defensive copies",M+"cosebase.py, "+K+"cosekey.py"),("per-instance state",M+"*.py")],
 observe=["encoded bytes","object fields before and after"])
p("C26","Printing works on every object and never leaks a secret",
 "Producing the printable form of any constructible or decodable message, signer, recipient, key or attribute never raises and never changes the object. It never contains a complete private key value or symmetric key (of 8 or more bytes) of a key object, whatever the key type. Nor do the error messages of a refused key, or of a refused operation with a key.",
 ["inputs"],
 "All message kinds (including without payload, with arbitrary headers and nested keys), all key types and parameter sets.",
 "Printing is exercised on a few example objects only.",
 [M+"cosebase.py",K+"cosekey.py",K+"rsa.py",K+"ec2.py",K+"okp.py",K+"symmetric.py","pycose/utils.py"],
 [("header printing",M+"cosebase.py"),("key printing",K+"*.py")],
 observe=["printable form","error messages"])
p("C27","Secrets stay off the wire and fresh keys are fresh",
 "The encoding of a message never contains the content key, MAC key, key-encryption key or private key used to protect it, nor the plaintext of an encrypted payload, and an ephemeral key placed in the headers is public-only and belongs to the sender's ephemeral private key. Each message that needs a generated content key or ephemeral key gets a new one of the length the algorithm requires, never shared with another message.",
 ["inputs","histories"],
 "All recipient kinds and algorithms x key types x sequences of messages.",
 "Leak and reuse are properties of every message and of pairs of messages, not of one vector.",
 [M+"encmessage.py",M+"macmessage.py",M+"recipient.py",K+"ec2.py"],
 [("content key generation",M+"encmessage.py, "+M+"macmessage.py"),("ephemeral key setup",M+"recipient.py")],
 observe=["encoded bytes","content keys recovered by recipients"])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,x["title"]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
