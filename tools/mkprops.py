#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    for k, v in kw.items():
        if k == "observe_at" and isinstance(v, str): v = [v]
        if k == "state" and isinstance(v, str): v = [{"name": v}]
        a[k] = v
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

GH = "dstulib/gost/gosthash.c"; G8 = "dstulib/gost/gost89.c"

prop("P01", "Digest equals DSTU GOST 34.311-95 for every message and every chunking",
 "For every message, however it is cut into updates (including empty ones), the digest obtained through the engine is the 32-byte GOST 34.311-95 value computed with the substitution table in force. The table in force is the Ukrainian default unless a 64-byte packed table was set on the digest context, and a table of any other size is refused without changing the context.",
 ["inputs"], "all messages (0 bytes to beyond 2^32 bits), all partitions into updates, all 64-byte substitution tables",
 "The tests hash three short strings in one call with the default table; carries in the checksum, length encoding, buffered remainders and other tables are never exercised.",
 ["engine/md.c", GH, G8, "dstulib/params.c"],
 [("hash step, checksum and length finalisation", GH + " hash_step/hash_block/finish_hash"), ("digest callbacks and table control", "engine/md.c dstu_md_*"), ("table packing", "dstulib/params.c unpack_sbox")],
 observe_at="EVP_Digest* results")

prop("P02", "Digest contexts are isolated, copyable and reusable; HMAC and PBKDF2 agree",
 "In every interleaving of init, update, copy, reset, table setting and finalisation over several digest contexts, each context's result is the digest of exactly its own history: a copy carries the state and table of its source and then evolves independently, and re-initialising starts afresh with the default table. HMAC and PBKDF2 computed with this digest equal the RFC 2104 and RFC 8018 constructions over it.",
 ["histories", "inputs"], "all operation sequences over up to five contexts; all HMAC keys/messages and PBKDF2 passwords, salts, iteration counts, lengths",
 "Tests never copy, reuse or interleave digest contexts and never compute an HMAC or a derived key directly.",
 ["engine/md.c", GH, "engine/dstu.c"],
 [("context copy/init/cleanup", "engine/md.c dstu_md_copy, dstu_md_init, dstu_md_cleanup"), ("PRF registration", "engine/dstu.c dstu_bind")],
 state="hash context incl. embedded cipher context", observe_at="EVP_MD_CTX_*, HMAC*, PKCS5_PBKDF2_HMAC")

prop("P03", "Cipher equals GOST 28147 CFB for every key, IV, table, length and chunking",
 "For every key, IV, substitution table, data length and partition into updates (including empty updates and in-place operation), encryption through the engine yields exactly the GOST 28147 64-bit cipher-feedback ciphertext of the same length, and decryption with the same parameters restores the plaintext. The result does not depend on the random values the library draws internally.",
 ["inputs"], "all keys, IVs, tables, plaintexts and partitions; both directions; separate and shared buffers",
 "Tests encrypt three strings in one update with one key; partial blocks carried across updates, in-place operation and non-default tables are not exercised.",
 ["engine/cipher.c", G8, "dstulib/params.c"],
 [("partial-block handling", "engine/cipher.c dstu_cipher_do_cipher"), ("CFB block loops and round function", G8 + " gost_enc_cfb/gost_dec_cfb/gostcrypt"), ("key masking", G8 + " gost_key")],
 observe_at="EVP_Cipher* output")

prop("P04", "Cipher context histories, parameter export/import and CMS/PBE flows agree",
 "In every history of (re)initialisation with key and/or IV, table setting, context copy, data processing and parameter export or import, the context behaves as the pair (key, IV, table) it was last given: supplying key or IV restarts the stream from the current IV, supplying both also returns to the default table, exported parameters reproduce IV and table in any other context no matter whether the key is supplied before or after importing them, and parameters that are not a sequence of an 8-byte IV and a 64-byte table are refused. Content encrypted to a CMS or password-based structure with this cipher decrypts back to itself for every length.",
 ["histories", "inputs"], "all sequences of init/key/iv/table/copy/export/import/update over several contexts; all CMS EncryptedData and PBES2 payload lengths",
 "Tests use one context once with key and IV given together and never export, import, copy or re-initialise.",
 ["engine/cipher.c", "dstulib/params.c"],
 [("initialisation", "engine/cipher.c dstu_cipher_init"), ("parameter export/import", "engine/cipher.c dstu_cipher_set_asn1_parameters / dstu_cipher_get_asn1_parameters"), ("table control", "engine/cipher.c dstu_cipher_ctrl"), ("table recovery", "dstulib/params.c dstu_get_sbox/pack_sbox")],
 state="EVP_CIPHER_CTX: iv, original iv, keystream buffer, offset; cipher data", observe_at="EVP_CIPHER_CTX, EVP_CIPHER_param_to_asn1/asn1_to_param, CMS_EncryptedData_*, PKCS8_encrypt")

prop("P05", "Every signature produced is a valid, canonically encoded DSTU 4145 signature",
 "For every private key on every supported curve, both byte orders and every byte string to be signed, signing terminates and, unless the random source fails, yields a DER octet string of exactly the advertised size whose two components are non-zero, in range and satisfy the DSTU 4145-2002 verification equation for the matching public key. If the random source fails or the buffer is too small, signing reports failure without writing past the buffer. Every signature uses a secret number of its own, freshly drawn from the whole range [1, n-1].",
 ["inputs", "fault_sequences"], "all keys/curves/byte orders, all tbs strings (any length, all-zero, zero in the field's bits), all random streams incl. failing ones",
 "Tests sign one six-byte string with two keys and check it only with the engine's own verifier.",
 ["engine/sign.c", "engine/pmeth.c", "engine/ameth.c"],
 [("signing loop and hash-to-field", "engine/sign.c dstu_do_sign, hash_to_field"), ("encoding and size", "engine/pmeth.c dstu_pkey_sign, engine/ameth.c dstu_asn1_pkey_size")],
 observe_at="EVP_PKEY_sign / EVP_DigestSign output")

prop("P06", "Verification accepts exactly the signatures that satisfy the DSTU 4145 equation",
 "For every public key, message and candidate signature, verification succeeds if and only if the signature is an octet string (DER-wrapped or bare) of even length, at least twice the order's byte size, whose two halves are in [1, n-1] and satisfy the DSTU 4145-2002 equation. In particular any change to the message, to the key or to either component, and any zero or out-of-range component, is rejected, and no candidate makes verification crash.",
 ["inputs"], "all keys, messages and candidate signature strings, including every small mutation of valid ones",
 "Tests only verify genuine signatures; no forged, truncated, padded, out-of-range or wrong-endian signature is ever tried.",
 ["engine/sign.c", "engine/pmeth.c"],
 [("verification equation and range checks", "engine/sign.c dstu_do_verify"), ("signature parsing and byte order", "engine/pmeth.c dstu_pkey_verify")],
 observe_at="EVP_PKEY_verify / EVP_DigestVerify return value")

prop("P07", "A key's substitution table and byte order govern sign and verify end to end",
 "Signing and verifying a message through a key hashes it with the substitution table that key carries (the default if none), so that a signature made in one call or in any chunking verifies under the public half with the same table and only there. Little-endian keys produce the byte-reversed form of what the big-endian key type produces for the same secret, message and randomness.",
 ["inputs", "configurations"], "all keys (curve, table, byte order, generated or decoded), messages, chunkings; CMS/PKCS#7 signed data with and without attributes and any tampering of them (PKCS#7 attributes: keys with the default table, because OpenSSL hashes those without the key when it verifies)",
 "Tests use only default-table keys and single-shot digests.",
 ["engine/md.c", "engine/pmeth.c", "engine/ameth.c"],
 [("table selection from the key", "engine/md.c dstu_md_init"), ("byte order", "engine/pmeth.c dstu_pkey_sign/dstu_pkey_verify"), ("CMS/PKCS7 algorithm identifiers", "engine/ameth.c dstu_asn1_pkey_ctrl")],
 observe_at="EVP_DigestSign*/EVP_DigestVerify*, CMS_sign/CMS_verify, PKCS7_sign/PKCS7_verify")

prop("P08", "Key generation honours its settings and yields a correct key pair",
 "Every generated key lies on the curve and carries the table last successfully set on the generation context (default 257-bit curve and default table otherwise), its secret is drawn anew from the whole range [1, n-1], and its public point is the negated secret multiple of the base point. Unknown curve names, wrong-size or malformed tables and missing values are refused and leave earlier settings in force, and a copied context generates under the same settings independently of its source.",
 ["histories", "inputs", "fault_sequences"], "all sequences of curve/table settings (string and binary form, valid and invalid), context copies and random streams incl. failing ones",
 "No test generates a key at all.",
 ["engine/pmeth.c", "dstulib/params.c", "dstulib/key.c"],
 [("generation", "dstulib/params.c dstu_generate_key, dstu_add_public_key"), ("settings", "engine/pmeth.c dstu_pkey_ctrl, dstu_pkey_ctrl_str, dstu_pkey_keygen"), ("context copy", "dstulib/key.c DSTU_KEY_CTX_copy")],
 observe_at="EVP_PKEY_keygen result")

prop("P09", "Public keys survive serialisation and compare correctly",
 "For every public key (named or custom curve, any table, either byte order) encoding to SubjectPublicKeyInfo yields the documented DSTU structure byte for byte, decoding it gives back an equal key, and re-encoding gives identical bytes. Two keys compare equal exactly when type, curve, table (an absent table meaning the default one) and public point are equal, whatever route they were obtained by, and comparing incomplete keys never crashes.",
 ["inputs"], "all curves (ten named, custom over trinomial and pentanomial fields), tables, points and byte orders; all pairs of keys",
 "Tests only check that one public key serialises to something non-empty.",
 ["engine/ameth.c", "dstulib/key.c", "dstulib/asn1.c", "dstulib/compress.c"],
 [("encode/decode", "engine/ameth.c dstu_asn1_pub_encode/dstu_asn1_pub_decode"), ("parameters", "dstulib/key.c asn1_from_key/key_from_asn1"), ("comparison", "engine/ameth.c dstu_asn1_param_cmp/dstu_asn1_pub_cmp")],
 observe_at="i2d_PUBKEY/d2i_PUBKEY, EVP_PKEY_eq")

prop("P10", "Private keys survive PKCS#8 serialisation, also under password encryption",
 "For every private key (any curve, table, byte order and secret, including secrets with leading zero bytes) PKCS#8 encoding yields the documented structure, and decoding restores secret, curve and table and recomputes the matching public key. The same holds through PEM and through password-based encryption with this engine's cipher and digest for every password, while a wrong password never recovers the key.",
 ["inputs"], "all keys and passwords, plain and encrypted containers",
 "Tests read two fixed private keys and check that one serialises to something non-empty.",
 ["engine/ameth.c", "dstulib/key.c", "dstulib/params.c", "engine/cipher.c"],
 [("encode/decode", "engine/ameth.c dstu_asn1_priv_encode/dstu_asn1_priv_decode"), ("public key derivation", "dstulib/params.c dstu_add_public_key"), ("PBE cipher and PRF", "engine/cipher.c dstu_cipher_ctrl, engine/dstu.c dstu_bind")],
 observe_at="i2d_PrivateKey/EVP_PKCS82PKEY/PKCS8_encrypt")

prop("P11", "Named and custom curves: right domain parameters, canonical encoding",
 "Each of the ten named curves has exactly the field, coefficients, base point and order of the DSTU 4145-2002 table, and a key whose explicit parameters equal a named curve is encoded by name while any other binary curve with coefficient a in {0,1} is encoded explicitly with the right polynomial, coefficient, order and compressed base point in the key type's byte order. Decoding explicit or named parameters in either byte order reproduces the curve, so that keys exchanged in both forms interoperate.",
 ["inputs", "configurations"], "all ten names, all custom curves over trinomial/pentanomial fields, both byte orders, all tables",
 "Tests touch two curves through fixed key files and never encode a custom curve.",
 ["dstulib/params.c", "dstulib/key.c", "dstulib/asn1.c"],
 [("curve tables", "dstulib/params.c dstu_curves, group_from_named_curve, curve_nid_from_group"), ("explicit parameters", "dstulib/key.c asn1_from_key/group_from_asn1")],
 observe_at="EVP_PKEY parameters, i2d_PUBKEY, i2d_KeyParams")

prop("P12", "Point compression is lossless and decompression never leaves the curve",
 "For every point in the prime-order subgroup of a supported curve (except one whose compressed form would be all zeros, which the format reserves), compressing and expanding returns the same point, and the compressed form is the x-coordinate with its lowest bit replaced by the trace of y/x as DSTU 4145-2002 prescribes. Expanding any byte string either fails or gives a point that satisfies the curve equation and agrees with that rule.",
 ["inputs"], "all points incl. x with leading zeros and the point with x=0, all candidate encodings of any length, both byte orders",
 "Tests expand the two or three points stored in fixture keys.",
 ["dstulib/compress.c", "engine/ameth.c"],
 [("compress/expand", "dstulib/compress.c dstu_point_compress/dstu_point_expand"), ("callers", "engine/ameth.c dstu_asn1_pub_encode/dstu_asn1_pub_decode")],
 observe_at="i2d_PUBKEY/d2i_PUBKEY")

prop("P13", "Malformed key and parameter encodings are rejected cleanly",
 "Any byte string offered as a public key, private key, key parameters or cipher parameters of the engine's algorithms is either decoded into a key that can be re-encoded, compared, printed, used and freed, or rejected with a failure return. Decoding never reads or writes outside its input, crashes or hangs, and a rejected input leaves no half-built key behind.",
 ["inputs"], "all byte strings; structure-aware mutations of valid encodings, including absurd field sizes, polynomials and lengths",
 "Tests decode only well-formed fixtures.",
 ["engine/ameth.c", "dstulib/key.c", "dstulib/compress.c", "engine/cipher.c"],
 [("decoders", "engine/ameth.c *_decode, dstulib/key.c group_from_asn1/key_from_asn1"), ("cipher parameters", "engine/cipher.c dstu_cipher_get_asn1_parameters")],
 observe_at="d2i_* return values under AddressSanitizer")

prop("P14", "Java key stores: every entry is read, intact and in order",
 "From every well-formed Java key store (any number and order of private-key and trusted-certificate entries, any aliases, certificate chains, non-ASCII passwords) opened with the right passwords, the reader returns success and a store holding exactly the contained private keys, including the second key an entry may carry in its attributes, and certificates, each equal to the original and in file order. A store that holds something the reader does not understand (another file type or version, an entry of unknown kind, a key protected in another way, a value that is no key or certificate) is refused, never read in part.",
 ["inputs"], "all well-formed stores generated from the format's grammar, all storage/key password pairs",
 "One fixture with one entry shape is tested.",
 ["keylib/jks.c", "keylib/utils.c", "keylib/keystore.c"],
 [("entry parsing", "keylib/jks.c parseEntry/parseKey/parseCert"), ("key protector", "keylib/jks.c fromKeyProtector, toUTF16BE"), ("store growth", "keylib/keystore.c KeyStoreAppend"), ("attribute keys", "keylib/utils.c pkeyFromAttributes")],
 observe_at="parseJKS result, KeyStore accessors")

prop("P15", "Java key stores: tampering and wrong passwords are always detected",
 "A Java key store in which any byte covered by the store digest was changed, that was truncated, or that is opened with a wrong store password is rejected, and so is one containing a key entry opened with a wrong key password. A rejected store yields failure and no key material.",
 ["inputs"], "all single- and multi-byte modifications and truncations of generated stores, all wrong passwords",
 "No negative case is tested.",
 ["keylib/jks.c"],
 [("store digest", "keylib/jks.c whiteHash, parseJKS"), ("key digest", "keylib/jks.c fromKeyProtector")],
 observe_at="parseJKS return value")

prop("P16", "IIT Key-6 containers yield exactly the keys they hold",
 "From every well-formed Key-6 container opened with its password the reader returns the contained private key and, when the key's attributes carry a second one, that key too, each with the right secret, curve and public point, for every password, payload length and split between data and pad. With another password or container type, or when the decrypted payload is not a private key, it reports failure and no key material, and the outcome depends on nothing but the arguments.",
 ["inputs"], "all generated containers (payload lengths, pad splits, curves, attribute keys) and passwords",
 "One fixture with one password is tested.",
 ["keylib/key6.c", "keylib/utils.c", "keylib/iit_asn1.c"],
 [("key derivation and decryption", "keylib/key6.c pkdf/decryptKey6"), ("attribute keys", "keylib/utils.c makePKey/getPrivateKeyNum/makeECGROUP")],
 observe_at="parseKey6 result, KeyStore accessors")

prop("P17", "PKCS#12 containers yield exactly their keys and certificates, or fail",
 "From every well-formed PKCS#12 container (plain and shrouded keys, certificates, nested and encrypted safes, DSTU or standard encryption and MAC) opened with its password, the reader returns exactly the contained keys and certificates in order. A modified MAC-protected content, a missing or modified MAC, a wrong password or an unreadable bag makes it fail without handing out a store.",
 ["inputs"], "all bag trees, encryptions and MACs the library can build, all passwords, all modifications of the protected content",
 "One fixture is tested, positive case only.",
 ["keylib/pkcs12.c", "keylib/keystore.c"],
 [("counting and extraction", "keylib/pkcs12.c countKeysCerts*/fromBag*/fromSafes"), ("MAC check", "keylib/pkcs12.c parsePKCS12")],
 observe_at="parsePKCS12 result, KeyStore accessors")

prop("P18", "Container readers survive arbitrary bytes",
 "Given any byte string, of any length including zero, and any passwords, each container reader either succeeds with a usable store or returns failure; it never reads outside the input, crashes, hangs, or leaves the caller's store pointer referring to released memory.",
 ["inputs"], "all byte strings; mutations and truncations of valid containers with and without repaired integrity values",
 "Tests feed only well-formed fixtures.",
 ["keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c", "keylib/utils.c"],
 [("parsers", "keylib/jks.c parseJKS, keylib/key6.c parseKey6, keylib/pkcs12.c parsePKCS12"), ("attribute decoding", "keylib/utils.c")],
 observe_at="parse* return value and store pointer under AddressSanitizer")

prop("P19", "Memory, file and stream readers agree, whatever way the stream delivers",
 "For every container and every way a file or stream delivers its bytes (any chunking, any size relative to the internal buffer, positioned at the container's start), the file and stream readers give the same outcome and contents as parsing the same bytes from memory, and leave the caller's file or stream open. An empty or immediately failing stream is reported as failure.",
 ["inputs", "schedules"], "all three container kinds, all delivery chunkings and sizes incl. multiples of the buffer size",
 "Tests read each fixture once from an ordinary file.",
 ["keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c"],
 [("stream loops", "readJKS_bio, readKey6_bio, readPKCS12_bio"), ("file wrappers", "readJKS, readKey6, readPKCS12")],
 observe_at="read* results")

prop("P20", "A returned key store is stable, bounded and owns its contents",
 "For every store a reader returns, the reported counts equal the number of entries, each entry below the count is a usable key or certificate that stays the same on every access, and any position at or beyond the count yields nothing. Entries the caller has taken a reference to stay valid after the store is freed, freeing releases everything else, and several stores alive at once do not affect each other.",
 ["histories"], "all interleavings of opening, accessing (any position), referencing and freeing several stores",
 "Tests open a store, use each key once and free it.",
 ["keylib/keystore.c", "keylib/keystore.h"],
 [("store", "keylib/keystore.c")],
 observe_at="KeyStore* accessors under AddressSanitizer and an allocation counter")

prop("P21", "The random bit generator emits exactly the DSTU 4145 bit stream",
 "After being seeded from the platform generator, the engine's random source emits exactly the DSTU 4145-2002 Annex A bit stream determined by that seed and the seeding time, no matter how requests are sized, so that any sequence of requests of any lengths yields consecutive pieces of one stream. If seeding fails, requests report failure; after cleanup the next request seeds afresh.",
 ["histories", "fault_sequences", "inputs"], "all seeds, times, request-length sequences, seeding failures, and cleanup points",
 "No test requests random bytes from the engine directly.",
 ["engine/rbg.c", G8],
 [("generator", "engine/rbg.c dstu_rbg_get_bit, dstu_rbg_bytes"), ("seeding", "engine/rbg.c dstu_rbg_init, dstu_rbg_status")],
 state="I, s, cipher, initialized flag", observe_at="ENGINE_get_RAND method")

prop("P22", "Concurrent random requests never share or corrupt output",
 "When any number of threads request random bytes from the engine at the same time, including the very first requests, every request receives its own consecutive piece of the single generator stream: no piece is delivered twice, none is torn or skipped, and no data race occurs.",
 ["schedules"], "all thread counts, request lengths and interleavings, including the seeding race",
 "The tests are single-threaded.",
 ["engine/rbg.c"],
 [("lock", "engine/rbg.c dstu_lock/dstu_unlock, dstu_rbg_bytes")],
 state="generator state", observe_at="ENGINE_get_RAND method from several threads, ThreadSanitizer")

prop("P23", "The engine works through every load/init/finish/unload history",
 "In every history of loading the engine, taking and releasing functional and structural references, making it default, and unloading and loading it again, every digest, cipher, signature and key operation issued while the engine is initialised gives the correct result, and no operation of the history touches released memory.",
 ["histories"], "all sequences of engine lifecycle calls with algorithm use in between; one instance of the module at a time (OpenSSL refuses a second one); an engine is unloaded by ENGINE_unregister_*, leaving OpenSSL's list, ENGINE_finish and ENGINE_free, or by OpenSSL's own clean-up",
 "Tests load and initialise the engine once and finish it at the end.",
 ["engine/dstu.c", "engine/err.c"],
 [("bind/init/finish", "engine/dstu.c dstu_bind, dstu_engine_finish"), ("lazy method tables", "engine/dstu.c *_get")],
 state="static method pointers", observe_at="ENGINE_* and EVP results under AddressSanitizer")

prop("P24", "GOST 28147 block primitives, key handling and MAC follow the standard",
 "For every key, substitution table and data, the library's block encryption equals the GOST 28147 32-round cipher, block decryption is its inverse, multi-block electronic-codebook and feedback helpers agree with the single-block ones, key setting and reading are inverse, key meshing derives the RFC 4357 key and IV, and the message authentication code of any requested bit length is the standard's 16-round value truncated to that many bits. Packing and unpacking substitution tables are inverse for every table.",
 ["inputs"], "all keys, tables, data lengths, MAC lengths, IVs",
 "Tests reach these routines only through three short CFB messages and hashes.",
 [G8, "dstulib/params.c"],
 [("block cipher and MAC", G8 + " gostcrypt/gostdecrypt/mac_block/gost_mac/get_mac"), ("keys", G8 + " gost_key/gost_get_key/magma_key"), ("tables", "dstulib/params.c pack_sbox/unpack_sbox/dstu_get_sbox")],
 observe_at="exported library functions")

prop("P25", "No operation leaks: repeated use does not grow memory",
 "Repeating any operation of the engine or the container library, successful or failing (bad input, wrong password, incomplete key, failing random source), and releasing what it returned brings the number of live allocations back to where it was.",
 ["histories", "inputs", "fault_sequences"], "all operations and inputs of the other properties, including every error path they reach",
 "Tests do not observe memory.",
 ["engine/ameth.c", "engine/pmeth.c", "keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c", "keylib/utils.c", "dstulib/key.c"],
 [("cleanup paths", "every err: label and early return in the listed files")],
 observe_at="live allocation counter installed with CRYPTO_set_mem_functions")

prop("P26", "Concurrent use of separate keys and contexts equals sequential use",
 "When several threads hash, encrypt, sign, verify, generate and serialise keys and open containers at the same time, each on its own contexts and possibly sharing read-only keys, every result is the one the same calls give when run alone, and no data race occurs in the library's code.",
 ["schedules"], "all mixes of operations over 2-8 threads and their interleavings",
 "The tests are single-threaded.",
 ["engine/dstu.c", "engine/cipher.c", "engine/md.c", "engine/sign.c", "keylib/jks.c"],
 [("shared static state", "engine/dstu.c method pointers, dstulib/params.c tables")],
 observe_at="operation results, ThreadSanitizer")

prop("P27", "Running out of memory is reported, never a crash or a wrong result",
 "When an allocation fails inside hashing, encrypting, signing, verifying, generating, loading, saving, printing or comparing keys, opening a container, taking random bytes or loading the engine, the operation reports failure or gives a result equivalent to its usual one: it does not crash, accept a bad signature or hand out a partial store. Objects already in use then work as before, nothing stays allocated, and no trace of an engine whose loading failed is left.",
 ["fault_sequences", "inputs"], "every allocation of every operation, alone or with all that follow it",
 "No test makes an allocation fail.",
 ["keylib/jks.c", "keylib/keystore.c", "keylib/utils.c", "dstulib/key.c", "dstulib/compress.c", "engine/ameth.c", "engine/pmeth.c", "engine/sign.c", "engine/rbg.c", "engine/dstu.c"],
 [("allocation results checked", "every OPENSSL_malloc, *_new and BN/EC call"), ("failed binding undone", "engine/dstu.c dstu_bind")],
 observe_at="return codes, results, live allocations, OpenSSL's engine and name tables")

prop("P28", "The engine offers exactly its algorithms, refuses the rest and says why",
 "The engine lists, and answers yes for, exactly its digest, its cipher in CFB mode and its two key types, under their names and with the sizes of the standards; for every other algorithm it answers no, so others' algorithms stay what they are. Controls a context does not define, controls with wrong values, digests other than DSTU 34311 for signing and unknown engine commands are refused and change no later result. A key on a prime-field curve never signs, verifies anything or gets an encoding. Refused parameters, digests, private encodings and fields leave an error of the library \"dstu\" that has a text.",
 ["inputs", "histories"], "all algorithm numbers, control numbers with any argument, contexts at any point of their work, prime-field curves and signatures made up for them",
 "Tests ask only for the engine's own algorithms and use only defined controls.",
 ["engine/dstu.c", "engine/cipher.c", "engine/md.c", "engine/pmeth.c", "engine/sign.c", "engine/ameth.c", "engine/err.c"],
 [("foreign algorithms", "engine/dstu.c dstu_digests, dstu_ciphers, dstu_pkey_meths, dstu_asn1_meths"), ("unknown controls", "dstu_cipher_ctrl, dstu_md_ctrl, dstu_pkey_ctrl, dstu_pkey_ctrl_str"), ("binary fields only", "engine/sign.c dstu_do_sign, dstu_do_verify"), ("errors", "engine/err.c")],
 observe_at="ENGINE and EVP answers, results after a refusal, OpenSSL's error queue")

prop("P29", "The openssl utility with the engine gives the standards' results",
 "With `-engine dstu` or a configuration file that loads it, the openssl utility's dgst (hash, HMAC, sign, verify), enc, genpkey, pkey, pkeyutl, pkcs8, cms, smime, pkcs12, rand and engine commands succeed on valid input and give what the standards say: the digests, cipher texts, keys and encodings of the reference model, signatures that verify by it, texts that come back. A changed signature, content or password makes the command fail. No run crashes or hangs, at its end neither, and what one process writes another, and the container library, reads.",
 ["inputs", "histories"], "contents up to 70 KB, keys of all named and generated curves and tables in both byte orders, passwords up to 70 characters, both ways of loading the engine, the order of options",
 "Tests call the library inside one process; they never run the utility the README describes, so what it does at its start, end and between commands is not seen.",
 ["engine/dstu.c", "engine/rbg.c", "engine/md.c", "engine/cipher.c", "engine/pmeth.c", "engine/ameth.c", "dstulib/key.c", "keylib/pkcs12.c"],
 [("loading", "engine/dstu.c dstu_bind, dstu_engine_finish"), ("option strings", "engine/pmeth.c dstu_pkey_ctrl_str"), ("encodings", "engine/ameth.c"), ("as the default generator", "engine/rbg.c"), ("parameters", "engine/cipher.c, engine/ameth.c")],
 observe_at="exit status, files and output of the openssl utility")

prop("P30", "Forked processes never share random output, nonces or keys",
 "After a fork, parent and children (at any depth, in any order) never receive the same random bytes from the engine's generator, asked directly or as OpenSSL's default: none of their streams repeats a piece of another's, no two make the same signature of the same value and none generates another's key. The parent's stream goes on unbroken. A child seeds itself afresh from the platform generator before its first bytes, and when it cannot, its requests fail.",
 ["histories", "fault_sequences"], "process trees up to four deep, requests, signatures, generations, cleanups and seeding failures at any point before and after each fork",
 "The tests run in one process and never fork.",
 ["engine/rbg.c"],
 [("seeded per process", "engine/rbg.c dstu_rbg_check_fork, dstu_rbg_init, dstu_rbg_bytes")],
 observe_at="ENGINE_get_RAND method, RAND_bytes, signatures and keys of several processes")

prop("P31", "Operations leave their inputs, keys and stores as they were",
 "Hashing, encryption into another buffer, signing, verifying, loading, saving, protecting, printing, comparing, setting tables and curves, opening containers, seeding and the block primitives never write to what they are given to read (messages, digests, signatures, keys, vectors, tables, passwords, encodings) and never read beyond its stated end. Every key and store that any operation used, good or refused, encodes, compares and works afterwards exactly as before.",
 ["histories", "inputs"], "histories of up to eight operations over up to three keys and three stores; inputs of any content at the very end of readable, unwritable memory",
 "Tests pass writable buffers they do not look at again and use each key for one thing.",
 ["engine/sign.c", "engine/pmeth.c", "engine/ameth.c", "engine/cipher.c", "engine/md.c", "dstulib/key.c", "dstulib/gost/gost89.c", "keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c"],
 [("read-only use of keys", "engine/sign.c dstu_do_sign, dstu_do_verify; engine/ameth.c encoders"), ("read-only use of inputs", "every const parameter")],
 observe_at="memory protection faults, encodings of keys and stores after each operation")

prop("P32", "Secrets are wiped before their memory is given back",
 "Loading, saving, protecting, generating and comparing private keys, signing, encryption, keyed hashing and opening containers (good, damaged, or with wrong passwords) never hand memory back to the allocator with a piece of a secret in it: the secret number of a key, the nonce of a signature, a cipher or HMAC key, a hashed message, a password in any form, a decrypted key structure. Cleaning up the random generator leaves neither its seed nor its state in the engine's memory.",
 ["inputs", "histories"], "operations over random secrets of at least twelve bytes, keys on all curves, containers of the three formats, failures included; memory that OpenSSL 3's own decoders release is not judged",
 "Tests see results, never the memory released on the way.",
 ["engine/ameth.c", "engine/sign.c", "engine/rbg.c", "keylib/jks.c", "keylib/key6.c", "keylib/utils.c", "dstulib/key.c", "dstulib/gost/gost89.c"],
 [("cleansing releases", "OPENSSL_clear_free, BN_clear_free, BN_CTX; engine/rbg.c dstu_rbg_cleanup")],
 observe_at="blocks passed to OpenSSL's allocator (CRYPTO_set_mem_functions), writable segments of dstu.so")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
