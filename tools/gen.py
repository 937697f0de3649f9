#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  The property texts live here."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plan  # noqa: E402

S = "stacks/src/"
IN, HI, CF = "inputs", "histories", "configurations"
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f if not f.startswith("stacks_derive") else f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech]}})


prop("C01", "Clarity values survive encode and decode",
     "Encoding any encodable Clarity value and decoding the bytes gives back a value of the same type with the same content, whether decoded generically or as its own type. The same holds when arbitrary bytes follow the encoding, and for function-argument lists and length-prefixed names.",
     [IN], "every Clarity value: all 15 kinds, any nesting, any content; any trailing bytes",
     "tests round-trip about a dozen fixed values; the guarantee is over all contents, nestings and lengths, including length-field boundaries",
     ["clarity/impl.rs", "clarity/mod.rs", "clarity/macro.rs"],
     [("codec implementation per value kind", S + "clarity/impl.rs"), ("generic decoder", S + "clarity/mod.rs decode_clarity_type")])
prop("C02", "Clarity encoding is the consensus wire format",
     "The encoding of every value is byte for byte the one SIP-005 prescribes: type prefix, 16-byte big-endian integers, 4-byte big-endian lengths and counts, one-byte name lengths, version byte and 20-byte hash of principals, contents in order. The reported length and the (prefixed) hexadecimal text agree with those bytes.",
     [IN], "every encodable Clarity value, argument list and name",
     "tests compare a few literal encodings; a wrong byte order, prefix or length width for other sizes and kinds goes unnoticed",
     ["clarity/impl.rs", "clarity/mod.rs"],
     [("encode per value kind", S + "clarity/impl.rs"), ("hex, hex_prefixed, len, is_empty", S + "clarity/mod.rs Codec")])
prop("C03", "Decoding never panics, aborts or over-allocates",
     "Given any bytes, decoding Clarity values (generic or typed), argument lists, names and transaction payloads returns a value or an error. It never panics, never aborts, and never allocates memory out of proportion to the input.",
     [IN], "every byte string, in particular every truncation of a valid encoding and every value of every length field",
     "tests decode only well-formed inputs; malformed inputs are unboundedly many",
     ["clarity/impl.rs", "clarity/mod.rs", "transaction/payload.rs"],
     [("decoders", S + "clarity/impl.rs"), ("payload decoders", S + "transaction/payload.rs")])
prop("C04", "Only well-formed encodings are accepted",
     "Decoding accepts a byte string exactly when it starts with the encoding of some value (of the requested type, for a typed decode), and then yields that value. Unknown or mismatching type bytes, lengths beyond the input, invalid UTF-8, non-ASCII bytes in ASCII strings and over-long names are rejected.",
     [IN], "every byte string",
     "tests never feed malformed or mistyped bytes to most decoders",
     ["clarity/impl.rs", "clarity/mod.rs"],
     [("type-byte dispatch", S + "clarity/mod.rs decode_clarity_type"), ("length and content checks", S + "clarity/impl.rs")])
prop("C05", "Unencodable content is refused, never mis-encoded",
     "Encoding a value that has no wire form fails with an error: an ASCII string with non-ASCII content, a name longer than 128 bytes, a principal whose address text is not a valid address. This holds at the top level and anywhere inside containers and argument lists.",
     [IN], "every text, address text and name length, in every container position",
     "tests encode valid content only",
     ["clarity/impl.rs", "crypto/c32.rs"],
     [("encode checks", S + "clarity/impl.rs"), ("address decoding", S + "crypto/c32.rs")])
prop("C06", "Clarity equality means same encoding",
     "Two Clarity values compare equal exactly when they are of the same kind and have the same content, that is, when their encodings are equal.",
     [IN], "every pair of values, of the same or different kinds",
     "tests compare a value with an equal copy; inequality of near-equal pairs is never exercised",
     ["clarity/impl.rs", "clarity/macro.rs", "clarity/mod.rs"],
     [("equality of values", S + "clarity/macro.rs and clarity/impl.rs")])
prop("C07", "Tuples behave as maps from names to values",
     "After any sequence of insertions, replacements, removals and in-place updates, looking up a name in a tuple gives the value most recently stored under it, or nothing if it was removed or never stored. Keys and values enumerate exactly the stored entries in the order in which they were added, and other entries are never affected.",
     [IN, HI], "every sequence of operations, keys and values",
     "tests perform one fixed sequence; overwriting, removal and order effects are unexplored",
     ["clarity/impl.rs"],
     [("get, get_mut, insert, remove, keys, values", S + "clarity/impl.rs impl Tuple")])
prop("C08", "Casting yields the content of exactly the right type",
     "Casting a type-erased Clarity value to a concrete type succeeds exactly when the value is of that type, and then yields its content unchanged; otherwise it fails with an error. Constructors, the clarity! macro, accessors and clones preserve content, and list and argument iterators yield every element in order.",
     [IN], "every pair of value and requested type",
     "tests cast a few matching pairs; there are 225 pairs and any content",
     ["clarity/mod.rs", "clarity/macro.rs", "clarity/impl.rs"],
     [("Cast implementation", S + "clarity/macro.rs"), ("accessors", S + "clarity/macro.rs")])
prop("C09", "Values render as Clarity literals",
     "The text of a Clarity value is its Clarity literal: decimal integers with u for unsigned, 0x and lower-case hexadecimal for buffers, quoted strings, ok/err/some/none, list and tuple forms with their elements in order.",
     [IN], "every value",
     "tests check a few literal strings; nested forms, extreme integers and odd contents are not covered",
     ["clarity/impl.rs"],
     [("Display per value kind", S + "clarity/impl.rs")])
prop("C10", "c32 encoding round-trips",
     "Decoding the c32 encoding of any bytes gives the same bytes back, including leading zero bytes, and encoding the decoding of any canonical c32 text gives that text. The text uses only the c32 alphabet.",
     [IN], "every byte string and every canonical text",
     "tests use a few fixed or random vectors; carry, padding and leading-zero cases depend on the length modulo 5 and the content",
     ["crypto/c32.rs"],
     [("c32_encode, c32_decode", S + "crypto/c32.rs")])
prop("C11", "c32 decoding accepts only c32 text",
     "Decoding accepts a text exactly when every character is in the c32 alphabet after folding case and the look-alikes O, L and I, and reads it as the base-32 number it denotes. Any other text, ASCII or not, is an error.",
     [IN], "every text",
     "tests decode valid text only; look-alikes, case and non-ASCII input are not covered",
     ["crypto/c32.rs"],
     [("c32_decode, normalisation", S + "crypto/c32.rs")])
prop("C12", "c32check texts and addresses are checksummed exactly",
     "A c32check text or address built from a version and payload decodes to exactly that version and payload. A text is accepted only if its checksum is that of its version and payload, and an address only if it starts with S, has a known version and a 20-byte hash; everything else is an error and never a panic.",
     [IN], "every payload, version, 20-byte hash and text",
     "tests use a few fixed addresses; the guarantee is over every hash (leading zeros change the text length) and every corrupt text",
     ["crypto/c32.rs", "crypto/hash.rs"],
     [("c32check_encode, c32check_decode, c32_address, c32_address_decode", S + "crypto/c32.rs"), ("checksum", S + "crypto/hash.rs")])
prop("C13", "base58 encoding is exact and total",
     "base58 encoding of any bytes is the base-58 numeral of those bytes with one leading 1 per leading zero byte, and decoding inverts it. Decoding any text with a character outside the alphabet is an error, never a panic.",
     [IN], "every byte string and every text",
     "tests use a few vectors; leading zeros, all-zero input and non-ASCII text are not covered",
     ["crypto/b58.rs"],
     [("b58_encode, b58_decode", S + "crypto/b58.rs")])
prop("C14", "base58check texts are checksummed exactly",
     "A base58check text built from a version and payload decodes to exactly that version and payload, with the first four bytes of the double SHA-256 as checksum. A text whose checksum does not match, or that is too short to have one, is an error, never a panic.",
     [IN], "every version, payload and text",
     "tests check a few addresses; corrupt and short texts are not covered",
     ["crypto/b58.rs", "crypto/hash.rs"],
     [("base58check_encode, base58check_decode", S + "crypto/b58.rs")])
prop("C15", "Hexadecimal conversion is exact and total",
     "Bytes convert to two lower-case hexadecimal digits each, and back to the same bytes. Text of odd length or with a non-hexadecimal character is an error, never a panic or a silently different result.",
     [IN], "every byte string and every text",
     "tests convert a few strings; invalid digits at either position and non-ASCII text are not covered",
     ["crypto/hex.rs", "crypto/hash.rs"],
     [("bytes_to_hex, hex_to_bytes, HexIterator", S + "crypto/hex.rs"), ("hex views of digests", S + "crypto/hash.rs")])
prop("C16", "Signer hashes follow the four address modes",
     "The 20-byte signer hash of a key or key set is the one the Bitcoin-style address modes prescribe: hash-160 of the key (P2PKH), of its witness program (P2WPKH), of the m-of-n redeem script with the keys in the given order (P2SH), and of that script's witness program (P2WSH).",
     [IN], "every key, key set and threshold",
     "tests use one key set per mode; order, count and threshold dependence is not covered",
     ["crypto/c32.rs"],
     [("hash_p2pkh, hash_p2wpkh, hash_p2sh, hash_p2wsh", S + "crypto/c32.rs")])
prop("C17", "Transactions serialize in the consensus layout",
     "A transaction encodes as SIP-005 prescribes: version, chain id, authorization (type, then for each spending condition mode, signer hash, nonce, fee and key encoding with signature, or field list and threshold), anchor mode, post-condition mode, post-conditions and payload, all integers big-endian. Its transaction id hash is the SHA-512/256 of those bytes.",
     [IN, CF], "every combination of network, modes, authorization kind, signatures, fees, nonces, post-conditions and payload",
     "tests compare a few complete transactions; most combinations and field values are never serialized",
     ["transaction/base.rs", "transaction/auth.rs"],
     [("Transaction encode, hash", S + "transaction/base.rs"), ("Auth and spending-condition encode", S + "transaction/auth.rs")])
prop("C18", "Payloads serialize exactly and decode back",
     "Token-transfer and contract-call payloads encode in the SIP-005 layout (34-byte zero-padded memo; address, names, arguments), and decoding the bytes gives the same payload. Over-long memos and names are refused, and decoding accepts only bytes that such a payload begins with.",
     [IN], "every recipient, amount, memo, name, argument list and byte string",
     "tests encode a few payloads; memo lengths and multi-byte memos, name limits and malformed payloads are not covered",
     ["transaction/payload.rs"],
     [("TokenTransferPayload, ContractCallPayload, payload dispatch", S + "transaction/payload.rs")])
prop("C19", "Post-conditions serialize what they demand",
     "Each STX, fungible and non-fungible post-condition encodes the given account, condition code, amount or asset exactly as SIP-005 prescribes, and a list encodes its count and every condition in order. An account that is not a valid principal, or an over-long asset name, is refused.",
     [IN], "every kind, account, code, amount, asset and list",
     "tests serialize one or two of each kind; code values, contract accounts and lists are barely covered",
     ["transaction/condition.rs"],
     [("post-condition encode, AssetInfo, PostConditions", S + "transaction/condition.rs")])
prop("C20", "Signatures commit to the chained transaction digest",
     "What is signed is the digest of the transaction with its spending conditions cleared (and the sponsor replaced by the empty one), extended with authorization type, fee and nonce, and chained through every earlier signature. Signing and verifying compute the same chain for every transaction.",
     [IN], "every transaction, key, fee, nonce and number of signers",
     "tests sign fixed transactions with fixed keys",
     ["crypto/hash.rs", "transaction/signer.rs", "transaction/auth.rs"],
     [("SignatureHash next_signature, next_verify", S + "crypto/hash.rs"), ("initial digest", S + "transaction/signer.rs")])
prop("C21", "Correctly signed transactions verify",
     "A transaction signed with the keys of its spending conditions verifies: single- and multi-signature origins with any choice of signing keys, standard or sponsored, with the sponsor signing in the same session or after receiving the transaction.",
     [IN, CF], "every key set, threshold, choice of signers, fee, nonce, payload, and authorization kind",
     "tests verify a few fixed transactions",
     ["transaction/signer.rs", "transaction/auth.rs", "transaction/base.rs"],
     [("sign_origin, sign_sponsor, append_origin", S + "transaction/signer.rs"), ("verify", S + "transaction/auth.rs")])
prop("C22", "Verification rejects what the signers did not sign",
     "Verification of an authorization succeeds only if every signature in it recovers over the digest chain, the keys hash to the account, and the required number of signatures is present, for the origin and the sponsor alike. Any change to a signed transaction leaves it valid only if the signature is also one for the changed content.",
     [IN], "every authorization, signature bytes and digest; every changed field",
     "tests only verify what was correctly signed, never a forgery",
     ["transaction/auth.rs", "crypto/hash.rs"],
     [("verify, verify_origin", S + "transaction/auth.rs"), ("next_verify", S + "crypto/hash.rs")])
prop("C23", "The signer admits only the permitted signing steps",
     "Over any sequence of operations, the signer adds a signature or key only where permitted: no more signatures than required, nothing from the origin after the sponsor signed, no sponsor on a standard transaction, no appended keys on single-signature conditions, and no sponsor session unless the origin verifies. A refused step changes nothing, and an accepted one adds exactly its signature or key.",
     [HI, IN], "every sequence of signing operations on every authorization kind, checks on or off",
     "tests follow the intended sequences only",
     ["transaction/signer.rs"],
     [("TransactionSigner", S + "transaction/signer.rs")])
prop("C24", "Fee, nonce and sponsor changes touch nothing else",
     "Fee, nonce, mode and signature counts read back what was set; setting a fee, nonce, sponsor or signature changes exactly that part of the transaction and no other byte of it. Resetting clears fee, nonce and signatures only, and copies are independent.",
     [IN], "every condition, authorization, transaction and new value",
     "tests set values once on one kind of condition",
     ["transaction/auth.rs", "transaction/base.rs"],
     [("setters, reset, modify", S + "transaction/auth.rs")])
prop("C25", "Builders produce the transaction that was described",
     "A built transfer or contract call carries exactly the given recipient or contract, amount, arguments, sender's account, fee, nonce, modes, post-conditions and the network's version and chain id, with the documented defaults for what is omitted. Invalid addresses and over-long memos surface as errors.",
     [IN, CF], "every network and every combination of builder inputs",
     "tests build a handful of transactions, mostly on one network",
     ["transaction/builder.rs", "transaction/network.rs"],
     [("STXTokenTransfer, STXContractCall", S + "transaction/builder.rs"), ("networks", S + "transaction/network.rs")])
prop("C26", "Wallet accounts are derived deterministically",
     "A wallet of a mnemonic phrase derives account n at m/44'/5757'/0'/0/n with an empty passphrase; its private key, public key and address are those of that derived key. In any order of requests each index gives its own account, the same every time, and underivable input is an error.",
     [IN, HI], "every phrase, index, address version and order of requests",
     "tests check a few accounts of one phrase",
     ["wallet.rs"],
     [("StacksWallet, StacksAccount", S + "wallet.rs")])
prop("C27", "Derived tuple conversion maps each field faithfully",
     "Converting a tuple to a derived struct succeeds exactly when every mandatory field's key is present with a value of the field's type, and then each field holds that value's content (its text, for string fields), whatever the order of entries. A missing or ill-typed mandatory entry is an error; an optional field is empty exactly for none.",
     [IN, CF], "every tuple, for structs over all supported field types",
     "tests convert one well-formed tuple per field type",
     ["stacks_derive/src/from_tuple.rs", "derive.rs"],
     [("code generation per field type", "stacks_derive/src/from_tuple.rs")])
prop("C28", "Digests and signatures convert without loss",
     "Digest constructors hash exactly the given bytes with the named algorithm, their byte, slice and checksum views are those of the digest, and a 65-byte message signature converts to a recoverable signature and back unchanged. Byte strings of the wrong length and invalid recovery ids are errors.",
     [IN], "every input length and content, every signature value",
     "tests hash a few strings",
     ["crypto/hash.rs"],
     [("digest types, MessageSignature", S + "crypto/hash.rs")])
prop("C29", "RPC calls send what was asked and report the reply",
     "Each RPC method makes exactly one request, with the documented method, path under the client's base URL, content type and body: the encoded transaction, the payload's hexadecimal text and the transaction's length, or the sender and the encoded arguments in order. Every field of the response holds the reply's member of that name; a node's refusal is reported as the error response where the method has one, and lost or malformed replies and values that cannot be encoded are errors.",
     [IN, CF], "every base URL, argument, transaction, reply body and reply status",
     "the tests need a live node and see only its well-formed replies",
     ["rpc.rs"],
     [("StacksRPC methods", S + "rpc.rs impl StacksRPC"), ("response types", S + "rpc.rs")])
NA = {}
exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

TECH = "bounded symbolic execution of the compiler's LLVM IR of /repo with an SMT solver (Z3, QF_BV)"
NOTE = ("Every input within the stated bounds, by solver verdict on each path; counterexamples are replayed natively before they are reported. "
        "Trusted: rustc's lowering to LLVM IR, the symbolic executor (cross-checked by re-running sampled paths natively), Z3, the reference written from the specification. "
        "Bounds (quick): ")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        if i in NA:
            continue
        b = plan.PLAN[i]
        note = NOTE + b["bounds"]["quick"] + "."
        if b.get("assumptions"):
            note += " Assumes: " + "; ".join(b["assumptions"]) + "."
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": TECH, "level": "model_checking", "level_note": note, "evidence_file": f"evidence/{i}.json"})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "hooks": {"guard": "none", "enable": "no hooks: the checks use only the public API of the crates", "source_commits": []},
         "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
         "notes": "engine/ is the symbolic executor, harness/ the property harnesses, models/ the stand-ins for the cryptographic crates, real/ the same harnesses with the real crates. Known findings and fixed defects: known-findings.txt."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
