"""Which harnesses decide which property, with what bounds and assumptions.

Per harness: cases = number of disjoint case splits run in parallel (tcases: at
the thorough tier), time/ttime = engine time limit in seconds, reach = labels
that must be reached (guards against vacuous runs), default ["end"]."""
COMMON = [
    "sequential, single-threaded execution on a 64-bit little-endian target; what is executed is rustc's LLVM IR of /repo and the standard library at -O2 with overflow checks on",
    "memory allocation succeeds up to 64 MiB per request; a larger request is reported as a violation",
    "SHA-256, SHA-512/256, RIPEMD-160 are deterministic functions with arbitrary outputs (uninterpreted), constrained only as listed below",
]
SECP = "secp256k1, BIP-32 and BIP-39 are uninterpreted functions: secret keys are exactly the 32-byte strings between 1 and the group order; public keys, point validity, signature validity, recovery and derivation are arbitrary but functional, except that recover(digest, sign(digest, key)) = public(key) and signatures produced by signing are well formed"

def H(cases=1, reach=("end",), **k):
    return dict(cases=cases, reach=list(reach), **k)

VALUES_Q = "leaves with every int/uint value, buffers and ASCII strings of 0-4 arbitrary bytes, every UTF-8 content of 0-4 bytes; every container over every leaf with 0-2 elements; 3 container levels with 0-1 elements; principals with every 20-byte hash, 4 versions and names of 0-3 arbitrary bytes; buffers/strings of 0-40 bytes, 2^k-1..2^k+1 for k = 6-16, 100, 1000, 10000 and 2^20-1..2^20+1 bytes (every byte arbitrary to 300, beyond that the ends, middle and powers of two), lists to 4000 elements and tuples to 300 entries at the same sizes; chains of 1-100 wrappers; names of 0-128 bytes; characters of 2, 3 and 4 bytes in names, tuple keys and texts (to 256 characters, names to the limit); 65535-65536 list elements, tuple entries and arguments; two values of 6 kinds one after another; a value after 1, 40 or 300 refused inputs of 11 kinds; any 2 trailing bytes"
VALUES_T = "as quick, with buffers/strings to 6 bytes, 3 list elements, 4 container levels with up to 2 list elements, sizes to 131073 bytes, 70000 elements, 2000 entries, chains of 200 wrappers"

PLAN = {
    "C01": {
        "bounds": {"quick": VALUES_Q, "thorough": VALUES_T},
        "harnesses": {"h_c01_leaf": H(), "h_c01_nested": H(5), "h_c01_deep": H(), "h_c01_principal": H(4, weight=3), "h_c01_big": H(8), "h_c01_huge": H(9, weight=4), "h_c01_names": H(), "h_c01_wide": H(4), "h_c01_crowd": H(8, weight=6), "h_c01_twice": H(), "h_c01_after": H()},
    },
    "C02": {
        "bounds": {"quick": VALUES_Q, "thorough": VALUES_T},
        "harnesses": {"h_c02_leaf": H(), "h_c02_nested": H(5), "h_c02_deep": H(), "h_c02_principal": H(4, weight=3), "h_c02_big": H(8), "h_c02_huge": H(9, weight=4), "h_c02_names": H(), "h_c02_wide": H(4), "h_c02_crowd": H(8, weight=4), "h_c02_twice": H(), "h_c02_after": H()},
    },
    "C03": {
        "bounds": {"quick": "every byte string of 0-7 bytes through the generic decoder (dispatch on the first byte), of 0-6 bytes through every typed decoder, argument lists and names; principals of 0-26 bytes; every prefix of every encoding of 1-level values; framed inputs whose length fields are arbitrary 32-bit values with up to 5 following bytes; declared lengths to 2^32-1; 30000 nested wrappers",
                   "thorough": "every byte string of 0-9 bytes (typed 0-8), principals 0-29 bytes, framed inputs with 7 following bytes, prefixes of 2-level values"},
        "outside": "inputs whose free part is longer than the bound; see the known finding on nesting depth",
        "harnesses": {"h_c03_any": H(4, ("accepted", "rejected")), "h_c03_principal": H(1, ("accepted", "rejected")), "h_c03_framed": H(4, ("accepted", "rejected")),
                      "h_c03_cut": H(), "h_c03_names": H(4), "h_c03_typed": H(), "h_c03_huge": H(), "h_c03_stack": H(1, ()), "h_c03_payload": H(2, ("accepted", "rejected"))},
    },
    "C04": {
        "bounds": {"quick": "every byte string of 0-6 bytes through the generic decoder and 0-5 through typed decoders, argument lists, names; principals 0-26 bytes; framed inputs with arbitrary 32-bit length fields and up to 5 following bytes; names of 127-130 bytes; a value after 1, 40 or 300 refused inputs of 11 kinds",
                   "thorough": "0-8 bytes generic, 0-6 typed, framed with 7 following bytes"},
        "harnesses": {"h_c04_any": H(4, ("valid", "invalid")), "h_c04_principal": H(1, ("valid", "invalid")), "h_c04_framed": H(8, ("valid", "invalid"), weight=9),
                      "h_c04_typed": H(1, ("same", "other")), "h_c04_names": H(1, ("valid", "invalid")), "h_c04_longnames": H(1, ("valid", "invalid")), "h_c04_args": H(8, ("valid", "invalid"), weight=9), "h_c04_after": H()},
    },
    "C05": {
        "bounds": {"quick": "every UTF-8 text of 0-3 bytes plus one arbitrary byte pattern at any position of 8-byte ASCII strings; names of 129-512 bytes made of characters of 1 to 4 bytes; inside every container kind; addresses with any one arbitrary character replaced",
                   "thorough": "texts to 4 bytes, 16-byte strings, every position of an address"},
        "harnesses": {"h_c05_refused": H(2), "h_c05_name": H()},
    },
    "C06": {
        "bounds": {"quick": "pairs of arbitrary leaves (buffers/strings 0-2 bytes, principals with arbitrary hashes), pairs of 1-level containers with 0-2 elements, pairs of names/texts of 0-2 bytes; values of 10 sizes from 16 to 257 with one arbitrary byte each at 5 positions; texts and principals that cannot be encoded, of 0-2 characters",
                   "thorough": "leaves to 3 bytes, containers over all leaves, texts to 3 bytes"},
        "harnesses": {"h_c06_leaf": H(), "h_c06_container": H(), "h_c06_text": H(), "h_c06_long": H(), "h_c06_unencodable": H()},
    },
    "C07": {
        "bounds": {"quick": "every sequence of 4 operations (set, replace, remove, look-up) with keys drawn from 1-byte arbitrary names and arbitrary integer values; from empty; every sequence of 3 from a tuple of three entries; look-ups in tuples of 0-2 entries; one operation on tuples of 9 sizes from 5 to 65 entries, given or decoded, with names of every length to the limit, and cloned; two names of any content of 0-4 bytes, the empty one included",
                   "thorough": "sequences of 5 (4 from three entries) operations, tuples of 0-3 entries, to 300 entries"},
        "harnesses": {"h_c07_ops": H(1, ("end", "got", "removed", "set")), "h_c07_lookup": H(1, ("got", "absent")), "h_c07_large": H(2), "h_c07_keys": H()},
    },
    "C08": {
        "bounds": {"quick": "every pair (value kind, requested kind) including nested content; every int/uint; buffers and strings of 0-3 bytes; principals with arbitrary hashes; every form of the clarity! macro; lists, arguments, tuples, buffers and texts of 14 sizes from 3 to 1000", "thorough": "buffers to 5 bytes, strings to 4"},
        "harnesses": {"h_c08_cast": H(), "h_c08_values": H(), "h_c08_macro": H(), "h_c08_large": H()},
    },
    "C09": {
        "bounds": {"quick": "every int/uint of 1-digit to 39-digit magnitude class (numbers: boundary classes symbolic), texts of every UTF-8 content of 0-3 bytes, buffers of 0-5 bytes, every container kind one level deep, lists and tuples of 0-300 elements, long texts; two values of 8 kinds in turn", "thorough": "two levels, buffers to 39 bytes, texts to 4 bytes"},
        "harnesses": {"h_c09_number": H(), "h_c09_value": H(), "h_c09_text": H(), "h_c09_long": H(), "h_c09_twice": H()},
    },
    "C10": {
        "bounds": {"quick": "every byte string of 0-9 bytes; lengths 9-32 with 0-2 leading zero bytes and arbitrary content after a first byte >= 64; 0-40, 41, 63-65, 127, 128, 255-257, 300, 512, 1000, 1024, 4096, 70000 leading zero bytes before 0-20 arbitrary bytes; 16 lengths from 48 to 1024; every canonical text of 0-10 characters; two inputs in turn", "thorough": "0-15 bytes, lengths 9-64, texts 0-15"},
        "harnesses": {"h_c10_bytes": H(), "h_c10_long": H(), "h_c10_text": H(), "h_c10_zeros": H(4), "h_c10_large": H(), "h_c10_twice": H()},
    },
    "C11": {
        "bounds": {"quick": "every ASCII text of 0-5 characters, every UTF-8 text of 0-4 bytes; texts of 1-8 alphabet characters in every lower/upper/O/I/L spelling; texts of 12 lengths from 9 to 300 with an arbitrary character at 8 positions; two texts of 0-2 characters in turn", "thorough": "ASCII 0-7, UTF-8 0-5, spellings of 1-12 characters"},
        "harnesses": {"h_c11_ascii": H(1, ("valid", "invalid")), "h_c11_utf8": H(1, ("valid", "invalid")), "h_c11_alias": H(), "h_c11_long": H(1, ("valid", "invalid")), "h_c11_twice": H(1, ("valid", "invalid"))},
    },
    "C12": {
        "bounds": {"quick": "c32check: every payload of 0-4 bytes and every version byte; payloads of 0-40, 48, 64, 65, 100, 128, 255, 256 arbitrary bytes after 0-3 zero bytes with 7 versions; every ASCII text of 0-8 characters; addresses: every version byte with every 20-byte hash; two arbitrary addresses one after another; 3 or 9 addresses all encoded and then all decoded, one of them with two arbitrary bytes; a checksummed address with any one character replaced by any other byte; unknown versions with every 20-byte hash and non-20-byte hashes of 10 lengths after any number of zero bytes; every text of 0-8 ASCII characters or 0-4 UTF-8 bytes", "thorough": "payloads to 7 bytes, 65 addresses, texts to 10 characters / 5 bytes"},
        "assumptions": ["h_c12_tamper: the checksum of the altered payload differs from the written one (collision-freedom of a 4-byte checksum is not claimed)"],
        "harnesses": {"h_c12_check": H(1, ("end", "refused")), "h_c12_sizes": H(2), "h_c12_strict": H(2, ("valid", "invalid")), "h_c12_tamper": H(2, ("address", "check")), "h_c12_utf8": H(),
                      "h_c12_address": H(4, ("end", "refused")), "h_c12_notaddress": H(), "h_c12_text": H(), "h_c12_twice": H(), "h_c12_many": H(2)},
    },
    "C13": {
        "bounds": {"quick": "every byte string of 0-2 bytes and every text of 0-3 ASCII characters / 0-3 UTF-8 bytes / 0-2 alphabet characters against base-58 arithmetic; lengths to 100 with 13 counts of leading zeros (to 40) and one symbolic byte; the texts of 1-156, 500, 1000, 1365 and 2700 characters z; two inputs in turn", "thorough": "one byte / one character more; more values of the symbolic byte"},
        "harnesses": {"h_c13_bytes": H(), "h_c13_long": H(8, weight=3), "h_c13_verylong": H(4), "h_c13_ascii": H(1, ("valid", "invalid")), "h_c13_utf8": H(), "h_c13_text": H(), "h_c13_twice": H()},
    },
    "C14": {
        "bounds": {"quick": "payloads of 0-2 arbitrary bytes with every version >= 64; every base-58 text of 0-7 characters; payload lengths 0,1,19,20,21,32 with 6 versions, 4 contents, 4 checksum values and every single-bit checksum corruption; texts of 0-3 UTF-8 bytes / 0-4 ASCII characters", "thorough": "one byte / one character more"},
        "harnesses": {"h_c14_layout": H(), "h_c14_strict": H(4, ("short", "valid", "bad")), "h_c14_round": H(8, weight=5), "h_c14_total": H()},
    },
    "C15": {
        "bounds": {"quick": "every byte string of 0-39 bytes to hex; round trip for 0-3 bytes; every ASCII text of 0-4 characters and UTF-8 text of 0-4 bytes; every digest/signature value; texts of 20 lengths from 7 to 131074 with an arbitrary character at 6 positions, and round trips of as many bytes; two texts of 0-2 characters in turn", "thorough": "to hex 0-99 bytes; round trip 0-4; ASCII texts 0-6"},
        "harnesses": {"h_c15_bytes": H(), "h_c15_round": H(), "h_c15_text": H(1, ("valid", "invalid")), "h_c15_views": H(), "h_c15_long": H(8, ("valid", "invalid")), "h_c15_twice": H(1, ("valid", "invalid"))},
    },
    "C16": {
        "bounds": {"quick": "key encodings of 12 lengths from 0 to 256 arbitrary bytes; 0-16 arbitrary keys with every threshold 0..n; 17, 20, 21, 32, 64, 100, 128, 175 keys, three arbitrary ones in turn, thresholds 0, 1, n/2, n; two groups one after another", "thorough": "0-30 keys"},
        "assumptions": [SECP],
        "harnesses": {"h_c16_single": H(), "h_c16_multi": H(4), "h_c16_twice": H()},
    },
    "C17": {
        "bounds": {"quick": "single-signer conditions with every key, fee, nonce and signature; multi-signer conditions of 1-3 keys, threshold 0..n, with 0-3 arbitrary key/signature fields, and of 3, 4, 5, 8, 15 and 16 keys with as many fields; 17 counts of fields from 3 to 513; standard and sponsored authorizations over both kinds; whole transactions with every version, chain id, anchor mode, post-condition mode, 0-1 post-conditions and a contract call with arbitrary address and argument", "thorough": "1-4 keys, 0-4 fields, to 32 keys"},
        "assumptions": [SECP],
        "harnesses": {"h_c17_single": H(), "h_c17_multi": H(), "h_c17_many": H(), "h_c17_crowd": H(), "h_c17_auth": H(2), "h_c17_transaction": H(4, weight=3)},
    },
    "C18": {
        "bounds": {"quick": "recipients with any of 4 versions and arbitrary hashes, contract names of 0-2 characters, every amount; memos of 0-3 arbitrary ASCII characters and of every length 0-39 with ASCII, and of 0-39 arbitrary characters of 2, 3 and 4 bytes; names of 0-2 arbitrary characters, of 20 lengths from 0 to 256, and of multi-byte characters around the limit; 0-2 arguments, one of every kind, and 16-257, 65535, 65536 arguments; decoding of calls with arbitrary address and up to 6 arbitrary bytes at names or arguments, of transfers with memo lengths 0,3,33,34,35 and two arbitrary bytes at 3 places, and of every 0-2 bytes", "thorough": "0-3 arguments, one more free byte"},
        "harnesses": {"h_c18_transfer": H(), "h_c18_memo": H(1, ("end", "refused")), "h_c18_call": H(), "h_c18_args": H(4), "h_c18_names": H(1, ("end", "refused")), "h_c18_decode": H(4, ("accepted", "rejected"), weight=3)},
    },
    "C19": {
        "bounds": {"quick": "every kind, condition code, amount and asset (names of 0-2 characters, any hash; asset values uint, buffer, tuple) for standard and contract accounts; tokens named by every kind of leaf, 1-level containers, buffers to 70000 and texts to 600 bytes; lists of 0-3; counts 255, 256, 300, 65535-65537; asset names of length 0,1,128,129,255 and of multi-byte characters around the limit; non-principal and invalid accounts of 8 kinds; every form of the post_condition! macro", "thorough": "lists of 0-4"},
        "harnesses": {"h_c19_one": H(4, weight=3), "h_c19_many": H(), "h_c19_macro": H(), "h_c19_count": H(4), "h_c19_refused": H(), "h_c19_token": H(), "h_c19_asset": H(4, ("end", "refused"))},
    },
    "C20": {
        "bounds": {"quick": "every digest, type byte, fee, nonce, signature and key for one step; initial digest for every authorization kind with up to 1 field; chains of 1-2 origin signatures plus one or two of a sponsor's, all modes; two transactions alike but for one part in turn; payloads of 8 sizes from 300 to 70000 bytes and 8 to 1000 post-conditions", "thorough": "chains of 3 plus the sponsor"},
        "assumptions": [SECP],
        "harnesses": {"h_c20_step": H(), "h_c20_verify_step": H(1, ("accepted", "rejected")), "h_c20_initial": H(4), "h_c20_chain": H(8, weight=3), "h_c20_twice": H(7, weight=2), "h_c20_large": H(4, weight=2)},
    },
    "C21": {
        "bounds": {"quick": "every key, fee, nonce; multi-signature of 1-3 keys, threshold 0..n, every choice of signing keys, both modes; 5 and 8 keys, all, half, alternate, two or the last signing; 16, 17, 20, 64, 100 and 175 keys of which one or two sign; sponsored: single or 1-of-2 origin, single or 2-of-2 sponsor, one or two sessions", "thorough": "1-4 keys; 16 keys of which up to all sign"},
        "assumptions": [SECP, "h_c21_many: fixed secret keys", "one signing session per transaction"],
        "harnesses": {"h_c21_single": H(), "h_c21_multi": H(2), "h_c21_sponsored": H(8, weight=9), "h_c21_many": H(8, weight=8)},
    },
    "C22": {
        "bounds": {"quick": "single conditions with any 65 signature bytes; multi conditions of 1-2 keys with 0-2 arbitrary fields and every threshold; rightly signed conditions of 2-3 keys with one field replaced, dropped, doubled or moved; standard and sponsored authorizations; any digest, three authorization type bytes; a signed call with its fee, nonce, version, chain, anchor, mode or payload changed; two transactions verified in turn; 12 numbers of keys from 3 to 175 of which one or two sign, thresholds met or not; one byte changed in payloads of 300 to 70000 bytes", "thorough": "1-3 keys, 0-3 fields"},
        "assumptions": [SECP, "a multi-signer condition carrying more signatures than it requires is not decided"],
        "harnesses": {"h_c22_single": H(1, ("accepted", "rejected")), "h_c22_multi": H(1, ("accepted", "rejected")), "h_c22_auth": H(1, ("accepted", "rejected")), "h_c22_tamper": H(8, ("accepted", "rejected"), weight=5), "h_c22_changed": H(1, ("accepted", "rejected")), "h_c22_twice": H(4, ("accepted", "rejected")), "h_c22_many": H(8, ("accepted", "rejected")), "h_c22_large": H(1, ("accepted", "rejected"))},
    },
    "C23": {
        "bounds": {"quick": "every history of 3 operations with arbitrary keys (checks on), of 2 operations (each combination of checks off), on single, 1-of-2 and 2-of-2 conditions, standard or sponsored; one operation, or signing without a session, on conditions already carrying an arbitrary signature or 0-1 fields; sponsor sessions over arbitrary origin signatures; conditions already carrying 17 counts of fields from 3 to 513", "thorough": "histories of 4 and 3"},
        "assumptions": [SECP],
        "harnesses": {"h_c23_machine": H(8, ("allowed", "refused", "end"), weight=9), "h_c23_many": H(4, ("allowed", "refused", "end"), weight=5), "h_c23_unchecked": H(4, ("allowed", "refused", "end"), weight=5), "h_c23_resumed": H(8, ("allowed", "refused", "end"), weight=4), "h_c23_sponsor": H(3, ("accepted", "standard", "unsigned", "end"))},
    },
    "C24": {
        "bounds": {"quick": "every fee, nonce and signature, 0-2 fields (conditions) or 0-1 (authorizations, transactions), both kinds, standard and sponsored, every setter; 17 counts of fields from 3 to 513", "thorough": "0-3 fields"},
        "assumptions": [SECP],
        "harnesses": {"h_c24_condition": H(), "h_c24_auth": H(4, weight=3), "h_c24_transaction": H(4), "h_c24_default": H(), "h_c24_many": H()},
    },
    "C25": {
        "bounds": {"quick": "3 networks; every amount, fee, nonce, key, address hash; memos and names of 0-2 characters; 3 anchor modes, 2 post-condition modes, every choice of the optional inputs with 0-2 post-conditions, 0-3 arguments, memos and names of several sizes to the limit; address texts of 0-4 characters and single-character alterations; three builders in turn", "thorough": "texts of 0-5 characters, more altered positions"},
        "assumptions": [SECP],
        "harnesses": {"h_c25_network": H(), "h_c25_transfer": H(), "h_c25_call": H(), "h_c25_sign": H(), "h_c25_refused": H(), "h_c25_mix": H(4), "h_c25_twice": H()},
    },
    "C26": {
        "bounds": {"quick": "every phrase of 0-2 ASCII characters with arbitrary validity and seed; arbitrary derived keys; 204 account indices (0-99, 2^k-1 to 2^k+1, others); phrases of 1, 12, 15, 18, 21, 24 and 25 words with three arbitrary letters; every history of 3 requests, replacements and clones over 4 indices; 4 address versions; three wallets of two arbitrary phrases in turn; wallets of 3 to 1025 accounts", "thorough": "phrases to 3 characters, histories of 5"},
        "outside": "account indices other than the listed ones (the wallet hashes the index into its map)",
        "assumptions": [SECP, "h_c26_address: the key hash's first byte is at least 64 (leading-zero compression is C12's)"],
        "harnesses": {"h_c26_derive": H(1, ("end", "refused", "refused-account")), "h_c26_phrase": H(), "h_c26_address": H(), "h_c26_history": H(4, ("get", "set", "end")), "h_c26_twice": H(4), "h_c26_crowd": H()},
    },
    "C27": {
        "bounds": {"quick": "one-field structs of all twelve supported field types against every value kind (containers one level deep, buffers/strings of 0-2 bytes), with arbitrary entries before and after; a nine-field struct with nested, response and optional fields under every rotation and reversal of the entries and every single absent or ill-typed entry; tuples of 1-2 entries with arbitrary names of 0-11 characters; lists, texts, buffers and tuples of 8 sizes from 3 to 300", "thorough": "containers two levels deep, 3-byte strings"},
        "harnesses": {"h_c27_plain": H(1, ("converted", "refused")), "h_c27_missing": H(), "h_c27_text": H(), "h_c27_option": H(), "h_c27_struct": H(1, ("end", "refused")), "h_c27_key": H(4, ("converted", "refused")), "h_c27_large": H()},
    },
    "C28": {
        "bounds": {"quick": "digest inputs of 24 lengths from 0 to 1000 with arbitrary bytes, of 14 lengths to 70000 (16 to 1048577 at the thorough tier) with arbitrary bytes at the ends, middle and powers of two, and two of nearly the same content in turn; digest views of every value; signatures of 17 lengths from 0 to 321 with arbitrary bytes", "thorough": "same"},
        "assumptions": [SECP],
        "harnesses": {"h_c28_digests": H(), "h_c28_bytes": H(), "h_c28_signature": H(1, ("rejected", "recov", "no-recov")), "h_c28_twice": H(), "h_c28_large": H()},
    },
    "C29": {
        "bounds": {"quick": "any base URL of 0-2 free characters after a fixed part; accounts of 0-3 arbitrary characters and encoded addresses; transfers with every amount, fee, nonce and signature bytes; read-only calls with 0-3 arguments, one of the four names of 0-2 arbitrary characters; replies: statuses 200, 201, 299 and all of 400-599, or none; every member of a reply in turn an arbitrary text of 0-2 characters, or a number of 1-2 arbitrary digits, 0 or the largest; members in order, reversed, with a stranger; each member missing or of two wrong types; bodies of 0-2 arbitrary ASCII characters; calls with buffers of 300, 33000 and 70000 bytes, 1, 17 and 300 arguments; two requests in turn over two clients and their clones; every text of a request or reply of 15 lengths from 8 to 1000", "thorough": "bodies of 0-3 arbitrary characters"},
        "outside": "longer texts, escapes in JSON strings, fractions as a malformed reply, redirects and other 3xx statuses; what ureq itself does with a request",
        "assumptions": ["ureq is modelled: a request is recorded as method, URL, headers and body; a reply of status 400 or more becomes Error::Status, a lost one Error::Transport; serde and serde_json are the real code"],
        "harnesses": {"h_c29_info": H(2), "h_c29_address": H(2), "h_c29_fee": H(8, ("end", "error", "failure"), weight=5), "h_c29_broadcast": H(1, ("end", "refused", "failure")), "h_c29_read": H(6, ("end", "cause", "failure"), weight=5), "h_c29_unencodable": H(), "h_c29_large": H(4), "h_c29_twice": H(2), "h_c29_long": H()},
    },
}
