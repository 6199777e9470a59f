"""What each check runs: harness cases per tier, the bounds they state and the
reachability witnesses that must be hit."""
R = lambda *a: list(range(*a))

COMMON = [
    'LLVM IR produced by rustc (release profile, overflow checks on, panic=abort, fat LTO, no vectorisation) from the current source; rustc/LLVM up to that point are trusted',
    'allocation never fails; HashMap seeds are fixed',
]
IDEAL = 'cryptographic crates (hashes, signatures, argon2) are replaced by ideal functions (stubs/): equal inputs give equal outputs, different inputs give different outputs, verification accepts exactly what signing made'

# binding arguments given or not (low five bits), variants of the values in the bits above
def args(n):
    one = lambda v: v & v - 1 == 0
    return [c for c in range(n) if c < 32 or c & 31 in (3, 5, 9, 17, 31) and one(c >> 5) or c & 31 in (2, 4, 8, 16) and (one(c >> 5) or one(c >> 5 & 3) and one(c >> 7))]

PROPS = {
    'C01': dict(
        jobs=[
            dict(h='h_c01_fixed', quick=R(38)),
            dict(h='h_c01_var', quick=R(12)),
            dict(h='h_c01_varbig', quick=R(2) + R(48, 52) + R(96, 100) + [120, 124, 128] + R(144, 288, 3), thorough=R(288)),
        ],
        bounds='all 38 fixed codes with every raw value; all 12 variable codes with every raw value of every length 0..17 (thorough 0..48), and lengths around 63, 256, 1024 and 4095 quadlets, 2^16 bytes and 2^16 quadlets with six free bytes (quick: selected codes; thorough: all)',
        outside='variable material longer than 48 bytes except at the stated boundaries',
    ),
    'C02': dict(
        jobs=[
            dict(h='h_c02_text', quick=R(50)),
            dict(h='h_c02_short', quick=R(9)),
            dict(h='h_c02_bin', quick=R(50)),
            dict(h='h_c02_shortbin', quick=R(7)),
            dict(h='h_c02_big', quick=[c + 12 * q + 132 * b for c in R(12) for q in R(11) for b in R(2) if c > 5 or q < 10], covers=['accepted']),
            dict(h='h_c02_tail', quick=[c + 38 * (1 + 3 * h) for c in R(38) for h in R(3)], thorough=R(342)),
        ],
        bounds='every ASCII text that starts with any of the 50 codes at lengths full size -1..+1 (variable codes: 0..24 characters after the code, thorough 0..48); every ASCII text of length 0..8; the same for binary input (variable codes up to 19/37 bytes, arbitrary up to 6 bytes); variable codes of 4 to 4096 quadlets with eight free characters and any tail of five; every text, text-byte and binary form of a fixed code followed by 60 (thorough also 7, 300) characters of which six are any',
        outside='variable-length material beyond the stated lengths; non-ASCII text is covered by C03',
    ),
    'C03': dict(
        jobs=[dict(h='h_c03_' + h, quick=R(n)) for h, n in [('m_text', 50), ('m_bin', 50), ('i_text', 19), ('i_bin', 19), ('c_text', 15), ('c_bin', 15), ('short', 24),
                                                            ('shortbin', 24), ('m_code', 56), ('i_code', 25), ('c_code', 21), ('semver', 11), ('big', 39)]],
        bounds='text and binary of every length from nothing to full size + 1 that starts with any code of the three code tables, and every text (arbitrary UTF-8 up to 8 bytes, non-ASCII at every position) and every binary up to 6 bytes without that restriction; construction from every code of the tables with raw of every size around the right one, and from arbitrary code strings of 0..5 bytes, with every index, other index and count; every version part up to 3 characters; variable codes with any size field and 30 or 300 characters of material',
        outside='longer unknown codes; inputs more than one character longer than the code requires',
    ),
    'C04': dict(
        jobs=[
            dict(h='h_c04_build', quick=R(38)),
            dict(h='h_c04_siger', quick=R(12)),
            dict(h='h_c04_text', quick=R(19)),
            dict(h='h_c04_bin', quick=R(19)),
            dict(h='h_c04_big', quick=R(11)),
            dict(h='h_c04_set', quick=R(19), covers=['refused', 'serialised']),
        ],
        bounds='all 19 indexed codes (12 through Siger) x every 32-bit index x every or no 32-bit other index x every raw value of the right size (variable code: 0..7 triplets, thorough 0..23); every ASCII text and every binary that starts with any of the 19 codes at lengths full size -1..+1 (variable code: 0..24/19 bytes, thorough 48/37); the variable code at 62 to 4095 triplets with three free bytes; every 32-bit index and other index set on an existing value of each code, for both output forms',
        outside='variable-length material beyond the stated lengths',
    ),
    'C05': dict(
        jobs=[
            dict(h='h_c05_build', quick=R(15)),
            dict(h='h_c05_b64', quick=R(15)),
            dict(h='h_c05_text', quick=R(24), covers=['accepted']),
            dict(h='h_c05_bin', quick=R(23), covers=['accepted']),
            dict(h='h_c05_semver', quick=[0]),
            dict(h='h_c05_semver_str', quick=R(8), thorough=R(9)),
        ],
        bounds='all 15 counter codes x every 32-bit count; every ASCII text and every binary that starts with any of the codes, and every one of length 0..8 (binary 0..7); every (major, minor, patch) of 32 bits; every version string of up to 7 (thorough 8) characters',
        outside='longer semantic-version strings',
    ),
    'C06': dict(
        jobs=[
            dict(h='h_c06_num', quick=R(6)),
            dict(h='h_c06_sn', quick=R(2)),
            dict(h='h_c06_raw', quick=R(32)),
            dict(h='h_c06_short', quick=R(8)),
            dict(h='h_c06_hex', quick=R(76), thorough=R(130)),
            dict(h='h_c06_wide', quick=R(24)),
        ],
        bounds='every 128-bit integer through every constructor; every raw value of the four number codes; every ASCII text of 0..37 (thorough 64) characters as hexadecimal number',
        outside='hexadecimal text beyond that length or with non-ASCII characters; an optional leading "+" counts as part of a hexadecimal number; an empty string is zero for Number',
    ),
    'C07': dict(
        jobs=[
            dict(h='h_c07_matter', quick=R(600)),
            dict(h='h_c07_made', quick=R(50)),
            dict(h='h_c07_siger', quick=R(69)),
            dict(h='h_c07_any', quick=[28 * t + 2 * l for t in R(12) for l in (0, 5)], thorough=R(336), covers=['accepted', 'refused']),
        ],
        ideal=True,
        assumptions=[IDEAL],
        bounds='12 types x all 50 codes x every constructor (raw, text, text bytes, binary, and those with a contradicting code argument) with every raw value; Siger x 19 indexed and 50 other codes; and every ASCII text of 4 or 44 characters (thorough: every text and binary of each of the 14 lengths a code can have) through every type',
        outside='variable-length material longer than two quadlets (C01-C03)',
    ),
    'C08': dict(
        jobs=[
            dict(h='h_c08_bext', quick=R(26) + R(128, 136) + R(256, 264) + R(384, 392), thorough=R(80) + R(128, 160) + R(256, 288) + R(384, 416), covers=['returned', 'refused', 'padded']),
            dict(h='h_c08_bext_big', quick=R(32), covers=['returned', 'refused']),
            dict(h='h_c08_bext_utf8', quick=R(2, 6), thorough=R(2, 9)),
            dict(h='h_c08_bext_parsed', quick=R(60), thorough=R(108)),
            dict(h='h_c08_dts', quick=R(2)),
            dict(h='h_c08_dts_any', quick=R(11), covers=['date-time', 'refused']),
            dict(h='h_c08_dts_parsed', quick=R(22)),
        ],
        bounds='every ASCII text of 0..25 (thorough 79) characters, text around 63, 64, 4095 and 16384 quadlets with three free characters, non-ASCII UTF-8 of 2..5 (8) bytes; every parsed Bexter of up to 4 (8) quadlets under each code; every digit of the fixed-width date-time with either offset sign, and every group of three adjacent arbitrary characters in it',
        outside='longer texts; texts of a whole number of quadlets that begin with "A" (the format cannot represent them); the current time',
    ),
    'C09': dict(
        jobs=[
            dict(h='h_c09_numeric', quick=R(6) + R(8, 13) + R(16, 19), thorough=R(7) + R(8, 14) + R(16, 20), covers=['reached', 'not reached']),
            dict(h='h_c09_weighted', quick=[(t * 4 + f) * 8 + l for t in R(14) for f in R(4) for l in R(5 if f == 0 else 4)], thorough=[(t * 4 + f) * 8 + l for t in R(14) for f in R(4) for l in R(6 if f == 0 else 5)], covers=['reached', 'not reached']),
            dict(h='h_c09_subset', quick=R(56)),
            dict(h='h_c09_weights', quick=R(2), covers=['reached', 'not reached']),
            dict(h='h_c09_large', quick=[c for c in R(35) if c // 5 != 1 and c % 5 in (0, 2, 4) or c == 7], thorough=R(35)),
            dict(h='h_c09_many', quick=R(6), thorough=R(9)),
        ],
        bounds='every 32-bit threshold number and every list of 0..5 (thorough 6) 32-bit indices; 14 weighted thresholds of 1..3 clauses and up to 5 weights (with weights up to 31 bits) in four forms x every list of 0..4 (other forms 0..3; thorough one more) 32-bit indices, and x every subset of the members with repetitions and an index beyond the end; every clause of one or two weights of one digit over one digit followed by an unlisted 1; seven weighted thresholds of 70..300 members all of which are needed, one member replaced by any index; numeric thresholds of 21..33 with any index for one of the list',
        outside='longer index lists; other weight values and clause shapes',
    ),
    'C10': dict(
        jobs=[
            dict(h='h_c10_int', quick=R(2)),
            dict(h='h_c10_hex', quick=R(12)),
            dict(h='h_c10_weight', quick=R(5)),
            dict(h='h_c10_shape', quick=R(9)),
            dict(h='h_c10_limen_short', quick=R(5)),
            dict(h='h_c10_limen_num', quick=R(4)),
            dict(h='h_c10_limen_text', quick=R(3)),
            dict(h='h_c10_large', quick=R(10)),
            dict(h='h_c10_digits', quick=R(25), covers=['refused', 'converted']),
            dict(h='h_c10_clauses', quick=[1, 2, 3, 4, 5, 7, 10, 13, 15, 18, 21, 23, 26, 29, 31], thorough=[c for c in R(32) if c % 8], covers=['refused', 'converted']),
        ],
        bounds='every 64-bit integer; every ASCII text of 0..11 characters as hexadecimal number; every ASCII text of 0..4 characters as weight; every expression of two levels with up to two parts of 10..12 kinds each in three forms; every primitive of the four number codes; every byte string of 0..4 bytes and every one-quadlet text under each lead size as primitive form; ten thresholds of 70..9000 weights; thresholds of 1..7 clauses (up to four: each of four kinds, two of which cannot reach one; more: any one of them of any kind) in four forms; weights around 2^31, 2^32, 2^63 and 2^64 with any last digits',
        outside='longer weights and deeper or wider expressions; a leading sign in a number or weight is neither required nor forbidden',
    ),
    'C11': dict(
        jobs=[
            dict(h='h_c11_round', quick=R(6)),
            dict(h='h_c11_names', quick=R(11), thorough=R(16)),
            dict(h='h_c11_text', quick=R(24), thorough=R(40)),
            dict(h='h_c11_long', quick=R(32)),
            dict(h='h_c11_sniff', quick=R(48)),
            dict(h='h_c11_any', quick=R(32)),
            dict(h='h_c11_size', quick=R(19)),
            dict(h='h_c11_unsized', quick=R(9)),
        ],
        bounds='both protocols x every version byte pair x every 8-bit size, x every size from 0 to 2^32-1 for version 1.0, x every version with minor 15 and sizes 0xffff00..0xffffff; every protocol and kind name up to 5 (thorough 7) ASCII characters; every ASCII text of 0..23 (thorough 39) characters as version string; sniffing of any version string at every offset 0..15 behind any ASCII text and before 12, 13 or 30 further bytes, of every 17 ASCII characters at every offset, and of every 13..28 bytes; sizing of messages with any stated size and field contents up to three characters, and at lengths 2^8, 2^12 and 2^16 -1..+1',
        outside='messages longer than 65537 bytes; non-ASCII bytes before the version string',
    ),
    'C12': dict(
        jobs=[
            dict(h='h_c12_saidify', quick=R(54) + [54 * l + 9 * l + c for l in R(1, 6) for c in R(9)], thorough=R(324)),
            dict(h='h_c12_exact', quick=R(54), thorough=R(324)),
            dict(h='h_c12_change', quick=R(126) + R(126, 154) + R(196, 210) + R(266, 280), thorough=R(378)),
            dict(h='h_c12_ignore', quick=R(0, 108, 2), thorough=R(108)),
            dict(h='h_c12_refuse', quick=R(11), covers=['asked']),
            dict(h='h_c12_codes', quick=R(4)),
            dict(h='h_c12_long', quick=[c + 9 * l for l in (2, 8, 14, 17, 20, 23) for c in (0, 7)], thorough=R(216)),
        ],
        ideal=True,
        samples=1,
        assumptions=[IDEAL],
        bounds='all nine digest codes x six message shapes (no, KERI or ACDC version string of wrong size; identifier first or last; text, integer, boolean, null, list and nested object fields) x six labels, every field text up to two printable characters; every raw identifier value against the message; 14 kinds of change (any other text of the same or another length, any other small integer, booleans, null, nested fields, removed, added and reordered fields, any other embedded identifier, any other stated size, another protocol or malformed version string) ; every code of 0..3 characters; field texts of 24 lengths from 15 to 65537 bytes (around powers of two) with two free characters in each of two; quick: a selection of the combinations, thorough: all',
        outside='other message shapes, longer contents; field texts that need escapes (their rendering is C18)',
    ),
    'C13': dict(
        jobs=[
            dict(h='h_c13_load', quick=R(72)),
            dict(h='h_c13_said', quick=R(14), covers=['accepted', 'refused']),
            dict(h='h_c13_cut', quick=R(200)),
            dict(h='h_c13_size', quick=R(6), covers=['accepted', 'refused']),
            dict(h='h_c13_json', quick=R(28), covers=['accepted', 'refused']),
            dict(h='h_c13_utf8', quick=R(6), thorough=R(8), covers=['accepted', 'refused']),
            dict(h='h_c13_refuse', quick=R(34)),
            dict(h='h_c13_event', quick=R(20)),
            dict(h='h_c13_credential', quick=R(16)),
            dict(h='h_c13_pretty', quick=[0]),
            dict(h='h_c13_big', quick=R(14) + [18], thorough=R(20)),
            dict(h='h_c13_escape', quick=R(6), covers=['accepted', 'refused']),
        ],
        ideal=True,
        assumptions=[IDEAL],
        bounds='events and credentials of one shape (two texts, an integer, a nested list) x 9 digest codes with 3 freely varying digest bytes, two-character texts, 3-bit integers, 0..1 trailing bytes of any value; every truncation of one message; every stated size below 2^24, every version and any 3 trailing bytes; any 0..3 ASCII characters inside a value, in place of a value, between fields, or (0..1) inside a label; any 1..3 (thorough 4) non-ASCII bytes inside a text; every identifier text of 0, 1, 2, 4 characters and of 43..45 characters whose first and last two are any; events with every key, digest and witness of the codes tried; credentials with every subset of the optional fields',
        outside='other message shapes and longer texts; numbers with fractions or exponents (C18)',
    ),
    'C14': dict(
        jobs=[
            dict(h='h_c14_key', quick=R(18)),
            dict(h='h_c14_codes', quick=R(120)),
            dict(h='h_c14_bound', quick=R(228)),
            dict(h='h_c14_digest', quick=R(135)),
            dict(h='h_c14_altered', quick=[c + 9 * n for n in range(11) for c in range(9) if c in (0, 5) or n in (0, 3, 9)], thorough=R(99)),
            dict(h='h_c14_refuse', quick=R(117)),
            dict(h='h_c14_given', quick=R(5), covers=['derived', 'refused']),
        ],
        ideal=True,
        assumptions=[IDEAL],
        bounds='6 key codes x 3 inception types x every pair of keys; every code asked for of every key; 38 changes of the event with any one-character text or any second key; 9 digest codes x 3 types x 5 shapes with any two-character texts, every pair of values of every covered field, and every change of one digest byte; 13 events that are none; any two characters at the head of the given prefix',
        outside='events of other shapes and longer field values (opaque to derivation: they enter the digest through their serialisation, C12 and C18)',
    ),
    'C15': dict(
        jobs=[
            dict(h='h_c15_signer', quick=R(6)),
            dict(h='h_c15_unindexed', quick=R(96)),
            dict(h='h_c15_other', quick=R(6)),
            dict(h='h_c15_cross', quick=[c for c in R(18) if c // 6 != c // 2 % 3]),
            dict(h='h_c15_indexed', quick=R(12), covers=['signed', 'refused']),
            dict(h='h_c15_any', quick=R(24)),
            dict(h='h_c15_salted', quick=R(6)),
            dict(h='h_c15_long', quick=R(72)),
        ],
        ideal=True,
        assumptions=[IDEAL],
        bounds='3 algorithms x transferable or not x every private key of the algorithm (bytes in range), every message of 0..3 bytes against every other message of 0..3 bytes, every other 64-byte signature, every other key, every 32-bit index and other index; every key and signature bytes for freedom from panics; messages of 24 lengths from 15 to 65537 bytes (around powers of two) with three free bytes against each other, shortened and lengthened',
        outside='other contents of messages longer than 3 bytes (the schemes see the message only as an opaque string); weaknesses of the signature schemes themselves',
    ),
    'C16': dict(
        jobs=[
            dict(h='h_c16_digest', quick=R(144)),
            dict(h='h_c16_other', quick=R(144)),
            dict(h='h_c16_compare', quick=R(162)),
            dict(h='h_c16_codes', quick=R(50)),
            dict(h='h_c16_long', quick=R(216)),
        ],
        ideal=True,
        assumptions=[IDEAL],
        bounds='9 digest codes (all 81 pairs for comparison) x every message of 0..15 bytes (pairs: 0..3 bytes each; comparisons 1..2) and every other digest value of the code; messages of 24 lengths from 15 to 65537 bytes (around powers of two) with three free bytes against each other, shortened and lengthened',
        outside='other contents of longer messages (the hash sees the message only as an opaque string); comparing two equal digests over a message neither was made over (answered yes, as in the reference implementation)',
    ),
    'C17': dict(
        jobs=[
            dict(h='h_c17_stretch', quick=R(50)),
            dict(h='h_c17_signer', quick=R(48)),
            dict(h='h_c17_distinct', quick=R(16)),
            dict(h='h_c17_signers', quick=R(12)),
            dict(h='h_c17_passed', quick=R(3)),
            dict(h='h_c17_salt', quick=R(5)),
            dict(h='h_c17_long', quick=R(24)),
            dict(h='h_c17_many', quick=R(4)),
            dict(h='h_c17_utf8', quick=R(1, 5), thorough=R(1, 6)),
        ],
        ideal=True,
        samples=1,
        assumptions=[IDEAL],
        bounds='every 16-byte salt; every ASCII path of 0..3 characters; all tier, temporary, code, transferability combinations given or not; every path of 1..4 bytes of UTF-8; paths of 24 lengths from 15 to 65537 bytes (around powers of two) with three free characters; 0, 1, 3 or unstated signers from every start below 2^20, 40 and 300 signers, starts around 2^16 and 2^32',
        outside='other contents of longer paths (an opaque string to the stretching function); other start positions of 2^20 and above',
    ),
    'C18': dict(
        jobs=[
            dict(h='h_c18_text', quick=R(5), thorough=R(7), covers=['parsed', 'no JSON', 'null']),
            dict(h='h_c18_string', quick=R(4) + R(8, 10) + R(16, 20), thorough=R(5) + R(8, 11) + R(16, 21)),
            dict(h='h_c18_int', quick=R(19)),
            dict(h='h_c18_float', quick=R(26), covers=['number', 'no JSON']),
            dict(h='h_c18_shape', quick=R(2)),
            dict(h='h_c18_set', quick=[0], thorough=R(2)),
            dict(h='h_c18_from', quick=R(14)),
            dict(h='h_c18_wide', quick=R(6)),
            dict(h='h_c18_large', quick=R(12)),
            dict(h='h_c18_twice', quick=[0]),
        ],
        bounds='every ASCII text of 0..4 (thorough 6) printable characters without fraction or exponent as JSON; every string of 0..3 (4) ASCII characters as value or 0..1 (2) as key, alone or before any two-byte character; every integer of up to 16 bits, every 8-bit window of a 63-bit pattern and the 256 integers at either extreme; 26 other number literals; every value of one level with up to two elements of 11 kinds; every sequence of three (four) assignments to four keys; every value of the integer types; every character of three or four bytes in a string; nesting of 20..120 levels, lists, maps and strings of 20..1000 elements with a few free leaves; every JSON map of three entries with the keys a, b, c in any repetition',
        outside='integers of JSON text with more freely varying bits; other floating-point literals; control characters and longer texts',
    ),
    'C19': dict(
        jobs=[
            dict(h='h_c19_parts', quick=R(4), covers=['path', 'refused']),
            dict(h='h_c19_text', quick=R(9), thorough=R(13), covers=['path', 'refused', 'no path']),
            dict(h='h_c19_resolve', quick=[5 * t + n for t in R(7) for n in R(5) if (n != 3 or t < 4) and (n, t) != (4, 5)], thorough=R(35), covers=['resolved', 'no such element']),
            dict(h='h_c19_views', quick=R(12), thorough=R(16), covers=['stripped', 'unchanged']),
            dict(h='h_c19_tail', quick=R(2), covers=['none', 'string', 'structure']),
        ],
        bounds='every path of 0..3 parts of one or two ASCII characters each or an integer below 100; every ASCII text of 0..8 (thorough 12); seven value trees x every path of 0..3 parts, each empty, any one Base64 character or one of five two-character parts, and every path of one part of any two characters (quick: six of the trees); rooted and stripped views of all paths of 0..2 (3) parts over three names by paths of 0..3; tails of one event by every path of one or two such parts',
        outside='longer parts; other value trees; the textual prefix test starts_with on paths that are not prefixes part by part',
    ),
    'C20': dict(
        jobs=[
            dict(h='h_c20_u128', quick=R(2)),
            dict(h='h_c20_codex', quick=[0]),
            dict(h='h_c20_value', quick=R(25), thorough=R(32), covers=['compared', 'error', 'same']),
        ] + [dict(h='h_c20_' + h, quick=args(n), thorough=R(n), covers=['compared', 'same'] + (['error'] if h not in ('verfer',) else [])) for h, n in [
            ('number', 768), ('seqner', 768), ('verfer', 256), ('diger', 512), ('cigar', 128), ('siger', 512), ('bexter', 256), ('dater', 256), ('signer', 512),
            ('salter', 1024), ('saider', 256), ('prefixer', 768), ('serder', 256)]] + [
            dict(h='h_c20_stretch', quick=R(0, 256, 3), thorough=R(256)),
            dict(h='h_c20_stretch_far', quick=R(44), covers=['compared', 'same', 'error']),
            dict(h='h_c20_saidify', quick=R(32)),
            dict(h='h_c20_tholder', quick=R(48)),
        ],
        ideal=True,
        features='wasm',
        samples=1,
        assumptions=[IDEAL, 'wasm-bindgen and js-sys are replaced by functional stand-ins (stubs/wasm-bindgen, stubs/js-sys): the generated JavaScript glue is not examined'],
        bounds='every bound type and operation: each constructor with every combination of given and absent arguments (quick: combinations of the first five, and fewer with the others) whose values end in four freely varying bytes, are of another code, or are cut short; every 128-bit integer; every ASCII text of 0..2 (thorough 3) characters as JSON value; messages, events and thresholds of fixed shapes; stretching and signers with 44 unusual sizes, counts, positions, paths, tiers and codes',
        outside='the JavaScript glue that wasm-bindgen generates; JavaScript numbers and values that the bindings never see',
    ),
}
