import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Primitives round-trip losslessly between raw, text and binary domains",
"For every code of the primitive code table and every raw value of that code's size (variable-length codes: every admissible raw length), constructing the primitive and serialising it as text (string or bytes) or binary yields a string that parses back to the same code, the same size and exactly the same raw bytes. The text form has the length the code table prescribes, consists only of URL-safe Base64 characters, starts with the code, and the binary form is exactly the Base64 decoding of the text form (three bytes per four characters).",
["inputs"],"every code x every raw byte string of an admissible length (all byte values)",
"The tests round-trip a handful of fixed raw values for a few codes; the claim is over all 2^(8n) raw values of every one of ~60 codes, including pad and lead-byte layouts no test uses.",
["src/core/matter/mod.rs","src/core/matter/tables.rs","src/core/util.rs"],
[("infil/binfil/exfil/bexfil, rize, sizage tables","src/core/matter/mod.rs"),("code/size tables","src/core/matter/tables.rs"),("integer<->Base64 and sextet helpers","src/core/util.rs")],
["Matter::new / new_with_raw / qb64 / qb64b / qb2 / raw / code / size / full_size","Verfer, Diger, Seqner, Salter... public constructors"])

p("C02","Parsing is canonical: accepted text and binary re-serialise to what was read",
"Whenever parsing a primitive from a text string, text bytes or binary bytes succeeds, the parsed value re-serialises to exactly the prefix of the input that the code table says it occupies: no two different inputs of the same extent denote the same primitive, trailing bytes beyond that extent never influence the result, non-zero pad bits, non-zero lead bytes, padding characters, foreign characters and truncated inputs are rejected, and the code of the result is the code the input starts with.",
["inputs"],"every input string / byte sequence up to the stated length",
"Tests try a few malformed literals; malleability is a statement about every bit of every input character.",
["src/core/matter/mod.rs","src/core/matter/tables.rs","src/core/util.rs"],
[("exfil / bexfil midpad and lead checks","src/core/matter/mod.rs"),("code_b2_to_b64, nab_sextets","src/core/util.rs")],
["Matter::new_with_qb64 / qb64b / qb2 followed by qb64 / qb2"])

p("C03","Primitive parsers are total: hostile input gives an error, never a panic",
"Parsing any text string (including non-ASCII and empty), any text byte sequence or any binary byte sequence as a primitive, an indexed signature or a counter either succeeds or returns an error; it never panics, overflows, or indexes out of bounds, and neither does constructing one of them from an arbitrary code string, raw bytes, index or count.",
["inputs"],"every input up to the stated length, valid UTF-8 or not where bytes are accepted",
"A panic needs one specific malformed input; tests only contain the malformed inputs somebody thought of.",
["src/core/matter/mod.rs","src/core/indexer/mod.rs","src/core/counter/mod.rs","src/core/util.rs"],
[("hardage/sizage lookups and length checks","src/core/matter/tables.rs, src/core/indexer/tables.rs, src/core/counter/tables.rs"),("exfil/bexfil slicing","src/core/*/mod.rs")],
["Result of every new_with_* constructor"])

p("C04","Indexed signatures carry their index, other-index and raw bytes exactly",
"For every indexed-signature code, every index (and other index) the code can represent and every raw signature of the right size, the text and binary forms parse back to the same code, index, other index and raw, and the two forms are Base64 images of each other. An index or other index that the code cannot represent (too large, present on a current-only code, or missing/different where the code requires it) is refused, never truncated; and any accepted text or binary input re-serialises to exactly the part of the input it occupies.",
["inputs"],"every code x every index/ondex up to its field limits (and beyond, for refusal) x every raw; every input string for the parse direction",
"Tests use about twenty (code,index) pairs with fixed signature bytes; field limits of 1-5 Base64 characters cannot be sampled.",
["src/core/indexer/mod.rs","src/core/indexer/tables.rs","src/core/siger.rs"],
[("new_with_code_and_raw range checks, infil, binfil, exfil, bexfil","src/core/indexer/mod.rs"),("sizage tables","src/core/indexer/tables.rs")],
["Siger/Indexer constructors, index(), ondex(), raw(), qb64(), qb2()"])

p("C05","Counters round-trip their code and count and refuse what does not fit",
"For every counter code and every count the code's field can hold, the text and binary forms parse back to the same code and count and are Base64 images of each other; a count that does not fit is refused, an accepted input re-serialises to exactly the prefix it occupies, and the semantic-version packing and fixed-width count rendering encode and decode each component exactly.",
["inputs"],"every code x every u32 count; every input up to the stated length; every (major, minor, patch)",
"A count field holds 4096 to 2^30 values per code; the tests pick a few.",
["src/core/counter/mod.rs","src/core/counter/tables.rs","src/core/util.rs"],
[("infil, binfil, exfil, bexfil, sem_ver_to_b64, count_as_b64","src/core/counter/mod.rs")],
["Counter constructors, code(), count(), qb64(), qb2(), count_as_b64()"])

p("C06","Numbers and sequence numbers denote exactly the integer they were given",
"A Number or Seqner built from an integer, from a hexadecimal string, or from any serialised form reports exactly that integer in every view (integer, hexadecimal string, sign), parses back from its own text, binary and hex forms to the same integer, and automatic code selection picks the smallest code that fits. Raw bytes too short for their code, and text that is not a hexadecimal number of at most 128 bits, are refused.",
["inputs"],"every u128 integer, every hex string up to the stated length, every code",
"The tests cover a dozen integers; every carry/width boundary of a 128-bit value matters.",
["src/core/number.rs","src/core/seqner.rs","src/core/matter/mod.rs"],
[("Number::new / num / numh / positive","src/core/number.rs"),("Seqner::new / sn / snh","src/core/seqner.rs")],
["Number::num/numh/positive/qb64, Seqner::sn/snh/qb64"])

p("C07","A typed primitive only ever holds a code of its own family",
"However it is constructed - from a code and raw bytes, or from text, text bytes or binary input - a value of type Verfer, Diger, Saider, Siger, Cigar, Signer, Salter, Seqner, Number, Dater, Bexter, Pather or Prefixer carries a code belonging to that type's code family; a well-formed primitive of any other family is refused with an error. Asked, every value says truly whether its code is a digest's, and every key or prefix whether it is transferable.",
["inputs"],"every code of the code tables x every constructor of every typed primitive x every raw",
"Confusing a digest for a key is possible through any of the ~60 foreign codes on any of ~50 constructors; tests try at most one foreign code per type.",
["src/core/verfer.rs","src/core/diger.rs","src/core/saider.rs","src/core/siger.rs","src/core/cigar.rs","src/core/signer.rs","src/core/salter.rs","src/core/seqner.rs","src/core/number.rs","src/core/dater.rs","src/core/bexter.rs","src/core/pather.rs","src/core/prefixer.rs"],
[("per-type validate_code","src/core/*.rs"),("code families","src/core/matter/tables.rs")],
["code(), digestive(), transferable() of every successfully constructed typed primitive"])

p("C08","Text carried in primitives (Base64 text, date-times) comes back unchanged",
"A Base64 text string stored in a Bexter (one not beginning with 'A') and every ISO-8601 date-time string in the supported fixed-width form stored in a Dater is returned unchanged by the primitive and by any primitive parsed from its text or binary form; strings outside the alphabet are refused. What a parsed Bexter or Dater returns is accepted again and comes back the same.",
["inputs"],"every string up to the stated length / every date-time of the fixed-width form",
"The lead-size/padding arithmetic depends on length modulo 4 and on content; tests fix a few strings.",
["src/core/bexter.rs","src/core/dater.rs","src/core/matter/mod.rs"],
[("Bext::rawify / derawify","src/core/bexter.rs"),("dts <-> dtsb64 translation","src/core/dater.rs")],
["Bexter::bext, Dater::dts/dtsb/qb64/qb2"])

p("C09","A signing threshold is satisfied exactly by index sets that reach it",
"Asked whether a list of signer indices satisfies a threshold, the answer is yes exactly when the distinct listed indices reach it: for a numeric threshold at least that many distinct indices, for a weighted threshold the weights at the distinct listed indices of every clause add up (as exact rational numbers) to at least one, indices being numbered across clauses in order. The answer does not depend on order or repetition, adding indices never turns yes into no, and indices beyond the threshold's size neither count nor cause a panic.",
["inputs"],"every index list up to the stated length x every threshold expression within the stated shape bounds",
"Set/multiset/ordering behaviour of an index list and exact rational sums over all weights cannot be sampled; tests list a few dozen index vectors.",
["src/core/tholder.rs"],
[("Tholder::satisfy, satisfy_numeric, satisfy_weighted","src/core/tholder.rs")],
["Tholder::satisfy"])

p("C10","Threshold expressions are validated and survive conversion between forms",
"Every threshold accepted from any form (integer, hex string, JSON-style nested weights, text, binary or primitive) converts to its other forms and back to an equal threshold with the same size and the same satisfaction behaviour. Thresholds that are ill-formed are refused with an error, never a panic: negative or malformed counts (a count of zero is allowed and is never satisfied), weights that are malformed, below zero or above one, clauses that are empty or cannot reach one.",
["inputs"],"every numeric threshold; every weight list within the stated shape; every limen string up to the stated length",
"Weights, clause shapes and malformed expressions form an infinite grammar; tests try a few literals.",
["src/core/tholder.rs","src/core/number.rs","src/core/bexter.rs"],
[("process_sith, process_weighted, process_limen, process_unweighted","src/core/tholder.rs")],
["Tholder::new_with_*, limen(), sith(), size(), thold(), num()"])

p("C11","Version strings state protocol, version, kind and size exactly",
"Rendering a version string from a protocol, version, serialisation kind and size and reading it back yields exactly the same four values; reading never accepts a string whose protocol, kind or hexadecimal fields are malformed, and sizing a message rewrites its version string so that the stated size is the exact byte length of its serialisation.",
["inputs"],"every protocol x kind x version x size; every 17-character string; messages within the stated shape",
"Tests read back two or three literal version strings.",
["src/core/common.rs"],
[("versify, deversify, sniff, sizeify","src/core/common.rs")],
["versify/deversify/sniff/sizeify results"])

p("C12","A self-addressing identifier verifies exactly the content it was computed over",
"Computing the SAID of a message embeds in it a digest over the message with the identifier field replaced by dummy characters of equal length, for every digest code; the result verifies, the recomputed SAID is the same, and the input fields are otherwise unchanged. After any change to the value of any covered field, verification no longer succeeds (assuming the hash has no collisions); nor, where asked to compare them, after a change to the embedded identifier or to the size a versioned message states.",
["inputs"],"every digest code, label and message within the stated shape, all field contents; every single-field alteration",
"Integrity is a claim about every possible altered byte; tests alter one or two.",
["src/core/saider.rs","src/core/sadder.rs","src/crypto/hash.rs"],
[("Saider::derive / saidify / verify","src/core/saider.rs"),("digest dispatch","src/crypto/hash.rs")],
["Saider::saidify, Saider::verify, code(), qb64()"])

p("C13","A loaded message is exactly the bytes it states, and bad bytes are refused",
"A key event or credential loaded from raw bytes has a raw form equal to the first 'size' bytes of the input, a size equal to its stated version-string size, a field map that is exactly what those bytes parse to, the identifier its 'd' field states, and accessors that return what its fields say; bytes following the message do not influence it, and a message built from a field map equals the one loaded from its raw form. Truncated input, malformed JSON, missing or foreign version strings, and missing or malformed identifiers are refused with an error, never a panic (loading does not recompute the identifier: that is verification's part).",
["inputs"],"messages within the stated shapes with arbitrary field contents, any truncation point, any trailing bytes",
"Tests load well-formed fixtures; they do not load every truncation or alteration of them.",
["src/core/sadder.rs","src/core/serder.rs","src/core/creder.rs","src/core/common.rs","src/data.rs"],
[("Sadder::inhale/exhale/loads","src/core/sadder.rs"),("Serder/Creder constructors","src/core/serder.rs, src/core/creder.rs")],
["Serder::new_with_raw/ked, Creder::new_with_raw/ked, raw(), ked(), size(), said()"])

p("C14","Identifier prefixes are bound to the inception data they are derived from",
"A prefix derived from an inception event verifies against that event, and a prefix verifies against an event only if it is what derivation from that event yields: a key prefix must equal the event's single signing key (and a non-transferable one must have empty next keys, witnesses and anchors), a self-addressing prefix must equal the digest of the event with prefix and identifier fields dummied and the stated size made right; where asked, the event's own prefix field must also equal the prefix. Events that are no inceptions or lack what derivation needs (type, version string or key list, according to the code) are refused with an error, never a panic.",
["inputs"],"every prefix code, keys and digests with arbitrary bytes, inception events within the stated shape, any altered field",
"Binding is a statement about all events other than the right one.",
["src/core/prefixer.rs","src/core/saider.rs","src/core/verfer.rs"],
[("Prefixer::derive_* / verify_*","src/core/prefixer.rs")],
["Prefixer::new_with_ked, Prefixer::verify"])

p("C15","Signatures verify exactly under the matching key, message and algorithm",
"A signature made by a signer over a message - attached as unindexed or as indexed signature with any index - verifies under that signer's own verification key for that message, for each supported algorithm, and the produced primitives carry the algorithm's code, transferability and requested index. It does not verify for a different message, signature or key, and a key of one algorithm never accepts a signature through another algorithm (assuming the underlying schemes are ideal).",
["inputs"],"every algorithm, seed, message up to the stated length, index and transferability; every altered message/signature byte",
"Tests sign one message per algorithm; wiring errors for other codes, flags or indices are invisible to them.",
["src/core/signer.rs","src/core/verfer.rs","src/core/siger.rs","src/core/cigar.rs","src/crypto/sign.rs"],
[("Signer::new/sign_unindexed/sign_indexed","src/core/signer.rs"),("Verfer::verify","src/core/verfer.rs"),("algorithm dispatch","src/crypto/sign.rs")],
["Signer, Verfer::verify, Siger::index/ondex/verfer, Cigar::verfer"])

p("C16","Digests bind their serialisation under the algorithm their code names",
"A digest built over a serialisation carries the raw digest that the algorithm named by its code gives, verifies that serialisation and, assuming no hash collisions, no other; comparing two digests answers whether they were made over the same serialisation, across different algorithms too. Computing the same digest again gives the same primitive.",
["inputs"],"every digest code pair, every serialisation up to the stated length",
"Nine algorithms give 81 comparison pairs and every message; tests use one fixed message.",
["src/core/diger.rs","src/crypto/hash.rs"],
[("Diger::new/verify/compare","src/core/diger.rs"),("digest","src/crypto/hash.rs")],
["Diger::verify, Diger::compare, raw()"])

p("C17","Keys stretched from a salt are a deterministic function of their inputs",
"A signer derived from a salt is determined by exactly the salt, path, security tier, code and transferability requested: the same inputs give the same key every time, and distinct salts, paths or tiers give distinct keys (assuming an ideal stretching function). Deriving several signers gives one per requested position whose keys equal those of deriving each path individually, and explicitly supplied arguments always take precedence over defaults.",
["inputs"],"every salt, path string up to the stated length, tier, code, count and offset within bounds",
"Tests derive a few fixed keys; which argument feeds which parameter must hold for all combinations.",
["src/core/salter.rs","src/crypto/salt.rs","src/core/signer.rs"],
[("Salter::stretch/signer/signers","src/core/salter.rs"),("argon2 parameter selection","src/crypto/salt.rs")],
["Salter::signer, Salter::signers, Salter::stretch"])

p("C18","JSON values survive conversion without loss and without panic",
"Parsing any JSON text (within bounds) into the library's value type never panics; rendering gives JSON that parses back to an equal value, with object key order, string contents, booleans, nulls and every signed 64-bit integer preserved exactly.",
["inputs"],"JSON documents within the stated shape; every string content, every signed 64-bit integer literal",
"Escapes, number boundaries and key order cannot be sampled.",
["src/data.rs"],
[("From<&serde_json::Value> for Value, Value::to_json","src/data.rs")],
["Value::from, Value::to_json, to_string/to_i64/..."])

p("C19","Paths resolve to the addressed value and convert between forms faithfully",
"A path built from its Base64 text, bexter form or list of parts exposes the same parts in all forms; resolving it against a value returns exactly the element reached by following each part as a map key, or as a map-entry or list position when it is a number, and an error (never a panic or another element) when a part does not exist. Rooted, stripped and tail views relate as prefix, remainder and concatenation of parts.",
["inputs"],"every path and value within the stated shape bounds",
"Tests follow a few literal paths through one sample document.",
["src/core/pather.rs","src/core/bexter.rs"],
[("Pather::new/resolve/tail/root/strip/starts_with","src/core/pather.rs")],
["Pather::path/bext/resolve/tail/root/strip/starts_with"])

p("C20","The WebAssembly bindings compute the same results as the native library",
"Every value passed through the WebAssembly binding layer reaches the native library and comes back unchanged - 128-bit integers, JSON values, byte strings and optional arguments - so each bound operation returns what the native operation returns for the same inputs and fails with an error exactly when it fails.",
["inputs"],"every u128, every argument combination of the bound operations within bounds",
"There are no tests of the binding crate at all.",
["wasm/src/util.rs","wasm/src/primitives"],
[("U128Wrapper / ValueWrapper conversions","wasm/src/util.rs"),("wrapper types","wasm/src/primitives/*.rs")],
["exported wrapper functions"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,x["title"]
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],"sentences",n)
