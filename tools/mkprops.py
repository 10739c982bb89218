#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["Go/sereal/"+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=None)))

p("C01", "Varints are written in canonical form and read back exactly",
  "Every unsigned 64-bit quantity the encoder or the merger writes as a varint is appended in the minimal little-endian base-128 form, leaving every earlier byte unchanged. The decoder reads any varint of at most ten bytes, minimal or padded, back to the number it denotes (modulo 2^64) and consumes exactly its bytes. A varint that is unterminated within the buffer or longer than ten bytes is reported as an error.",
  ["inputs"], "all 2^64 values, all byte strings, all buffer prefixes",
  "The tests only meet the lengths and values that occur in the corpus; 9- and 10-byte, padded and unterminated forms are hardly sampled.",
  ["encode.go", "decode.go", "merge.go"],
  [("varint", "encode.go"), ("varintdecode", "decode.go"), ("appendTagVarint", "merge.go")], ["Marshal output", "Unmarshal result"])

p("C02", "Every integer survives encoding and decoding",
  "A Go integer of any signed or unsigned type, named types included, encoded on its own or inside any value and then decoded into an empty interface or into any integer target that can represent it, yields the same number. Every integer form of the format (small positive, small negative, varint, zigzag) decodes to the number the Sereal specification assigns to it.",
  ["inputs"], "all 64-bit values of all integer kinds, all integer encodings",
  "A handful of literal integers are round-tripped; boundary values of each form, named kinds and positive zigzag values are not.",
  ["encode.go", "decode.go"],
  [("encodeInt", "encode.go"), ("encode / encodeViaReflection dispatch", "encode.go"), ("decodeInt, decodeVarint, decodeZigzag, setInt", "decode.go")], ["Marshal output", "Unmarshal result"])

p("C03", "Scalars and strings are encoded and decoded bit for bit",
  "nil, booleans, float32, float64, strings and byte slices are encoded in the form the Sereal specification prescribes (little-endian IEEE bits; strings as length-prefixed UTF-8 strings; byte slices as short or length-prefixed binary) for every value and every length. Decoding the result yields exactly the same bits, bytes and kind, and consumes exactly the encoded bytes.",
  ["inputs"], "all values, all lengths, including NaN payloads and the short-binary boundary",
  "Tests sample a few strings and floats; the length boundaries and bit patterns are unbounded.",
  ["encode.go", "decode.go"],
  [("encodeFloat, encodeDouble, encodeString, encodeBytes", "encode.go"), ("decodeFloat, decodeDouble, decodeBinary, decodeStringish", "decode.go")], ["Marshal output", "Unmarshal result"])

p("C04", "Untrusted bytes never crash the decoder",
  "For every byte string, every combination of decoder options and every destination, Unmarshal, UnmarshalHeader, UnmarshalHeaderBody, LooksLikeSereal and DecompressDocument return normally with a result or an error; they never die with a Go runtime panic such as an out-of-range index, a nil dereference, a failed type assertion or an impossible allocation size. (Stack depth on very deeply nested input, memory exhaustion, third-party decompressors and user callbacks are outside this statement.)",
  ["inputs", "configurations"], "all byte strings, all option combinations, all destinations",
  "The specification demands safety on every invalid document; the tests feed a few dozen documents, nearly all valid.",
  ["decode.go", "snappy.go", "zlib.go", "zlib_purego.go", "zstd.go"],
  [("bounds checks of every decode function", "decode.go"), ("recover in UnmarshalHeaderBody", "decode.go"), ("decompress length checks", "snappy.go, zlib.go, zstd.go")], ["return or panic of the public entry points"])

p("C05", "Untyped decoding gives every document the meaning the specification assigns",
  "Whenever decoding a body into an empty interface succeeds, each tag contributed exactly the value the Sereal specification assigns to it and consumed exactly its own bytes: padding and track bits are ignored, counts govern exactly how many items are read and in what order, hash pairs map keys to their own values, and a COPY reproduces the item at its offset and then continues after the COPY itself. Unknown tags, truncated items, copies that point forward or nest, back references to untracked or later positions, and lengths beyond the buffer are reported as errors and never as values.",
  ["inputs", "configurations"], "all documents, protocol versions 1 to 4, with and without PerlCompat",
  "Each tag is exercised by the corpus on the encodings the Perl encoder happens to choose; other legal or illegal combinations are never seen.",
  ["decode.go"],
  [("decode", "decode.go"), ("decodeArray, decodeHash, decodeStringish, decodeBinary", "decode.go"), ("decodeREFP_ALIAS, decodeRegexp, decodeObjectViaReflection", "decode.go")], ["Unmarshal result"],
  [("tracked", "offset of every flagged item", "Decoder"), ("copyDepth", "inside a COPY", "Decoder")])

p("C06", "A document header is accepted exactly when it is valid",
  "A document header is accepted exactly when the magic string fits the protocol version (old magic for versions 1 and 2, high-bit magic from 3 on), the version is one of 1 to 4, the document type is one defined for that version, and the header suffix length is a proper varint that stays inside the document; a UTF-8 mangled magic is reported as such. The position at which the body starts is exactly the end of the declared suffix.",
  ["inputs"], "all byte strings used as headers",
  "Two or three malformed headers are tested; the product of magic, version, type and suffix length is not.",
  ["decode.go"],
  [("readHeader, checkHeader", "decode.go"), ("documentDecompressor", "decode.go"), ("bodyStart computation", "decode.go")], ["error of Unmarshal / LooksLikeSereal / DecompressDocument"])

p("C07", "Encoder output is a well-framed document its own decoder accepts",
  "Whenever Marshal or MarshalWithHeader succeeds, for every protocol version, the output is the right magic for that version, the version and type byte, a varint giving exactly the length of the header suffix, that suffix, and then the body and nothing else; LooksLikeSereal accepts it. Header metadata is a self-contained body with its own offsets, so decoding the header and the body returns what was passed in for each, whatever they contain.",
  ["inputs", "configurations"], "all header and body values, all protocol versions, all options",
  "One header value without repeated keys is tested; header length, repeated keys in the header and version interplay are not.",
  ["encode.go", "decode.go"],
  [("MarshalWithHeader", "encode.go"), ("UnmarshalHeaderBody", "decode.go")], ["Marshal output", "UnmarshalHeaderBody result"])

p("C08", "Deduplication never changes what a document means",
  "Every back reference the encoder emits for a repeated hash key or class name points, in the offset base of the document's protocol version, at the tag of an earlier complete string with exactly the same bytes, and never at another back reference. Disabling deduplication therefore changes only the size of the output, not what it decodes to.",
  ["inputs", "histories"], "all sequences of keys and class names within a document, all protocol versions",
  "Wrong offsets only show for particular key sequences and lengths; tests use a few small maps.",
  ["encode.go"],
  [("encodeString, encodeBytes", "encode.go"), ("MarshalWithHeader offset base", "encode.go")], ["Marshal output"],
  [("strTable", "string -> offset of its first occurrence", "marshalState")])

p("C09", "Containers are encoded completely, in order and with the right counts",
  "Encoding a slice, array, map or struct announces exactly the number of items that follow and then emits every element (or every key with its own value) exactly once, slices and arrays in index order, so that decoding yields the same elements at the same places for every length and nesting. An error while encoding any element makes the whole call fail instead of producing a shortened document.",
  ["inputs", "configurations"], "all values of unbounded length and nesting",
  "Round-trip tests use containers of a few elements and mostly no error paths.",
  ["encode.go"],
  [("encodeIntfArray, encodeStrMap, encodeArray, encodeMap, encodeStruct", "encode.go")], ["Marshal output"])

p("C10", "The recursion limit bounds every encoding",
  "With MaxRecursionDepth set to n, encoding a value whose containers and pointers nest deeper than the limit allows fails with the recursion-limit error, a value within the limit is encoded exactly as without a limit, and a limit of zero or less imposes no practical limit. Every container or pointer level consumes one unit of the limit, so self-referential values cannot recurse forever.",
  ["inputs", "configurations"], "all nesting depths, all limits, cyclic values",
  "One depth and one limit are tested per container kind at best; each recursive call site needs it.",
  ["encode.go"],
  [("remainingDepth bookkeeping in every container encoder", "encode.go"), ("remainingRecursion", "encode.go")], ["error of Marshal"])

p("C11", "Decoder and encoder outcomes do not depend on earlier calls",
  "The outcome of a decode or encode call depends only on its arguments and the public options of the Decoder or Encoder: earlier calls on the same object, including failed or panicking ones and calls on other documents, change neither what is accepted nor what is produced.",
  ["histories", "inputs"], "all histories of calls on one Decoder or Encoder",
  "Tests use a fresh object for nearly every call; the number of histories is unbounded.",
  ["decode.go", "encode.go", "tagscache.go"],
  [("tracked / copyDepth reset in UnmarshalHeaderBody", "decode.go"), ("marshalState per call", "encode.go"), ("tagsCache", "tagscache.go")], ["results of repeated calls"],
  [("copyDepth, tracked", "per-call decode state kept in the Decoder", "Decoder"), ("strTable, ptrTable", "per-call encode state", "marshalState")])

p("C12", "Compression framing is exact and only legal combinations are produced",
  "Every compressed body is framed as its document type prescribes (lengths as varints that equal the actual uncompressed and compressed sizes, followed by exactly the compressed bytes), and decompression reads back the same body, accepts trailing bytes only where the declared length allows, and rejects declared lengths that are negative or exceed the input. An encoder never labels a document with a type its protocol version does not define, and a body below the compression threshold is left uncompressed and labelled raw.",
  ["inputs", "configurations"], "all bodies and lengths, all compressors, all protocol versions",
  "Only a compressible array and a few version/compressor pairs are tested; lengths and malformed frames are not.",
  ["snappy.go", "zlib.go", "zlib_purego.go", "zstd.go", "encode.go", "decode.go"],
  [("compress / decompress of each compressor", "snappy.go, zlib.go, zstd.go"), ("type selection in MarshalWithHeader", "encode.go"), ("documentDecompressor", "decode.go")], ["Marshal output", "Unmarshal result"])

p("C13", "DecompressDocument changes the compression and nothing else",
  "For every document it accepts, DecompressDocument returns a raw document with the same magic, version, and header suffix, followed by exactly the decompressed body, whatever destination buffer is supplied (nil, empty, too small, or large); an uncompressed document comes back byte for byte. The input buffer is not modified.",
  ["inputs", "configurations"], "all documents and all destination buffers",
  "Tests use three destination sizes on one document.",
  ["decode.go"],
  [("DecompressDocument, hasSameBuffer", "decode.go")], ["DecompressDocument result"])

p("C14", "Untrusted bytes never crash the merger",
  "For every sequence of byte strings and every merger configuration, Append and Finish return normally with a result or an error and never die with a Go runtime panic.",
  ["inputs", "histories", "configurations"], "all sequences of appended byte strings, all merger options",
  "The repository's only merger tests are round trips of corpus documents and a benchmark.",
  ["merge.go"],
  [("bounds checks in buildTrackTable, mergeItems, readString, expectedElements", "merge.go")], ["return or panic of Append / Finish"])

p("C15", "Merging is faithful",
  "After any successful sequence of Append calls, Finish returns a document that decodes to the chosen top-level container holding the values of the appended documents, in order and unchanged, with back references and track bits of each document still designating the items they designated, whether or not deduplication, flattening or compression is on. A document that is incomplete or not understood is refused rather than merged.",
  ["inputs", "histories", "configurations"], "all sequences of valid documents, all merger options",
  "The number of documents, references across rewritten offsets and dedup interactions are unbounded; tests check none of them systematically.",
  ["merge.go"],
  [("mergeItems offset rewriting", "merge.go"), ("trackTable / strTable / objTable", "merge.go"), ("Finish length patching", "merge.go")], ["decoded output of Finish"],
  [("strTable, objTable", "string -> offset in the merged body", "Merger"), ("trackTable", "document offset -> merged offset", "mergerDoc")])

p("C16", "A rejected document leaves no trace in the merger",
  "When Append returns an error, the merger behaves afterwards exactly as if that call had not been made: its element count, its already merged bytes and the outcome of every later Append and Finish are those of the history without the failed call.",
  ["inputs", "histories"], "all failing documents at every failure point, followed by any further calls",
  "Requires a document that fails in the middle followed by one that shares strings with it.",
  ["merge.go"],
  [("rollback in Append", "merge.go")], ["output of Finish after a failed Append"],
  [("strTable, objTable, buf, length", "merge state", "Merger")])

p("C17", "Typed decoding agrees with untyped decoding",
  "Whenever decoding into a typed destination succeeds, every element of the destination that corresponds to an item of the document holds the value that untyped decoding yields for that item (converted to the element's type, when the type can represent it), slices and arrays in order, maps and structs by key, and items without a counterpart are skipped without disturbing their neighbours. A value that cannot be stored in the destination's kind is reported as an error.",
  ["inputs", "programs"], "all documents and all destination types",
  "Destination types and documents are both unbounded; tests use a dozen structs.",
  ["decode.go", "tagscache.go"],
  [("decodeViaReflection, decodeArrayViaReflection, decodeHashViaReflection", "decode.go"), ("setInt, setBinary", "decode.go")], ["destination after Unmarshal"])

p("C18", "Custom marshalled data is delivered verbatim",
  "Unless disabled, a value that implements BinaryMarshaler is encoded as a frozen object carrying its class name and exactly the bytes MarshalBinary returned, and decoding hands exactly those bytes to UnmarshalBinary of the registered or destination type, or returns them with the class name when there is none. An error from either hook is returned to the caller.",
  ["inputs", "programs"], "all payloads and class names, repeated classes, all decoder options",
  "Two types and a few payloads are tested.",
  ["encode.go", "decode.go"],
  [("BinaryMarshaler branch of encodeViaReflection", "encode.go"), ("decodeObjectFreezeViaReflection", "decode.go")], ["Marshal output", "bytes passed to UnmarshalBinary"])

p("C19", "Inputs are not modified and results do not alias the input buffer",
  "Encoding never writes to the value being encoded, decoding never writes to the document buffer, and merging never writes to an appended document. A decoded value never shares memory with the document buffer, so later changes to the buffer cannot change it.",
  ["inputs", "configurations"], "all documents, values and options",
  "Aliasing is invisible to tests that do not modify the buffer afterwards; none does.",
  ["decode.go", "encode.go", "merge.go"],
  [("copying in decodeBinary, setBinary, decodeRegexp", "decode.go")], ["input buffers after the call", "decoded value after changing the buffer"])

p("C20", "Independent calls share no mutable state",
  "The package-level functions and calls on distinct Encoder, Decoder and Merger objects write no package-level mutable state, so any number of goroutines may use them at the same time with the results of running them one after another.",
  ["schedules"], "all interleavings of calls on distinct objects",
  "No test runs two calls concurrently.",
  ["encode.go", "decode.go", "merge.go", "tagscache.go", "zlib_purego.go"],
  [("Marshal / Unmarshal package functions", "encode.go, decode.go"), ("zlib writer pools", "zlib_purego.go")], ["data races, results under concurrency"])

p("C21", "Pointer sharing never changes a value",
  "However pointers, slices, maps and strings inside a value share or overlap memory, each pointer decodes to a value equal to what it points to: a back reference to an earlier item is emitted only when that item encodes the very same pointee, and its offset designates that item's tag with the track bit set.",
  ["inputs"], "all pointer graphs, including overlapping slices, substrings and first fields",
  "Tests only share identical pointers.",
  ["encode.go"],
  [("encodePointer, getPointer", "encode.go")], ["Marshal output"],
  [("ptrTable", "pointee -> offset of its encoding", "marshalState")])

p("C22", "Encoding never crashes",
  "For every Go value and every combination of encoder options, Marshal and MarshalWithHeader return bytes or an error and never die with a Go runtime panic; values of unsupported kinds are reported as errors. (Stack exhaustion with an unlimited recursion depth and panics raised by user MarshalBinary hooks are outside this statement.)",
  ["inputs", "configurations", "programs"], "all Go values and options",
  "Tests encode a fixed list of supported values.",
  ["encode.go", "tagscache.go", "snappy.go", "zlib.go"],
  [("recover in MarshalWithHeader", "encode.go"), ("nil and kind handling in the reflection encoder", "encode.go")], ["return or panic of Marshal"])

p("C23", "Struct fields are mapped to keys by one rule on both sides",
  "A struct field takes part under its sereal tag if it has one, under its Go name if it is exported and untagged, and not at all if it is tagged \"-\" or unexported and untagged; the encoder writes exactly the participating fields, each under its key with its own value, and the decoder stores each key into exactly the field it belongs to, whichever struct types were used with the same Encoder or Decoder before.",
  ["inputs", "programs", "histories"], "all struct types and all orders of using them",
  "Tests use a few struct types with fresh objects.",
  ["tagscache.go", "encode.go", "decode.go"],
  [("tagsCache.Get", "tagscache.go"), ("encodeStruct", "encode.go"), ("struct branch of decodeHashViaReflection", "decode.go")], ["Marshal output", "destination after Unmarshal"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
