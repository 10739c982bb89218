H = 'what the contracts leave open of this property'
T = {
 'C01': ('proof', 'varint and appendTagVarint append the canonical form of any uint64 and keep the prefix; varintdecode reads any well-formed varint back, consumes exactly its bytes, and reports unterminated and over-long ones.', 'end to end through Marshal, Unmarshal and the merger.', []),
 'C02': ('proof', 'encodeInt emits the form of the specification for every integer kind and value; decodeInt, decodeVarint and decodeZigzag return exactly the number the specification assigns.', 'the reflective paths: named types, typed targets, json.Number.', []),
 'C03': ('proof', 'encodeFloat, encodeDouble, encodeString and encodeBytes append exactly the bytes of the specification; decodeFloat, decodeDouble and decodeBinary return exactly the encoded bits and consume exactly their bytes.', 'the reflective paths and typed targets.', []),
 'C04': ('proof', 'no index, slice, nil, conversion, division or allocation-size run-time error and no failed type assertion is reachable in any function of the decoder (header, body, decompressors) for any input; only non-runtime panics reach the recover of UnmarshalHeaderBody.', 'user hooks, reflection misuse (its panics are recovered), third-party decompressors.', ['user hooks do not raise run-time errors', 'the stack does not overflow (deeply nested documents)', 'snappy, zlib and zstd libraries do not panic']),
 'C05': ('proof', 'every decoding function consumes exactly the bytes of its item (a recursive layout defined on the bytes), yields the specified scalar, reads counted items in order into their places and keys with their own values, resolves COPY and back references at the stated offsets and resumes behind them; unknown tags are refused.', 'whole documents against an independent reference decoder.', []),
 'C06': ('proof', 'readHeader, checkHeader and documentDecompressor accept exactly the valid headers; UnmarshalHeaderBody and DecompressDocument use exactly that decision and the computed body start.', 'acceptance through the public entry points.', []),
 'C08': ('proof', 'encodeString and encodeBytes emit a COPY only when the table holds the string, at the recorded offset, and record the offset of the tag they append otherwise.', 'all key sequences through Marshal and the reference decoder.', []),
 'C09': ('proof', 'the loops of the container encoders visit every element in order, announce their count, keep what was written, and return the error of any element.', 'struct and map contents through the reference decoder.', []),
 'C10': ('proof', 'every recursive call of the encoder passes a smaller limit, a spent limit is reported as the recursion-limit error, and a limit of zero or less starts at the largest integer.', 'nesting of all container kinds against an independent depth count.', []),
 'C11': ('proof', 'the decoder starts every document with an empty track table and copy depth zero; nested decode functions restore them.', 'histories of calls on one Decoder or Encoder against fresh ones.', []),
 'C12': ('proof', 'MarshalWithHeader labels a document only with a type its version defines, exactly when the body reaches the threshold, and stores exactly the output of the compressor; the framing written by each compressor carries the lengths it claims; decompress rejects lengths outside the input; documentDecompressor admits only the types of the version.', 'all compressors, versions and body sizes end to end.', ['snappy, zlib and zstd round-trip (external libraries)']),
 'C13': ('proof', 'DecompressDocument keeps the header, writes the raw type, appends exactly the decompressed body; hasSameBuffer decides aliasing of the buffers.', 'all destination buffers end to end.', []),
 'C14': ('proof', 'no run-time error is reachable in Append, Finish and everything they call, for any input, merger state (under the invariant the contracts state) and configuration.', 'histories of Append calls with malformed documents.', ['snappy, zlib and zstd libraries do not panic']),
 'C15': ('proof', 'string reading, tag and varint writing, and the offset tables of the merger.', 'merged documents against an independent reference decoder.', []),
 'C16': ('proof', 'Append restores count, buffer and tables when it fails.', 'histories with failing documents against the history without them.', []),
 'C19': ('proof', 'decodeBinary and decodeRegexp return fresh memory when they must.', 'input buffers and values compared after the call and after overwriting the buffer.', []),
 'C21': ('proof', 'getPointer gives equal keys only to equal pointee type, address and length; encodePointer records them.', 'pointer graphs with overlap through the reference decoder.', []),
 'C22': ('proof', 'no run-time error is reachable in Marshal, MarshalWithHeader and the encoder functions for any value and option.', 'values of every kind, hooks, options.', ['user hooks do not raise run-time errors', 'the stack does not overflow with an unlimited recursion depth']),
 'C07': ('proof', 'MarshalWithHeader returns, for every version, header and body, exactly magic, version and type, the length of the suffix, the suffix, and the encoded (or compressed) body; header and body are encoded with separate, empty tables and their own offset base; Marshal passes its argument through.', 'that header and body decode to what was passed in, for generated values.', ['protocol versions are those the constructors give (1 to 3)']),
 'C17': ('proof', 'every function of the typed decoder consumes exactly the bytes of its item, hands element i, the value of a key, or the field of a key to the decoding of that item, and stores exactly the decoded number, string or bytes.', 'typed against untyped decoding of generated documents.', []),
 'C18': ('proof', 'encodeViaReflection emits OBJECT_FREEZE, the class name of the value and exactly the bytes MarshalBinary returned; decodeObjectFreezeViaReflection passes exactly the decoded bytes to UnmarshalBinary of the destination or registered type, or returns them with the class name; errors of both hooks are returned unchanged.', 'payloads, names and destinations end to end.', []),
 'C20': ('proof', 'no function of the package writes a package-level variable or anything reached from one.', 'concurrent calls on distinct objects under the race detector, results compared with a sequential run.', ['sync.Pool and the external compressors are safe for concurrent use']),
 'C23': ('proof', 'tagsCache.Get maps exactly the participating fields of the struct type, each by the rule, and caches under that type; encodeStruct writes exactly its entries, each key with the value of its field; decodeHashViaReflection stores each key into the field the table gives.', 'struct types in all orders through one Encoder and Decoder.', ['a cached table is the one tagsCache.Get stored (the cache is private)']),
}
NA = {}
