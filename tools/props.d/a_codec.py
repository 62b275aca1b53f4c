prop("C01", "Versioned key encoding is order-preserving, prefix-free and strictly invertible",
     "For all user keys and non-negative timestamps, encoded keys compare exactly as (user key ascending, timestamp descending), no encoded key is a prefix of another key's encoding, and a user key lies in a plain range iff its encoded form lies in the encoded range. Decoding an encoded key yields the original key and timestamp; decoding any byte string either succeeds on exactly the strings the encoder can produce or reports failure, and never aborts.",
     ["inputs"], "all byte strings as user keys, all non-negative 64-bit timestamps, all byte strings offered to the decoder",
     "Unit tests encode a handful of short keys; order and rejection must hold for every key, including 0x00/0xff runs and group-boundary lengths.",
     ["src/mvcc/codec.cc", "src/common/serial_helper.cc"],
     [("8-byte groups with pad marker", "src/mvcc/codec.cc EncodeBytes/DecodeBytes"), ("bit-inverted big-endian timestamp", "src/common/serial_helper.cc WriteLongWithNegation")],
     "generated keys vs independent reference encoder, order/round-trip/membership laws, mutated encodings vs canonicity oracle",
     "Millions of generated keys per run, biased to group boundaries and 0x00/0xff; not exhaustive.")
prop("C02", "Stored value envelope round-trips value, kind and expiry",
     "Packaging a user value as a live value, an expiring value or a deletion and unpackaging it through any of the entry points returns the same user bytes (empty for deletions), the same kind, and for expiring values the same expiry, whatever the value contains, including the empty value and values whose last bytes look like an envelope.",
     ["inputs"], "all byte strings as values, all 64-bit expiries, all kinds, all entry points",
     "Tests use a few ASCII values; the envelope is appended to arbitrary bytes and has parallel overloads that must agree.",
     ["src/mvcc/codec.cc"], [("trailing flag byte and ttl", "src/mvcc/codec.cc PackageValue/UnPackageValue/GetValueTTL")],
     "round-trip property over generated values, kinds and expiries through every overload", "Generated search; single-threaded pure functions.")
prop("C03", "Vector and document keys encode partition, id and field reversibly and in order",
     "For all prefixes, positive partitions, non-negative ids, field names and timestamps, building a vector or document key and decoding it (plain, encoded, or encoded with timestamp) returns the same components; encoded keys order by partition, then id, then newest timestamp first; a region's key range maps to exactly its id range. A generated tokenizer description is accepted back with the same column types, and damaged descriptions are rejected without failing the process.",
     ["inputs"], "all key components; generated and mutated tokenizer JSON",
     "Tests check fixed ids; the decoders have many overloads and length checks that only specific lengths reach.",
     ["src/vector/codec.cc", "src/document/codec.cc", "src/common/serial_helper.cc"],
     [("key packaging", "src/vector/codec.cc, src/document/codec.cc"), ("order-preserving integers", "src/common/serial_helper.cc")],
     "round-trip and order properties over generated components for both codecs", "Generated search over all overloads; the tokenizer library itself is a stand-in.")
prop("C04", "Key-range helper algebra is exact",
     "The successor bound of a prefix has the prefix's width and exceeds every key with that prefix and no other key of at least that width; a range given with inclusive or exclusive ends covers exactly the keys its ends describe; intersection, overlap, containment and validity of ranges agree with membership of keys; the computed middle key lies strictly between its ends whenever they differ as zero-extended numbers. Hex conversion round-trips, and region epochs that are ordered in every component compare in that order.",
     ["inputs"], "all keys and pairs of ranges, inclusive and exclusive ends",
     "Tests use fixed keys; ranges meet at equal ends, prefixes and 0xff tails where off-by-one errors hide.",
     ["src/common/helper.cc"], [("PrefixNext/TransformRangeWithOptions", "src/common/helper.cc"), ("IntersectRange/IsConflictRange/IsContainRange/CheckRange", "src/common/helper.cc"), ("CalculateMiddleKey", "src/common/helper.cc")],
     "generated keys and ranges vs set-membership oracle", "Generated search; two known deviations for ends with a 0xff tail are excluded by signature.")
