#!/usr/bin/env python3
"""The sources are written for a newer protobuf (string_view parse, pair insert into maps).  Write patched copies of the
two installed headers concerned to OUT/google/protobuf; they only add inline overloads."""
import os, sys
o = sys.argv[1] + '/google/protobuf'
os.makedirs(o, exist_ok=True)
s = open('/usr/include/google/protobuf/message_lite.h').read()
a = '  PROTOBUF_ATTRIBUTE_REINITIALIZES bool ParseFromString(ConstStringParam data);\n'
assert a in s
s = s.replace(a, a + '  template <typename SV_, typename = typename SV_::traits_type, typename = decltype(std::declval<SV_&>().remove_prefix(0))>\n'
              '  bool ParseFromString(const SV_& data) { return ParseFromArray(data.data(), static_cast<int>(data.size())); }\n')
open(o + '/message_lite.h', 'w').write(s)
s = open('/usr/include/google/protobuf/map.h').read()
a = '  std::pair<iterator, bool> insert(value_type&& value) {'
assert a in s
s = s.replace(a, '  template <typename K_, typename V_>\n  std::pair<iterator, bool> insert(std::pair<K_, V_>&& value) {\n'
              '    return try_emplace(std::move(value.first), std::move(value.second));\n  }\n' + a)
open(o + '/map.h', 'w').write(s)
