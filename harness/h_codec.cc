// C01 key codec, C02 value envelope, C03 vector/document key codec, C04 key-range helpers
#include <glog/logging.h>
#include <nlohmann/json.hpp>

#include "common/helper.h"
#include "common/serial_helper.h"
#include "document/codec.h"
#include "mvcc/codec.h"
#include "vector/codec.h"
#include "vt.h"

using namespace dingodb;
using vt::Hex;
using vt::Src;
namespace {
std::string Key(Src& s, size_t maxlen = 40) { return s.Bytes(maxlen); }
// a key related to k: truncated, extended, one byte changed
std::string Near(Src& s, const std::string& k) {
  std::string r = k;
  switch (s.Below(6)) {
    case 0: if (!r.empty()) r.resize(s.Below(r.size())); break;
    case 1: r += (char)s.OneOf<int>({0, 0xff, 1, 'a'}); break;
    case 2: r += std::string(s.Range(1, 10), (char)s.OneOf<int>({0, 0xff})); break;
    case 3: if (!r.empty()) r[s.Below(r.size())] ^= (char)(1 << s.Below(8)); break;
    case 4: if (!r.empty()) r.back() = (char)s.OneOf<int>({0, 0xff, 0xf7, 0xf8, 8}); break;
    default: break;
  }
  return r;
}
int64_t Ts(Src& s) {
  int64_t v = s.Int64();
  return v < 0 ? (v == INT64_MIN ? INT64_MAX : -v) : v;
}
// independent model of the memcomparable encoding
std::string RefEncode(const std::string& k) {
  std::string r;
  size_t i = 0;
  while (true) {
    size_t n = std::min<size_t>(8, k.size() - i);
    r += k.substr(i, n);
    r += std::string(8 - n, '\0');
    r += (char)(255 - (8 - n));
    if (n < 8) return r;
    i += 8;
  }
}
std::string Be(uint64_t v) {
  std::string r;
  for (int i = 7; i >= 0; i--) r += (char)(v >> (8 * i));
  return r;
}
int Sgn(int x) { return x < 0 ? -1 : x > 0; }
}  // namespace

VT_PROPERTY("C01", 12000000, 400000000,
            "random and adversarial (0x00/0xff, group-boundary, prefix-related) user keys and timestamps; non-trivial = key "
            "longer than one 8-byte group, or a related pair of distinct keys, or a malformed encoded key");

VT_SUB("C01", "roundtrip", 3) {
  std::string k = Key(s, s.Chance(1, 20) ? 300 : 40);
  int64_t ts = Ts(s);
  s.Note("key=" + Hex(k) + " ts=" + std::to_string(ts));
  if (k.size() >= 8) s.NonTrivial(k);
  std::string e = mvcc::Codec::EncodeBytes(k), e2, e3;
  mvcc::Codec::EncodeBytes(k, e2);
  mvcc::Codec::EncodeBytes(std::string_view(k), e3);
  VT_CHECK(e == RefEncode(k) && e == e2 && e == e3, "encode-format", Hex(k) << " -> " << Hex(e));
  std::string d = "junk";
  VT_CHECK(mvcc::Codec::DecodeBytes(e, d) && d == k, "bytes-roundtrip", Hex(k) << " decoded " << Hex(d));
  d = "junk";
  VT_CHECK(mvcc::Codec::DecodeBytes(std::string_view(e), d) && d == k, "bytes-roundtrip", Hex(k));
  std::string ek = mvcc::Codec::EncodeKey(k, ts), ek2 = mvcc::Codec::EncodeKey(std::string_view(k), ts);
  VT_CHECK(ek == ek2 && ek == e + Be(~(uint64_t)ts), "key-format", Hex(ek));
  int64_t t2 = -1;
  d = "junk";
  VT_CHECK(mvcc::Codec::DecodeKey(ek, d, t2) && d == k && t2 == ts, "key-roundtrip", Hex(k) << " " << ts << " got " << Hex(d) << " " << t2);
  d = "junk";
  t2 = -1;
  VT_CHECK(mvcc::Codec::DecodeKey(std::string_view(ek), d, t2) && d == k && t2 == ts, "key-roundtrip", Hex(k));
  d = "x";
  VT_CHECK(mvcc::Codec::DecodeKey(ek, d) && d == k, "key-roundtrip", Hex(k));
  d = "x";
  VT_CHECK(mvcc::Codec::DecodeKey(std::string_view(ek), d) && d == k, "key-roundtrip", Hex(k));
  VT_CHECK(mvcc::Codec::TruncateTsForKey(ek) == e && mvcc::Codec::TruncateTsForKey(std::string_view(ek)) == e, "truncate", Hex(ek));
  VT_CHECK(mvcc::Codec::TruncateKeyForTs(ek) == ts && mvcc::Codec::TruncateKeyForTs(std::string_view(ek)) == ts, "truncate", Hex(ek));
  std::vector<std::string> ks{k, Key(s), Key(s)};
  auto es = mvcc::Codec::EncodeKeys(ts, ks);
  VT_CHECK(es.size() == 3, "encode-keys", es.size());
  for (int i = 0; i < 3; i++) VT_CHECK(es[i] == mvcc::Codec::EncodeKey(ks[i], ts), "encode-keys", i);
}

VT_SUB("C01", "order", 4) {
  std::string a = Key(s), b = s.Chance(3, 4) ? Near(s, a) : Key(s);
  int64_t ta = Ts(s), tb = s.Bool() ? Ts(s) : ta;
  s.Note("a=" + Hex(a) + "@" + std::to_string(ta) + " b=" + Hex(b) + "@" + std::to_string(tb));
  if (a != b || ta != tb) s.NonTrivial(a + "|" + b);
  if (a != b && (a.rfind(b, 0) == 0 || b.rfind(a, 0) == 0)) s.Tag("prefix-pair");
  std::string ea = mvcc::Codec::EncodeBytes(a), eb = mvcc::Codec::EncodeBytes(b);
  VT_CHECK(Sgn(ea.compare(eb)) == Sgn(a.compare(b)), "order-bytes", Hex(a) << " vs " << Hex(b));
  int want = Sgn(a.compare(b));
  if (want == 0) want = ta > tb ? -1 : ta < tb ? 1 : 0;  // newest first within a key
  int got = Sgn(mvcc::Codec::EncodeKey(a, ta).compare(mvcc::Codec::EncodeKey(b, tb)));
  VT_CHECK(got == want, "order-key-ts", Hex(a) << "@" << ta << " vs " << Hex(b) << "@" << tb << " got " << got << " want " << want);
  if (a != b)  // no key's version block interleaves with, or is a prefix of, another's
    VT_CHECK(ea.rfind(eb, 0) != 0 && eb.rfind(ea, 0) != 0, "prefix-free", Hex(a) << " " << Hex(b));
}

VT_SUB("C01", "range", 2) {
  std::string a = Key(s), b = Near(s, a), k = s.Bool() ? Near(s, a) : Near(s, b);
  if (b < a) std::swap(a, b);
  int64_t ts = Ts(s);
  pb::common::Range r, r2;
  r.set_start_key(a);
  r.set_end_key(b);
  s.Note("range [" + Hex(a) + "," + Hex(b) + ") key " + Hex(k));
  if (a != b) s.NonTrivial(a + "|" + b + "|" + k);
  auto er = mvcc::Codec::EncodeRange(r), er2 = mvcc::Codec::EncodeRange(a, b);
  VT_CHECK(er.start_key() == er2.start_key() && er.end_key() == er2.end_key(), "encode-range", "overloads differ");
  auto dr = mvcc::Codec::DecodeRange(er);
  VT_CHECK(dr.start_key() == a && dr.end_key() == b, "range-roundtrip", Hex(a) << " " << Hex(b));
  std::string ek = mvcc::Codec::EncodeKey(k, ts);
  bool in = a <= k && k < b, ein = er.start_key() <= ek && ek < er.end_key();
  VT_CHECK(in == ein, "range-membership", Hex(k) << "@" << ts << " in [" << Hex(a) << "," << Hex(b) << ") plain=" << in << " encoded=" << ein);
}

VT_SUB("C01", "malformed", 3) {
  std::string k = Key(s, 24);
  std::string e = s.Chance(3, 4) ? mvcc::Codec::EncodeBytes(k) : s.Bytes(36);
  int n = (int)s.Range(0, 3);
  for (int i = 0; i < n; i++) {
    switch (s.Below(7)) {
      case 0: if (!e.empty()) e.back() = (char)s.Below(256); break;
      case 1: if (!e.empty()) e[s.Below(e.size())] = (char)s.Below(256); break;
      case 2: e += mvcc::Codec::EncodeBytes(Key(s, 10)); break;
      case 3: e.resize(e.size() / 9 * 9); break;
      case 4: if (e.size() >= 9) e[s.Below(e.size() / 9) * 9 + 8] = (char)s.OneOf<int>({0xff, 0xf7, 0xf6, 0xfe, 0, 0xf8, 0x7f}); break;
      case 5: if (!e.empty()) e.resize(s.Below(e.size())); break;
      default: e.resize(e.size() + s.Range(1, 9)); break;
    }
  }
  bool canon = false;
  // canonical iff some key encodes to it
  std::string dec;
  if (!e.empty() && e.size() % 9 == 0) {
    canon = true;
    for (size_t i = 0; i < e.size(); i += 9) {
      int pad = 255 - (unsigned char)e[i + 8];
      bool last = i + 9 == e.size();
      if (last ? (pad < 1 || pad > 8) : pad != 0) { canon = false; break; }
      for (int j = 8 - pad; j < 8; j++) if (e[i + j]) canon = false;
      if (!canon) break;
      dec += e.substr(i, 8 - pad);
    }
  }
  s.Note("encoded=" + Hex(e, 80) + (canon ? " canonical" : " malformed"));
  s.NonTrivial(e);
  s.Tag(canon ? "canonical" : "malformed");
  std::string out = "zz";
  bool ok = false;
  if (!e.empty()) {
    try {
      ok = mvcc::Codec::DecodeBytes(e, out);
    } catch (std::exception& x) {
      vt::Failf("decode-throws", "decoding " + Hex(e, 80) + " threw " + x.what());
    }
    VT_CHECK(ok == canon, "decode-accepts", "decode(" << Hex(e, 80) << ")=" << ok << " but canonical=" << canon << " out=" << Hex(out));
    if (ok) VT_CHECK(out == dec, "decode-value", Hex(e, 80));
  }
  std::string ek = e + Be(~(uint64_t)Ts(s));
  int64_t ts;
  out = "zz";
  try {
    ok = mvcc::Codec::DecodeKey(ek, out, ts);
  } catch (std::exception& x) {
    vt::Failf("decode-throws", "decoding key " + Hex(ek, 80) + " threw " + x.what());
  }
  VT_CHECK(ok == canon, "decode-accepts", "decode key(" << Hex(ek, 80) << ")=" << ok << " canonical=" << canon);
}

VT_PROPERTY("C02", 8000000, 200000000,
            "random values (including empty, and values ending in bytes that look like flags), flags and expiry times through every "
            "packaging entry point; non-trivial = expiring value, or a value whose tail looks like an envelope");
namespace {
void CheckPkg(const std::string& p, mvcc::ValueFlag f, const std::string& v, int64_t ttl, const char* how) {
  auto sv = std::string_view(p);
  std::string want = f == mvcc::ValueFlag::kDelete ? "" : v;
  VT_CHECK(!p.empty(), "pkg-empty", how);
  VT_CHECK(mvcc::Codec::GetValueFlag(p) == f && mvcc::Codec::GetValueFlag(sv) == f, "flag", how << " " << Hex(p));
  VT_CHECK(mvcc::Codec::UnPackageValue(p) == want, "unpackage", how << " " << Hex(p) << " got " << Hex(std::string(mvcc::Codec::UnPackageValue(p))));
  VT_CHECK(mvcc::Codec::UnPackageValue(sv) == want, "unpackage", how << " " << Hex(p));
  mvcc::ValueFlag f2;
  int64_t t2 = -7;
  auto u = mvcc::Codec::UnPackageValue(sv, f2, t2);
  VT_CHECK(u == want && f2 == f && t2 == (f == mvcc::ValueFlag::kPutTTL ? ttl : 0), "unpackage-full", how << " " << Hex(p) << " ttl " << t2 << " want " << ttl);
  std::string ip = p;
  mvcc::Codec::UnPackageValueInPlace(ip);
  VT_CHECK(ip == want, "unpackage-inplace", how << " " << Hex(p));
  if (f == mvcc::ValueFlag::kPutTTL) {
    VT_CHECK(mvcc::Codec::GetValueTTL(sv) == ttl, "ttl-view", how << " " << Hex(p) << " want " << ttl);
    VT_CHECK(mvcc::Codec::GetValueTTL(p) == ttl, "ttl-string", how << " " << Hex(p) << " want " << ttl);
  }
}
}  // namespace
VT_SUB("C02", "envelope", 1) {
  std::string v = s.Bytes(40);
  if (s.Chance(1, 3)) v += (char)s.Below(4);
  int64_t ttl = s.Int64(), ts = Ts(s);
  std::string k = Key(s, 20);
  auto f = (mvcc::ValueFlag)s.Below(3);
  s.Note("value=" + Hex(v) + " flag=" + std::to_string((int)f) + " ttl=" + std::to_string(ttl) + " key=" + Hex(k));
  s.Tag("flag" + std::to_string((int)f));
  if (f == mvcc::ValueFlag::kPutTTL || (!v.empty() && (unsigned char)v.back() < 3)) s.NonTrivial(v + std::to_string((int)f));
  std::string out;
  mvcc::Codec::PackageValue(f, ttl, v, out);
  CheckPkg(out, f, v, ttl, "pkg(flag,ttl,v,out)");
  std::string ip = v;
  mvcc::Codec::PackageValue(f, ttl, ip);
  CheckPkg(ip, f, v, ttl, "pkg(flag,ttl,inout)");
  out.clear();
  mvcc::Codec::PackageValue(f, v, out);
  CheckPkg(out, f, v, 0, "pkg(flag,v,out)");
  if (f != mvcc::ValueFlag::kPutTTL) {
    ip = v;
    mvcc::Codec::PackageValue(f, ip);
    CheckPkg(ip, f, v, 0, "pkg(flag,inout)");
  }
  pb::common::KeyValue kv;
  kv.set_key(k);
  kv.set_value(v);
  std::string ek = mvcc::Codec::EncodeKey(k, ts);
  std::vector<pb::common::KeyValue> kvs(s.Range(1, 3), kv), kvs2 = kvs;
  std::vector<pb::common::KeyValue> outs;
  pb::common::KeyValue one;
  if (f == mvcc::ValueFlag::kPut) {
    one = mvcc::Codec::EncodeKeyValueWithPut(ts, kv);
    outs = mvcc::Codec::EncodeKeyValuesWithPut(ts, std::as_const(kvs));
    mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs2);
  } else if (f == mvcc::ValueFlag::kPutTTL) {
    one = mvcc::Codec::EncodeKeyValueWithPutTTL(ts, ttl, kv);
    outs = mvcc::Codec::EncodeKeyValuesWithTTL(ts, ttl, std::as_const(kvs));
    mvcc::Codec::EncodeKeyValuesWithTTL(ts, ttl, kvs2);
  } else {
    one = mvcc::Codec::EncodeKeyValueWithDelete(ts, kv);
    outs = mvcc::Codec::EncodeKeyValuesWithDelete(ts, std::as_const(kvs));
    mvcc::Codec::EncodeKeyValuesWithDelete(ts, kvs2);
  }
  VT_CHECK(outs.size() == kvs.size(), "kvs-count", outs.size());
  outs.push_back(one);
  outs.insert(outs.end(), kvs2.begin(), kvs2.end());
  for (auto& x : outs) {
    VT_CHECK(x.key() == ek, "kv-key", Hex(x.key()));
    CheckPkg(x.value(), f, v, ttl, "encodekv");
  }
}

VT_PROPERTY("C03", 6000000, 150000000,
            "random prefix byte, partition id, entity id, scalar key and timestamp for vector and document keys; pairs differ in one component "
            "in 3/4 of cases; non-trivial = distinct pair or keys carrying a scalar part");
namespace {
struct VecT {
  static constexpr const char* n = "vector";
  using C = VectorCodec;
  template <class... A> static std::string Pack(A... a) { return C::PackageVectorKey(a...); }
  template <class... A> static std::string Enc(A... a) { return C::EncodeVectorKey(a...); }
  static int64_t Un(const std::string& k) { return C::UnPackageVectorId(k); }
  static int64_t DecId(const std::string& k) { return C::DecodeVectorIdFromEncodeKey(k); }
  static int64_t DecIdTs(const std::string& k) { return C::DecodeVectorIdFromEncodeKeyWithTs(k); }
  static void Range(bool e, const pb::common::Range& r, int64_t& a, int64_t& b) { C::DecodeRangeToVectorId(e, r, a, b); }
  static bool Legal(int64_t i) { return C::IsLegalVectorId(i); }
};
struct DocT {
  static constexpr const char* n = "document";
  using C = DocumentCodec;
  template <class... A> static std::string Pack(A... a) { return C::PackageDocumentKey(a...); }
  template <class... A> static std::string Enc(A... a) { return C::EncodeDocumentKey(a...); }
  static int64_t Un(const std::string& k) { return C::UnPackageDocumentId(k); }
  static int64_t DecId(const std::string& k) { return C::DecodeDocumentIdFromEncodeKey(k); }
  static int64_t DecIdTs(const std::string& k) { return C::DecodeDocumentIdFromEncodeKeyWithTs(k); }
  static void Range(bool e, const pb::common::Range& r, int64_t& a, int64_t& b) { C::DecodeRangeToDocumentId(e, r, a, b); }
  static bool Legal(int64_t i) { return C::IsLegalDocumentId(i); }
};
template <class T>
void VecCase(Src& s) {
  using C = typename T::C;
  char p = (char)s.OneOf<int>({'r', 'w', 't', 1, 2, 0xff, 0x80});
  int64_t part = std::max<int64_t>(1, Ts(s)), id = Ts(s), ts = Ts(s);
  std::string sk = s.Bytes(20);
  if (sk.empty()) sk = "k";
  s.Note(std::string(T::n) + " prefix=" + std::to_string((int)(unsigned char)p) + " part=" + std::to_string(part) + " id=" + std::to_string(id) + " ts=" + std::to_string(ts) + " scalar=" + Hex(sk));
  s.NonTrivial(sk + std::to_string(id) + "/" + std::to_string(part));
  std::string p1 = T::Pack(p, part), p2 = T::Pack(p, part, id), p3 = T::Pack(p, part, id, sk);
  for (auto* k : {&p1, &p2, &p3}) {
    VT_CHECK(C::UnPackagePartitionId(*k) == part, "plain-part", T::n << Hex(*k));
    VT_CHECK(T::Un(*k) == (k == &p1 ? 0 : id), "plain-id", T::n << Hex(*k));
    VT_CHECK((*k)[0] == p, "plain-prefix", Hex(*k));
    VT_CHECK(C::IsValidKey(*k), "valid-key", Hex(*k));
    std::string e = mvcc::Codec::EncodeBytes(*k), et = mvcc::Codec::EncodeKey(*k, ts);
    VT_CHECK(e == (k == &p1 ? T::Enc(p, part) : k == &p2 ? T::Enc(p, part, id) : T::Enc(p, part, id, sk)), "enc", T::n << Hex(*k));
    if (k != &p1) VT_CHECK(et == (k == &p2 ? T::Enc(p, part, id, ts) : T::Enc(p, part, id, sk, ts)), "enc-ts", T::n << Hex(*k));
    VT_CHECK(C::DecodePartitionIdFromEncodeKey(e) == part && C::DecodePartitionIdFromEncodeKeyWithTs(et) == part, "dec-part", Hex(e));
    VT_CHECK(T::DecId(e) == (k == &p1 ? 0 : id) && T::DecIdTs(et) == (k == &p1 ? 0 : id), "dec-id", T::n << Hex(e));
    VT_CHECK(C::TruncateTsForKey(et) == e && C::TruncateTsForKey(std::string_view(et)) == e, "trunc", Hex(et));
    VT_CHECK(C::TruncateKeyForTs(et) == ts && C::TruncateKeyForTs(std::string_view(et)) == ts, "trunc-ts", Hex(et));
    int64_t a = -1, b = -1;
    C::DecodeFromEncodeKey(e, a, b);
    VT_CHECK(a == part && b == (k == &p1 ? 0 : id), "dec-both", Hex(e));
    a = b = -1;
    C::DecodeFromEncodeKeyWithTs(et, a, b);
    VT_CHECK(a == part && b == (k == &p1 ? 0 : id), "dec-both-ts", Hex(et));
    if (k == &p3) {
      std::string sc;
      VT_CHECK(C::UnPackageScalarKey(*k) == sk && C::DecodeScalarKeyFromEncodeKey(e) == sk && C::DecodeScalarKeyFromEncodeKeyWithTs(et) == sk, "scalar", Hex(*k));
      C::DecodeFromEncodeKey(e, a, b, sc);
      VT_CHECK(sc == sk && a == part && b == id, "scalar3", Hex(*k));
      sc.clear();
      C::DecodeFromEncodeKeyWithTs(et, a, b, sc);
      VT_CHECK(sc == sk && a == part && b == id, "scalar3-ts", Hex(*k));
    }
  }
  // order agrees with (partition, id, scalar, newest first)
  int64_t partb = s.Bool() ? part : std::max<int64_t>(1, Ts(s)), idb = s.Bool() ? id : Ts(s), tsb = s.Bool() ? ts : Ts(s);
  auto cmp = [](auto x, auto y) { return x < y ? -1 : y < x ? 1 : 0; };
  int want = cmp(part, partb) ? cmp(part, partb) : cmp(id, idb) ? cmp(id, idb) : cmp(tsb, ts);
  VT_CHECK(Sgn(T::Enc(p, part, id, ts).compare(T::Enc(p, partb, idb, tsb))) == want, "order", T::n << part << "/" << id << "@" << ts << " vs " << partb << "/" << idb << "@" << tsb);
  // id range of a region range
  pb::common::Range r;
  int64_t lo = std::min(id, idb), hi = std::max(id, idb);
  bool whole = s.Bool();
  if (part == INT64_MAX) return;
  r.set_start_key(s.Bool() && whole ? T::Pack(p, part) : T::Pack(p, part, lo));
  r.set_end_key(whole ? T::Pack(p, part + 1) : T::Pack(p, part, hi));
  int64_t wlo = r.start_key().size() == 9 ? 0 : lo, whi = whole ? INT64_MAX : hi, a, b;
  T::Range(false, r, a, b);
  VT_CHECK(a == wlo && b == whi, "range-ids", T::n << " got " << a << "," << b << " want " << wlo << "," << whi);
  T::Range(true, mvcc::Codec::EncodeRange(r), a, b);
  VT_CHECK(a == wlo && b == whi, "range-ids-enc", T::n << " got " << a << "," << b << " want " << wlo << "," << whi);
  VT_CHECK(T::Legal(id) == (id > 0 && id != INT64_MAX), "legal-id", id);
}
}  // namespace
VT_SUB("C03", "vector", 4) { VecCase<VecT>(s); }
VT_SUB("C03", "document", 4) { VecCase<DocT>(s); }
VT_SUB("C03", "tokenizer-json", 1) {
  std::map<std::string, TokenizerType> in, out;
  int n = (int)s.Range(1, 4);
  using E = TokenizerType;
  for (int i = 0; i < n; i++)
    in["c" + std::to_string(s.Below(6))] = s.OneOf({E::kTokenizerTypeText, E::kTokenizerTypeI64, E::kTokenizerTypeF64, E::kTokenizerTypeBytes, E::kTokenizerTypeDateTime, E::kTokenizerTypeBool});
  std::string js, err;
  bool speed = s.Bool();
  VT_CHECK(speed ? DocumentCodec::GenDefaultTokenizerJsonParameterForVectorIndexWithDocumentSpeedup(in, js, err) : DocumentCodec::GenDefaultTokenizerJsonParameter(in, js, err), "tok-gen", err);
  s.Note("json " + js);
  s.NonTrivial(js);
  bool ok = speed ? DocumentCodec::IsValidTokenizerJsonParameterForVectorIndexWithDocumentSpeedup(js, out, err) : DocumentCodec::IsValidTokenizerJsonParameter(js, out, err);
  VT_CHECK(ok && in == out, "tok-roundtrip", js << " err=" << err);
  // arbitrary / damaged json is accepted or rejected, never fatal
  auto j = nlohmann::json::parse(js);
  auto& col = j.begin().value();
  switch (s.Below(8)) {
    case 0: col = s.Range(0, 5); break;
    case 1: col.erase("tokenizer"); break;
    case 2: col["tokenizer"] = nlohmann::json::array({1, "x"}); break;
    case 3: col["tokenizer"]["type"] = s.Range(0, 3); break;
    case 4: col["tokenizer"]["type"] = "bogus"; break;
    case 5: col["tokenizer"]["type"] = "ngram"; col["tokenizer"]["min_gram"] = s.Range(0, 3); if (s.Bool()) col["tokenizer"]["max_gram"] = s.Range(0, 3); break;
    case 6: js = js.substr(0, s.Below(js.size())); break;
    default: j = nlohmann::json::array({j}); break;
  }
  bool text = s.Bool();
  std::string bad = text ? js.substr(0, s.Below(js.size() + 1)) : j.dump();
  out.clear();
  s.Note("damaged " + bad);
  try {
    DocumentCodec::IsValidTokenizerJsonParameter(bad, out, err);
    DocumentCodec::IsValidTokenizerJsonParameterForVectorIndexWithDocumentSpeedup(bad, out, err);
  } catch (std::exception& e) {
    vt::Failf("tok-throws", std::string(e.what()) + " for " + bad);
  }
}

VT_PROPERTY("C04", 8000000, 250000000,
            "random and near-equal keys and ranges; non-trivial = ranges that overlap or touch, keys with 0xff tails, pairs with a key strictly between");
namespace {
pb::common::Range R(const std::string& a, const std::string& b) {
  pb::common::Range r;
  r.set_start_key(a);
  r.set_end_key(b);
  return r;
}
}  // namespace
VT_SUB("C04", "prefix-next", 2) {
  std::string k = s.Bytes(12);
  if (s.Bool()) k += std::string(s.Range(0, 4), '\xff');
  std::string q = Near(s, k);
  if (s.Bool()) q = k + s.Bytes(6);
  s.Note("k=" + Hex(k) + " q=" + Hex(q));
  std::string n = Helper::PrefixNext(k), n2 = Helper::PrefixNext(std::string_view(k));
  VT_CHECK(n == n2, "overload", Hex(k));
  if (s.Chance(1, 8)) q = n.substr(0, n.find_last_not_of('\0') + 1 + s.Below(2));
  if (k.find_first_not_of('\xff') == std::string::npos) {
    s.Tag("all-ff");
    VT_CHECK(n == k, "all-ff", Hex(k) << " -> " << Hex(n));
    return;
  }
  s.NonTrivial(k + "|" + q);
  bool has = q.rfind(k, 0) == 0;
  // the bound keeps the prefix's width, so only keys at least that long are separated exactly
  auto trunc = [](const std::string& q, const std::string& n) { return q.size() < n.size() && n.rfind(q, 0) == 0 && n.find_first_not_of('\0', q.size()) == std::string::npos; };
  VT_CHECK(n.size() == k.size() && n > k, "prefix-next-width", Hex(k) << " " << Hex(n));
  if (q >= k && !trunc(q, n)) VT_CHECK((q < n) == has, "prefix-next", Hex(k) << " next " << Hex(n) << " q " << Hex(q));
  // with/without end points
  pb::common::RangeWithOptions o;
  std::string k2 = Near(s, k);
  if (k2.find_first_not_of('\xff') == std::string::npos) return;
  o.mutable_range()->set_start_key(k);
  o.mutable_range()->set_end_key(k2);
  o.set_with_start(s.Bool());
  o.set_with_end(s.Bool());
  auto t = Helper::TransformRangeWithOptions(o);
  bool in = t.start_key() <= q && q < t.end_key();
  bool below_start = o.with_start() ? q < k : (q < k || q.rfind(k, 0) == 0);
  bool above_end = o.with_end() ? !(q < k2 || q.rfind(k2, 0) == 0) : q >= k2;
  if (o.with_end() && trunc(q, t.end_key()) && k2.back() == '\xff' && q > k2)
    VT_CHECK(in == (!below_start && !above_end), "inclusive-end-ff-truncated-key", Hex(k) << "," << Hex(k2) << " q=" << Hex(q));
  if (!o.with_start() && trunc(q, t.start_key()) && k.back() == '\xff' && q > k)
    VT_CHECK(in == (!below_start && !above_end), "exclusive-start-ff-truncated-key", Hex(k) << "," << Hex(k2) << " q=" << Hex(q));
  VT_CHECK(in == (!below_start && !above_end), "range-options", Hex(k) << (o.with_start() ? "[" : "(") << Hex(k2) << (o.with_end() ? "]" : ")") << " q=" << Hex(q) << " in=" << in);
}
VT_SUB("C04", "ranges", 2) {
  std::vector<std::string> p;
  std::string base = s.Bytes(6);
  for (int i = 0; i < 5; i++) p.push_back(s.Bool() ? Near(s, base) : s.Bytes(4));
  auto r1 = R(std::min(p[0], p[1]), std::max(p[0], p[1])), r2 = R(std::min(p[2], p[3]), std::max(p[2], p[3]));
  std::string q = p[s.Below(5)];
  auto in = [](const pb::common::Range& r, const std::string& k) { return r.start_key() <= k && k < r.end_key(); };
  auto i = Helper::IntersectRange(r1, r2);
  s.Note("[" + Hex(r1.start_key()) + "," + Hex(r1.end_key()) + ") & [" + Hex(r2.start_key()) + "," + Hex(r2.end_key()) + ") q=" + Hex(q));
  VT_CHECK(in(i, q) == (in(r1, q) && in(r2, q)), "intersect", Hex(q));
  bool e1 = r1.start_key() == r1.end_key(), e2 = r2.start_key() == r2.end_key();
  if (!e1 && !e2) {
    bool conflict = std::max(r1.start_key(), r2.start_key()) < std::min(r1.end_key(), r2.end_key());
    if (conflict) s.NonTrivial(r1.start_key() + "|" + r1.end_key() + "|" + r2.start_key() + "|" + r2.end_key());
    VT_CHECK(Helper::IsConflictRange(r1, r2) == conflict, "conflict", "");
    VT_CHECK(Helper::IsConflictRange(r2, r1) == conflict, "conflict-sym", "");
    VT_CHECK(Helper::IsContainRange(r1, r2) == (r1.start_key() <= r2.start_key() && r2.end_key() <= r1.end_key()), "contain", "");
  }
  VT_CHECK(Helper::InvalidRange(r1) == e1, "invalid", "");
  VT_CHECK(Helper::InvalidRange(R(r1.end_key(), r1.start_key())), "invalid-rev", "");
  bool good = !r1.start_key().empty() && !r1.end_key().empty() && r1.start_key() < r1.end_key();
  VT_CHECK(Helper::CheckRange(r1).ok() == good, "check-range", "");
  VT_CHECK(Helper::CheckRange(R(r1.end_key(), r1.start_key())).ok() == false, "check-range-rev", "");
}
VT_SUB("C04", "middle", 2) {
  std::string a = s.Bytes(10), b = s.Bool() ? Near(s, a) : s.Bytes(10);
  if (b < a) std::swap(a, b);
  size_t L = std::max(a.size(), b.size());
  std::string pa = a, pb_ = b;
  pa.resize(L, 0);
  pb_.resize(L, 0);
  s.Note("mid of " + Hex(a) + " " + Hex(b));
  if (pa >= pb_) return;  // nothing numerically between
  s.NonTrivial(a + "|" + b);
  std::string m = Helper::CalculateMiddleKey(a, b);
  VT_CHECK(a < m && m < b, "middle", Hex(a) << " < " << Hex(m) << " < " << Hex(b));
}
VT_SUB("C04", "hex-epoch", 1) {
  std::string k = s.Bytes(30);
  s.Note("hex " + Hex(k));
  s.NonTrivial(k);
  std::string h = Helper::StringToHex(k);
  VT_CHECK(h == Helper::StringToHex(std::string_view(k)) && h.size() == 2 * k.size(), "hex", h);
  VT_CHECK(Helper::HexToString(h) == k, "hex-roundtrip", h);
  pb::common::RegionEpoch a, b;
  a.set_version(s.Range(0, 3)); b.set_version(s.Range(0, 3));
  a.set_conf_version(s.Range(0, 3)); b.set_conf_version(s.Range(0, 3));
  auto A = std::make_pair(a.version(), a.conf_version()), B = std::make_pair(b.version(), b.conf_version());
  int ab = Helper::CompareRegionEpoch(a, b), ba = Helper::CompareRegionEpoch(b, a);
  bool comparable = (A.first <= B.first && A.second <= B.second) || (A.first >= B.first && A.second >= B.second);
  if (comparable) VT_CHECK(ab == -ba, "epoch-antisym", ab << " " << ba);
  VT_CHECK((ab == 0) == (A == B), "epoch-eq", "");
  VT_CHECK(Helper::IsEqualRegionEpoch(a, b) == (A == B), "epoch-eq2", "");
  if (A.first <= B.first && A.second <= B.second && A != B) VT_CHECK(ab < 0, "epoch-order", ab);
  std::set<int64_t> st;
  int64_t base = s.Bool() ? s.Range(-5, 5) : Ts(s) / 2;
  int n = (int)s.Range(0, 6);
  for (int i = 0; i < n; i++) st.insert(base + s.Range(0, 5));
  bool cont = st.empty() || *st.rbegin() - *st.begin() + 1 == (int64_t)st.size();
  if (!st.empty()) VT_CHECK(Helper::IsContinuous(st) == cont, "continuous", n);
}

int main(int argc, char** argv) {
  FLAGS_minloglevel = 3;
  return vt::Main(argc, argv);
}
