#pragma once
// Stand-in for the tantivy FFI: an in-memory term-count index per path.  A document matches a query when any
// whitespace-separated query term occurs in one of its text columns; score = number of matching terms (stable order by id).
// Committed and reader-visible states are kept apart like the real writer/reader pair.
#include <algorithm>
#include <cstdint>
#include <filesystem>
#include <fstream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace vshim_tantivy {
struct BoolResult { bool result{true}; int error_code{0}; std::string error_msg; };
struct StringResult { std::string result; int error_code{0}; std::string error_msg; };
struct RowIdWithScore { uint64_t row_id{0}; float score{0}; };
struct SearchResult { std::vector<RowIdWithScore> result; int error_code{0}; std::string error_msg; };
struct Doc { std::map<std::string, std::string> text; };
struct Idx {
  std::multimap<uint64_t, Doc> pending, committed, visible;
  std::vector<std::string> columns; std::string json; bool writer{false}, reader{false};
};
inline std::map<std::string, Idx>& Reg() { static std::map<std::string, Idx> m; return m; }
inline std::mutex& Mu() { static std::mutex m; return m; }
inline BoolResult Bad(const std::string& m) { BoolResult r; r.result = false; r.error_code = -1; r.error_msg = m; return r; }
}  // namespace vshim_tantivy
using vshim_tantivy::RowIdWithScore;
inline vshim_tantivy::BoolResult ffi_varify_index_parameter(const std::string&) { return {}; }
inline vshim_tantivy::BoolResult ffi_create_index_with_parameter(const std::string& p, const std::vector<std::string>& cols, const std::string& json) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  std::error_code ec; std::filesystem::create_directories(p, ec);
  auto& i = vshim_tantivy::Reg()[p]; i = {}; i.columns = cols; i.json = json; i.writer = true; return {};
}
inline vshim_tantivy::BoolResult ffi_load_index_reader(const std::string& p) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  auto it = vshim_tantivy::Reg().find(p); if (it == vshim_tantivy::Reg().end()) return vshim_tantivy::Bad("no index");
  it->second.reader = true; it->second.visible = it->second.committed; return {};
}
inline vshim_tantivy::BoolResult ffi_load_index_writer(const std::string& p) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  auto it = vshim_tantivy::Reg().find(p); if (it == vshim_tantivy::Reg().end()) return vshim_tantivy::Bad("no index");
  it->second.writer = true; it->second.pending = it->second.committed; return {};
}
inline vshim_tantivy::BoolResult ffi_free_index_reader(const std::string& p) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  auto it = vshim_tantivy::Reg().find(p); if (it != vshim_tantivy::Reg().end()) it->second.reader = false; return {};
}
inline vshim_tantivy::BoolResult ffi_free_index_writer(const std::string& p) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  auto it = vshim_tantivy::Reg().find(p); if (it != vshim_tantivy::Reg().end()) { it->second.writer = false; it->second.pending = it->second.committed; } return {};
}
inline vshim_tantivy::BoolResult ffi_index_multi_type_column_docs(
    const std::string& p, uint64_t id, const std::vector<std::string>& tn, const std::vector<std::string>& td,
    const std::vector<std::string>& in, const std::vector<int64_t>& iv, const std::vector<std::string>& fn, const std::vector<double>& fv,
    const std::vector<std::string>& bn, const std::vector<std::string>& bv, const std::vector<std::string>& dn, const std::vector<std::string>& dv,
    const std::vector<std::string>& on, const std::vector<std::string>& ov) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  auto it = vshim_tantivy::Reg().find(p); if (it == vshim_tantivy::Reg().end() || !it->second.writer) return vshim_tantivy::Bad("no writer");
  vshim_tantivy::Doc d;
  for (size_t i = 0; i < tn.size(); i++) d.text[tn[i]] = td[i];
  for (size_t i = 0; i < in.size(); i++) d.text[in[i]] = std::to_string(iv[i]);
  for (size_t i = 0; i < fn.size(); i++) d.text[fn[i]] = std::to_string(fv[i]);
  for (size_t i = 0; i < bn.size(); i++) d.text[bn[i]] = bv[i];
  for (size_t i = 0; i < dn.size(); i++) d.text[dn[i]] = dv[i];
  for (size_t i = 0; i < on.size(); i++) d.text[on[i]] = ov[i];
  it->second.pending.emplace(id, d); return {};
}
inline vshim_tantivy::BoolResult ffi_index_writer_commit(const std::string& p) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  auto it = vshim_tantivy::Reg().find(p); if (it == vshim_tantivy::Reg().end() || !it->second.writer) return vshim_tantivy::Bad("no writer");
  it->second.committed = it->second.pending; return {};
}
inline vshim_tantivy::BoolResult ffi_index_reader_reload(const std::string& p) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  auto it = vshim_tantivy::Reg().find(p); if (it == vshim_tantivy::Reg().end()) return vshim_tantivy::Bad("no reader");
  it->second.visible = it->second.committed; return {};
}
inline vshim_tantivy::BoolResult ffi_delete_row_ids(const std::string& p, const std::vector<uint64_t>& ids) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  auto it = vshim_tantivy::Reg().find(p); if (it == vshim_tantivy::Reg().end() || !it->second.writer) return vshim_tantivy::Bad("no writer");
  for (auto id : ids) it->second.pending.erase(id);
  it->second.committed = it->second.pending; it->second.visible = it->second.committed; return {};
}
inline vshim_tantivy::SearchResult ffi_bm25_search_with_column_names(const std::string& p, const std::string& q, uint32_t topk,
    const std::vector<uint64_t>& alive, bool use_id, bool use_range, int64_t start_id, int64_t end_id,
    const std::vector<std::string>& cols, bool unlimited) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu());
  vshim_tantivy::SearchResult r;
  auto it = vshim_tantivy::Reg().find(p); if (it == vshim_tantivy::Reg().end()) { r.error_code = -1; r.error_msg = "no index"; return r; }
  std::set<uint64_t> al(alive.begin(), alive.end());
  std::set<std::string> terms; { std::istringstream is(q); std::string t; while (is >> t) terms.insert(t); }
  for (auto& [id, d] : it->second.visible) {
    if (use_id && !al.count(id)) continue;
    if (use_range && ((int64_t)id < start_id || (int64_t)id >= end_id)) continue;
    int n = 0;
    for (auto& [c, txt] : d.text) {
      if (!cols.empty() && std::find(cols.begin(), cols.end(), c) == cols.end()) continue;
      std::istringstream is(txt); std::string t; while (is >> t) if (terms.count(t)) n++;
    }
    if (n) r.result.push_back({id, (float)n});
  }
  std::stable_sort(r.result.begin(), r.result.end(), [](auto& a, auto& b) { return a.score > b.score; });
  if (!unlimited && r.result.size() > topk) r.result.resize(topk);
  return r;
}
inline uint64_t ffi_get_indexed_doc_counts(const std::string& p) { std::lock_guard<std::mutex> g(vshim_tantivy::Mu()); return vshim_tantivy::Reg()[p].visible.size(); }
inline uint64_t ffi_get_total_num_tokens(const std::string& p) {
  std::lock_guard<std::mutex> g(vshim_tantivy::Mu()); uint64_t n = 0;
  for (auto& [id, d] : vshim_tantivy::Reg()[p].visible) for (auto& [c, t] : d.text) { std::istringstream is(t); std::string w; while (is >> w) n++; }
  return n;
}
inline vshim_tantivy::StringResult ffi_get_index_meta_json(const std::string&) { vshim_tantivy::StringResult r; r.result = "{}"; return r; }
inline vshim_tantivy::StringResult ffi_get_index_json_parameter(const std::string& p) { std::lock_guard<std::mutex> g(vshim_tantivy::Mu()); vshim_tantivy::StringResult r; r.result = vshim_tantivy::Reg()[p].json; return r; }
