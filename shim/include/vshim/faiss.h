// Exact (brute force) stand-in for the part of faiss the vector indexes use. Header only.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace faiss {
using idx_t = int64_t;
enum MetricType { METRIC_INNER_PRODUCT = 0, METRIC_L2 = 1, METRIC_L1, METRIC_Linf, METRIC_HAMMING = 100 };
inline float fvec_norm_L2sqr(const float* x, size_t d) {
  float r = 0;
  for (size_t i = 0; i < d; ++i) r += x[i] * x[i];
  return r;
}
inline float fvec_L2sqr(const float* x, const float* y, size_t d) {
  float r = 0;
  for (size_t i = 0; i < d; ++i) r += (x[i] - y[i]) * (x[i] - y[i]);
  return r;
}
inline float fvec_inner_product(const float* x, const float* y, size_t d) {
  float r = 0;
  for (size_t i = 0; i < d; ++i) r += x[i] * y[i];
  return r;
}
inline int hamming_bytes(const uint8_t* a, const uint8_t* b, size_t n) {
  int r = 0;
  for (size_t i = 0; i < n; ++i) r += __builtin_popcount(a[i] ^ b[i]);
  return r;
}
template <MetricType M>
struct VectorDistance {
  size_t d{0};
  template <class T>
  float operator()(const T* x, const T* y) const {
    if constexpr (M == METRIC_HAMMING) {
      return static_cast<float>(hamming_bytes(reinterpret_cast<const uint8_t*>(x), reinterpret_cast<const uint8_t*>(y), d));
    } else if constexpr (M == METRIC_L2) {
      return fvec_L2sqr(x, y, d);
    } else {
      return fvec_inner_product(x, y, d);
    }
  }
};
struct IDSelector {
  virtual bool is_member(idx_t id) const = 0;
  virtual ~IDSelector() = default;
};
struct IDSelectorBatch : IDSelector {
  std::unordered_set<idx_t> set;
  IDSelectorBatch(size_t n, const idx_t* ids) {
    for (size_t i = 0; i < n; ++i) set.insert(ids[i]);
  }
  bool is_member(idx_t id) const override { return set.count(id) != 0; }
};
struct IDSelectorRange : IDSelector {
  idx_t imin, imax;
  IDSelectorRange(idx_t a, idx_t b, bool = false) : imin(a), imax(b) {}
  bool is_member(idx_t id) const override { return id >= imin && id < imax; }
};
struct SearchParameters {
  IDSelector* sel{nullptr};
  virtual ~SearchParameters() = default;
};
struct SearchParametersIVF : SearchParameters {
  size_t nprobe{1};
  size_t max_codes{0};
  SearchParameters* quantizer_params{nullptr};
};
using IVFSearchParameters = SearchParametersIVF;
struct IVFPQSearchParameters : SearchParametersIVF {};
struct RangeSearchResult {
  size_t nq;
  size_t* lims;
  idx_t* labels{nullptr};
  float* distances{nullptr};
  explicit RangeSearchResult(size_t n, bool = true) : nq(n), lims(new size_t[n + 1]()) {}
  ~RangeSearchResult() {
    delete[] lims;
    delete[] labels;
    delete[] distances;
  }
};
struct ClusteringParameters {
  int niter = 25, nredo = 1;
  bool verbose = false, spherical = false;
  int min_points_per_centroid = 39, max_points_per_centroid = 256, seed = 1234;
};
// Shared exact store. C: stored component type, D: distance type, Q: query type.
template <class C, class D>
struct BaseIndex {
  using component_t = C;
  using distance_t = D;
  int d{0};
  int code_size{0};
  idx_t ntotal{0};
  bool verbose{false}, is_trained{true};
  MetricType metric_type{METRIC_L2};
  std::vector<C> xb;
  std::vector<idx_t> ids;
  BaseIndex() = default;
  BaseIndex(idx_t d_, MetricType m) : d(static_cast<int>(d_)), code_size(static_cast<int>(d_ / 8)), metric_type(m) {}
  virtual ~BaseIndex() = default;
  size_t width() const { return std::is_same<C, uint8_t>::value ? d / 8 : d; }
  virtual void train(idx_t, const C*) { is_trained = true; }
  virtual void add(idx_t n, const C* x) {
    for (idx_t i = 0; i < n; ++i) ids.push_back(ntotal + i);
    xb.insert(xb.end(), x, x + n * width());
    ntotal += n;
  }
  virtual void add_with_ids(idx_t n, const C* x, const idx_t* xid) {
    if (!is_trained) throw std::runtime_error("not trained");
    for (idx_t i = 0; i < n; ++i) ids.push_back(xid[i]);
    xb.insert(xb.end(), x, x + n * width());
    ntotal += n;
  }
  virtual size_t remove_ids(const IDSelector& sel) {
    size_t w = width(), out = 0;
    for (size_t i = 0; i < ids.size(); ++i) {
      if (sel.is_member(ids[i])) continue;
      if (out != i) {
        ids[out] = ids[i];
        std::copy(xb.begin() + i * w, xb.begin() + (i + 1) * w, xb.begin() + out * w);
      }
      ++out;
    }
    size_t removed = ids.size() - out;
    ids.resize(out);
    xb.resize(out * w);
    ntotal = out;
    return removed;
  }
  virtual void reset() {
    ids.clear();
    xb.clear();
    ntotal = 0;
  }
  bool larger_is_better() const { return !std::is_same<C, uint8_t>::value && metric_type == METRIC_INNER_PRODUCT; }
  D dist(const C* a, const C* b) const {
    if constexpr (std::is_same<C, uint8_t>::value)
      return static_cast<D>(hamming_bytes(a, b, width()));
    else
      return metric_type == METRIC_INNER_PRODUCT ? fvec_inner_product(a, b, d) : fvec_L2sqr(a, b, d);
  }
  virtual idx_t sel_id(size_t pos) const { return ids[pos]; }
  virtual idx_t out_id(size_t pos) const { return ids[pos]; }
  virtual void search(idx_t n, const C* x, idx_t k, D* distances, idx_t* labels, const SearchParameters* p = nullptr) const {
    for (idx_t q = 0; q < n; ++q) {
      std::vector<std::pair<D, size_t>> r;
      for (size_t i = 0; i < ids.size(); ++i) {
        if (p && p->sel && !p->sel->is_member(sel_id(i))) continue;
        r.emplace_back(dist(x + q * width(), xb.data() + i * width()), i);
      }
      bool lb = larger_is_better();
      std::stable_sort(r.begin(), r.end(), [lb](auto& a, auto& b) { return lb ? a.first > b.first : a.first < b.first; });
      for (idx_t j = 0; j < k; ++j) {
        if (j < static_cast<idx_t>(r.size())) {
          distances[q * k + j] = r[j].first;
          labels[q * k + j] = out_id(r[j].second);
        } else {
          distances[q * k + j] = lb ? std::numeric_limits<D>::lowest() : std::numeric_limits<D>::max();
          labels[q * k + j] = -1;
        }
      }
    }
  }
  virtual void range_search(idx_t n, const C* x, D radius, RangeSearchResult* res, const SearchParameters* p = nullptr) const {
    std::vector<idx_t> l;
    std::vector<float> ds;
    res->lims[0] = 0;
    for (idx_t q = 0; q < n; ++q) {
      for (size_t i = 0; i < ids.size(); ++i) {
        if (p && p->sel && !p->sel->is_member(sel_id(i))) continue;
        D v = dist(x + q * width(), xb.data() + i * width());
        if (larger_is_better() ? v > radius : v < radius) {
          l.push_back(out_id(i));
          ds.push_back(static_cast<float>(v));
        }
      }
      res->lims[q + 1] = l.size();
    }
    res->labels = new idx_t[l.size() + 1];
    res->distances = new float[l.size() + 1];
    std::copy(l.begin(), l.end(), res->labels);
    std::copy(ds.begin(), ds.end(), res->distances);
  }
  virtual void reconstruct(idx_t key, C* out) const {
    for (size_t i = 0; i < ids.size(); ++i)
      if (ids[i] == key) {
        std::copy(xb.begin() + i * width(), xb.begin() + (i + 1) * width(), out);
        return;
      }
    throw std::runtime_error("key not found");
  }
  virtual int kind() const { return 0; }
};
struct Index : BaseIndex<float, float> {
  Index() = default;
  explicit Index(idx_t d, MetricType m = METRIC_L2) : BaseIndex(d, m) {}
};
struct IndexBinary : BaseIndex<uint8_t, int32_t> {
  IndexBinary() = default;
  explicit IndexBinary(idx_t d, MetricType m = METRIC_L2) : BaseIndex(d, m) {}
};
struct IndexFlat : Index {
  explicit IndexFlat(idx_t d, MetricType m = METRIC_L2) : Index(d, m) {}
  IndexFlat() = default;
};
struct IndexFlatL2 : IndexFlat {
  explicit IndexFlatL2(idx_t d) : IndexFlat(d, METRIC_L2) {}
};
struct IndexFlatIP : IndexFlat {
  explicit IndexFlatIP(idx_t d) : IndexFlat(d, METRIC_INNER_PRODUCT) {}
};
struct IndexBinaryFlat : IndexBinary {
  explicit IndexBinaryFlat(idx_t d) : IndexBinary(d) {}
};
// IndexIDMap2: external ids, rev_map external id -> internal position, remove_ids selects on EXTERNAL ids of the id map
// through an IDSelector over internal positions (as in the dingo fork, see VectorIndexFlat::GetExistVectorIds).
template <class Base>
struct IndexIDMap2Tmpl : Base {
  Base* index{nullptr};
  bool own_fields{false};
  std::vector<idx_t> id_map;
  std::unordered_map<idx_t, idx_t> rev_map;
  IndexIDMap2Tmpl() = default;
  explicit IndexIDMap2Tmpl(Base* b) : Base(b->d, b->metric_type), index(b) {}
  ~IndexIDMap2Tmpl() override {
    if (own_fields) delete index;
  }
  void construct_rev_map() {
    rev_map.clear();
    for (size_t i = 0; i < this->ids.size(); ++i) rev_map[this->ids[i]] = i;
    id_map = this->ids;
  }
  void add_with_ids(idx_t n, const typename Base::component_t* x, const idx_t* xid) override {
    Base::add_with_ids(n, x, xid);
    construct_rev_map();
  }
  size_t remove_ids(const IDSelector& sel) override {
    // select by external id
    size_t r = Base::remove_ids(sel);
    construct_rev_map();
    return r;
  }
  void reset() override {
    Base::reset();
    construct_rev_map();
  }
  int kind() const override { return 1; }
};
using IndexIDMap2 = IndexIDMap2Tmpl<Index>;
using IndexBinaryIDMap2 = IndexIDMap2Tmpl<IndexBinary>;
struct IndexIVF : Index {
  size_t nlist{1}, nprobe{1};
  bool own_fields{false};
  ClusteringParameters cp;
  Index* quantizer{nullptr};
  IndexIVF() = default;
  IndexIVF(Index* q, size_t d, size_t nl, MetricType m) : Index(d, m), nlist(nl), quantizer(q) { is_trained = false; }
  ~IndexIVF() override {
    if (own_fields) delete quantizer;
  }
};
struct IndexIVFFlat : IndexIVF {
  using IndexIVF::IndexIVF;
  IndexIVFFlat() = default;
  IndexIVFFlat(Index* q, size_t d, size_t nl, MetricType m = METRIC_L2) : IndexIVF(q, d, nl, m) {}
  int kind() const override { return 2; }
};
struct IndexBinaryIVF : IndexBinary {
  size_t nlist{1}, nprobe{1};
  bool own_fields{false};
  ClusteringParameters cp;
  IndexBinary* quantizer{nullptr};
  IndexBinaryIVF() = default;
  IndexBinaryIVF(IndexBinary* q, size_t d, size_t nl) : IndexBinary(d), nlist(nl), quantizer(q) { is_trained = false; }
  ~IndexBinaryIVF() override {
    if (own_fields) delete quantizer;
  }
  int kind() const override { return 2; }
};
struct ProductQuantizer {
  size_t d, M, nbits, ksub, dsub;
  ClusteringParameters cp;
  ProductQuantizer(size_t d_ = 0, size_t m = 1, size_t nb = 8) : d(d_), M(m), nbits(nb), ksub(1UL << nb), dsub(m ? d_ / m : 0) {}
};
struct IndexIVFPQ : IndexIVF {
  ProductQuantizer pq;
  int use_precomputed_table{0};
  IndexIVFPQ() = default;
  IndexIVFPQ(Index* q, size_t d, size_t nl, size_t m, size_t nb, MetricType mt = METRIC_L2) : IndexIVF(q, d, nl, mt), pq(d, m, nb) {}
  int kind() const override { return 3; }
};
namespace vs {
template <class B>
void save(const B* x, size_t nlist, const char* path) {
  std::ofstream o(path, std::ios::binary);
  if (!o) throw std::runtime_error(std::string("cannot open ") + path);
  int64_t h[7] = {0x46414953, x->kind(), x->d, static_cast<int64_t>(x->metric_type), x->ntotal, x->is_trained, static_cast<int64_t>(nlist)};
  o.write(reinterpret_cast<char*>(h), sizeof h);
  o.write(reinterpret_cast<const char*>(x->ids.data()), x->ids.size() * sizeof(idx_t));
  o.write(reinterpret_cast<const char*>(x->xb.data()), x->xb.size() * sizeof(x->xb[0]));
}
template <class B, class M2, class IVF, class FlatT>
B* load(const char* path) {
  std::ifstream i(path, std::ios::binary);
  if (!i) throw std::runtime_error(std::string("cannot open ") + path);
  int64_t h[7];
  if (!i.read(reinterpret_cast<char*>(h), sizeof h) || h[0] != 0x46414953) throw std::runtime_error("bad index file");
  B* b = nullptr;
  if (h[1] == 1) {
    auto* inner = new FlatT(h[2]);
    inner->metric_type = static_cast<MetricType>(h[3]);
    auto* m = new M2(inner);
    m->own_fields = true;
    b = m;
  } else {
    auto* v = new IVF();
    v->d = h[2];
    v->code_size = h[2] / 8;
    v->nlist = h[6];
    v->own_fields = true;
    b = v;
  }
  b->metric_type = static_cast<MetricType>(h[3]);
  b->is_trained = h[5];
  b->ids.resize(h[4]);
  b->xb.resize(h[4] * b->width());
  i.read(reinterpret_cast<char*>(b->ids.data()), b->ids.size() * sizeof(idx_t));
  i.read(reinterpret_cast<char*>(b->xb.data()), b->xb.size() * sizeof(b->xb[0]));
  if (!i) {
    delete b;
    throw std::runtime_error("short index file");
  }
  b->ntotal = h[4];
  if (h[1] == 1) static_cast<M2*>(b)->construct_rev_map();
  return b;
}
}  // namespace vs
inline void write_index(const Index* x, const char* p) {
  auto* v = dynamic_cast<const IndexIVF*>(x);
  vs::save(x, v ? v->nlist : 0, p);
}
inline void write_index_binary(const IndexBinary* x, const char* p) {
  auto* v = dynamic_cast<const IndexBinaryIVF*>(x);
  vs::save(x, v ? v->nlist : 0, p);
}
struct FlatAny : IndexFlat {
  explicit FlatAny(idx_t d) : IndexFlat(d) {}
};
inline Index* read_index(const char* p, int = 0) { return vs::load<Index, IndexIDMap2, IndexIVFFlat, FlatAny>(p); }
inline IndexBinary* read_index_binary(const char* p, int = 0) { return vs::load<IndexBinary, IndexBinaryIDMap2, IndexBinaryIVF, IndexBinaryFlat>(p); }
template <class F>
void set_fvec_L2sqr_hook(F) {}
template <class F>
void set_fvec_inner_product_hook(F) {}
}  // namespace faiss
