// Exact (brute force) stand-in for the part of hnswlib the HNSW index uses. Header only.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <string>
#include <vector>
namespace hnswlib {
using labeltype = size_t;
template <typename T>
using DISTFUNC = T (*)(const void*, const void*, const void*);
class BaseFilterFunctor {
 public:
  virtual bool operator()(labeltype) { return true; }
  virtual ~BaseFilterFunctor() = default;
};
template <typename T>
class SpaceInterface {
 public:
  virtual size_t get_data_size() = 0;
  virtual DISTFUNC<T> get_dist_func() = 0;
  virtual void* get_dist_func_param() = 0;
  virtual ~SpaceInterface() = default;
};
namespace vs {
inline float l2(const void* a, const void* b, const void* p) {
  size_t d = *static_cast<const size_t*>(p);
  const float *x = static_cast<const float*>(a), *y = static_cast<const float*>(b);
  float r = 0;
  for (size_t i = 0; i < d; ++i) r += (x[i] - y[i]) * (x[i] - y[i]);
  return r;
}
inline float ip(const void* a, const void* b, const void* p) {
  size_t d = *static_cast<const size_t*>(p);
  const float *x = static_cast<const float*>(a), *y = static_cast<const float*>(b);
  float r = 0;
  for (size_t i = 0; i < d; ++i) r += x[i] * y[i];
  return 1.0f - r;
}
}  // namespace vs
class L2Space : public SpaceInterface<float> {
 public:
  explicit L2Space(size_t d) : dim_(d) {}
  size_t get_data_size() override { return dim_ * sizeof(float); }
  DISTFUNC<float> get_dist_func() override { return vs::l2; }
  void* get_dist_func_param() override { return &dim_; }
 private:
  size_t dim_;
};
class InnerProductSpace : public SpaceInterface<float> {
 public:
  explicit InnerProductSpace(size_t d) : dim_(d) {}
  size_t get_data_size() override { return dim_ * sizeof(float); }
  DISTFUNC<float> get_dist_func() override { return vs::ip; }
  void* get_dist_func_param() override { return &dim_; }
 private:
  size_t dim_;
};
template <typename D>
class HierarchicalNSW {
 public:
  HierarchicalNSW(SpaceInterface<D>* s, size_t max_elements, size_t = 16, size_t = 200, size_t = 100, bool allow_replace = false)
      : space_(s), max_(max_elements) { (void)allow_replace; }
  HierarchicalNSW(SpaceInterface<D>* s, const std::string& path, bool = false, size_t max_elements = 0, bool = false)
      : space_(s), max_(max_elements) {
    std::ifstream i(path, std::ios::binary);
    if (!i) throw std::runtime_error("Cannot open file");
    size_t n = 0, w = s->get_data_size() / sizeof(D), mx = 0;
    if (!i.read(reinterpret_cast<char*>(&mx), 8) || !i.read(reinterpret_cast<char*>(&n), 8)) throw std::runtime_error("Index seems to be corrupted or unsupported");
    max_ = std::max(mx, max_elements);
    for (size_t k = 0; k < n; ++k) {
      labeltype l;
      char del;
      std::vector<D> v(w);
      i.read(reinterpret_cast<char*>(&l), 8);
      i.read(&del, 1);
      if (!i.read(reinterpret_cast<char*>(v.data()), w * sizeof(D))) throw std::runtime_error("Index seems to be corrupted or unsupported");
      m_[l] = {v, del != 0};
    }
  }
  void saveIndex(const std::string& path) {
    std::lock_guard<std::mutex> g(mu_);
    std::ofstream o(path, std::ios::binary);
    size_t n = m_.size();
    o.write(reinterpret_cast<char*>(&max_), 8);
    o.write(reinterpret_cast<char*>(&n), 8);
    for (auto& [l, e] : m_) {
      char del = e.second;
      o.write(reinterpret_cast<const char*>(&l), 8);
      o.write(&del, 1);
      o.write(reinterpret_cast<const char*>(e.first.data()), e.first.size() * sizeof(D));
    }
  }
  void addPoint(const void* p, labeltype l, bool = false) {
    std::lock_guard<std::mutex> g(mu_);
    if (!m_.count(l) && m_.size() >= max_) throw std::runtime_error("The number of elements exceeds the specified limit");
    const D* x = static_cast<const D*>(p);
    m_[l] = {std::vector<D>(x, x + space_->get_data_size() / sizeof(D)), false};
  }
  void markDelete(labeltype l) {
    std::lock_guard<std::mutex> g(mu_);
    auto it = m_.find(l);
    if (it == m_.end()) throw std::runtime_error("Label not found");
    if (it->second.second) throw std::runtime_error("The requested to delete element is already deleted");
    it->second.second = true;
  }
  std::priority_queue<std::pair<D, labeltype>> searchKnn(const void* q, size_t k, BaseFilterFunctor* f = nullptr) const {
    std::lock_guard<std::mutex> g(mu_);
    std::priority_queue<std::pair<D, labeltype>> r;
    for (auto& [l, e] : m_) {
      if (e.second || (f && !(*f)(l))) continue;
      r.emplace(space_->get_dist_func()(q, e.first.data(), space_->get_dist_func_param()), l);
      if (r.size() > k) r.pop();
    }
    return r;
  }
  template <typename T>
  std::vector<T> getDataByLabel(labeltype l) const {
    std::lock_guard<std::mutex> g(mu_);
    auto it = m_.find(l);
    if (it == m_.end() || it->second.second) throw std::runtime_error("Label not found");
    return std::vector<T>(it->second.first.begin(), it->second.first.end());
  }
  void resizeIndex(size_t n) {
    if (n < m_.size()) throw std::runtime_error("Cannot resize, max element is less than the current number of elements");
    max_ = n;
  }
  void setEf(size_t) {}
  size_t getCurrentElementCount() const { return m_.size(); }
  size_t getMaxElements() const { return max_; }
  size_t getDeletedCount() const {
    size_t n = 0;
    for (auto& [l, e] : m_) n += e.second;
    return n;
  }
  size_t indexFileSize() const { return m_.size() * (space_->get_data_size() + 16); }

 private:
  SpaceInterface<D>* space_;
  size_t max_;
  mutable std::mutex mu_;
  std::map<labeltype, std::pair<std::vector<D>, bool>> m_;
};
template <class F>
void set_hnswlib_hook(F) {}
template <typename F>
void set_fvec_L2sqr_hook(F) {}
template <typename F>
void set_fvec_inner_product_hook(F) {}
}  // namespace hnswlib
