// Stand-in for brpc's bvar: values are kept, nothing is exposed.
#pragma once
#include <gflags/gflags.h>

#include <list>

#include "vshim/butil.h"
namespace bvar {
DECLARE_int32(bvar_latency_p1);
DECLARE_int32(bvar_latency_p2);
DECLARE_int32(bvar_latency_p3);
DECLARE_int32(bvar_max_dump_multi_dimension_metric_number);
class Dumper {
 public:
  virtual ~Dumper() = default;
  virtual bool dump(const std::string& name, const butil::StringPiece& description) = 0;
  virtual bool dump_mvar(const std::string&, const butil::StringPiece&) { return true; }
  virtual bool dump_comment(const std::string&, const std::string&) { return true; }
};
enum DisplayFilter { DISPLAY_ON_HTML = 1, DISPLAY_ON_PLAIN_TEXT = 2, DISPLAY_ON_ALL = 3 };
struct DumpOptions {
  bool quote_string{true};
  char question_mark{'?'};
  DisplayFilter display_filter{DISPLAY_ON_PLAIN_TEXT};
  std::string white_wildcards, black_wildcards;
};
struct SeriesOptions {
  bool fixed_length{true};
  bool test_only{false};
};
class Variable {
 public:
  virtual ~Variable() = default;
  virtual void describe(std::ostream&, bool) const {}
  int expose(const butil::StringPiece& n, DisplayFilter = DISPLAY_ON_ALL) {
    name_ = n.as_string();
    return 0;
  }
  int expose_as(const butil::StringPiece& p, const butil::StringPiece& n, DisplayFilter = DISPLAY_ON_ALL) {
    name_ = p.as_string() + "_" + n.as_string();
    return 0;
  }
  bool hide() { return true; }
  bool is_hidden() const { return true; }
  const std::string& name() const { return name_; }
  static int dump_exposed(Dumper*, const DumpOptions*) { return 0; }
  static size_t count_exposed() { return 0; }
  std::string get_description() const { return ""; }

 private:
  std::string name_;
};
template <typename T>
class Adder : public Variable {
 public:
  Adder() = default;
  explicit Adder(const butil::StringPiece&) {}
  Adder(const butil::StringPiece&, const butil::StringPiece&) {}
  Adder& operator<<(const T& v) {
    std::lock_guard<std::mutex> l(m_);
    v_ += v;
    return *this;
  }
  T get_value() const {
    std::lock_guard<std::mutex> l(m_);
    return v_;
  }
  T reset() {
    std::lock_guard<std::mutex> l(m_);
    T o = v_;
    v_ = T();
    return o;
  }
  bool valid() const { return true; }

 private:
  mutable std::mutex m_;
  T v_{};
};
template <typename T>
class Maxer : public Adder<T> {
 public:
  using Adder<T>::Adder;
};
class IntRecorder : public Variable {
 public:
  IntRecorder& operator<<(int64_t v) { return *this; }
  int64_t average() const { return 0; }
};
class LatencyRecorder {
 public:
  LatencyRecorder() = default;
  explicit LatencyRecorder(time_t) {}
  explicit LatencyRecorder(const butil::StringPiece&) {}
  LatencyRecorder(const butil::StringPiece&, time_t) {}
  LatencyRecorder(const butil::StringPiece&, const butil::StringPiece&) {}
  LatencyRecorder(const butil::StringPiece&, const butil::StringPiece&, time_t) {}
  LatencyRecorder& operator<<(int64_t v) {
    n_.fetch_add(1, std::memory_order_relaxed);
    sum_.fetch_add(v, std::memory_order_relaxed);
    return *this;
  }
  int expose(const butil::StringPiece&) { return 0; }
  int expose(const butil::StringPiece&, const butil::StringPiece&) { return 0; }
  void hide() {}
  int64_t latency(time_t) const { return latency(); }
  int64_t latency() const {
    auto n = n_.load();
    return n ? sum_.load() / n : 0;
  }
  int64_t max_latency() const { return 0; }
  int64_t count() const { return n_.load(); }
  int64_t qps(time_t) const { return 0; }
  int64_t qps() const { return 0; }
  int64_t latency_percentile(double) const { return 0; }
  std::string latency_name() const { return ""; }
  std::string count_name() const { return ""; }
  std::string qps_name() const { return ""; }

 private:
  std::atomic<int64_t> n_{0}, sum_{0};
};
template <typename T>
class Status : public Variable {
 public:
  Status() = default;
  explicit Status(const T& v) : v_(v) {}
  Status(const butil::StringPiece&, const T& v) : v_(v) {}
  Status(const butil::StringPiece&, const butil::StringPiece&, const T& v) : v_(v) {}
  T get_value() const {
    std::lock_guard<std::mutex> l(m_);
    return v_;
  }
  void set_value(const T& v) {
    std::lock_guard<std::mutex> l(m_);
    v_ = v;
  }

 private:
  mutable std::mutex m_;
  T v_{};
};
template <typename R>
class PerSecondEx : public Variable {
 public:
  template <typename... A>
  explicit PerSecondEx(A&&...) {}
  template <typename V>
  PerSecondEx& operator<<(const V&) { return *this; }
  int64_t get_value() const { return 0; }
};
template <typename R>
class PerSecond : public PerSecondEx<R> {
 public:
  using PerSecondEx<R>::PerSecondEx;
};
template <typename R>
class Window : public PerSecondEx<R> {
 public:
  using PerSecondEx<R>::PerSecondEx;
};
template <typename T>
class PassiveStatus : public Variable {
 public:
  PassiveStatus(const butil::StringPiece&, T (*f)(void*), void* a) : f_(f), a_(a) {}
  PassiveStatus(T (*f)(void*), void* a) : f_(f), a_(a) {}
  T get_value() const { return f_(a_); }

 private:
  T (*f_)(void*);
  void* a_;
};
template <typename KeyT = std::list<std::string>>
class MVariable {
 public:
  explicit MVariable(const KeyT& labels) : _labels(labels) {}
  virtual ~MVariable() = default;
  virtual void describe(std::ostream&) = 0;
  virtual size_t dump(Dumper*, const DumpOptions*) = 0;
  int expose(const butil::StringPiece& n) {
    _name = n.as_string();
    return 0;
  }
  int expose_as(const butil::StringPiece& p, const butil::StringPiece& n) {
    _name = p.as_string() + "_" + n.as_string();
    return 0;
  }
  bool hide() { return true; }
  const std::string& name() const { return _name; }
  const KeyT& labels() const { return _labels; }
  size_t count_labels() const { return _labels.size(); }
  static size_t dump_exposed(Dumper*, const DumpOptions*) { return 0; }

 protected:
  std::string _name;
  KeyT _labels;
};
template <typename T>
class MultiDimension : public MVariable<std::list<std::string>> {
 public:
  using key_type = std::list<std::string>;
  using Base = MVariable<std::list<std::string>>;
  explicit MultiDimension(const key_type& l) : Base(l) {}
  MultiDimension(const butil::StringPiece&, const key_type& l) : Base(l) {}
  MultiDimension(const butil::StringPiece&, const butil::StringPiece&, const key_type& l) : Base(l) {}
  void describe(std::ostream&) override {}
  size_t dump(Dumper*, const DumpOptions*) override { return 0; }
  T* get_stats(const key_type& k) {
    std::lock_guard<std::mutex> l(m_);
    auto& p = s_[k];
    if (!p) p.reset(new T());
    return p.get();
  }
  void delete_stats(const key_type& k) {
    std::lock_guard<std::mutex> l(m_);
    s_.erase(k);
  }
  void delete_stats() {
    std::lock_guard<std::mutex> l(m_);
    s_.clear();
  }
  void clear_stats() { delete_stats(); }
  bool has_stats(const key_type& k) {
    std::lock_guard<std::mutex> l(m_);
    return s_.count(k) > 0;
  }
  size_t count_stats() { return s_.size(); }
  void list_stats(std::vector<key_type>* n) {
    std::lock_guard<std::mutex> l(m_);
    for (auto& x : s_) n->push_back(x.first);
  }

 private:
  std::mutex m_;
  std::map<key_type, std::unique_ptr<T>> s_;
};
}  // namespace bvar
