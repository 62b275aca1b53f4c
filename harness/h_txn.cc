// Transactions: snapshot isolation end to end, lock/commit/rollback operations, recovery, reads, garbage collection.
#include "txn_ops.h"
#include "txn_world.h"
using namespace dingodb;
using namespace txw;

namespace {
struct Init {
  Init() {
    vt::InitHook() = [] {
      env::C().role = "store";
      env::InitProcess();
    };
  }
} g_init;

void Play(Src& s, Opt o) {
  World w(s, o);
  w.Run(s.Range(15, 90));
  w.ResolveAll();
  auto h = w.History();
  w.Check(h);
  // late requests that arrive after everything is over change nothing
  if (!w.late.empty()) {
    while (!w.late.empty()) {
      auto f = w.late.front();
      w.late.pop_front();
      f();
    }
    w.ResolveAll();
    w.Check(w.History());
  }
  // every snapshot is still readable and unchanged
  w.quiet = true;
  w.o.nested = false;
  auto rs = w.reads;
  w.reads.clear();
  for (auto& r : rs) {
    P::LockInfo L;
    if (r.keys.empty())
      VT_CHECK(w.TryScan(r.ts, r.a, r.b, {}, "reread", &L, nullptr) == 0, "reread", "no locks left but the scan is refused");
    else
      VT_CHECK(w.TryGet(r.ts, r.keys, {}, "reread", &L) == 0, "reread", "no locks left but the read is refused");
  }
  w.CheckReads(w.History());
  size_t nc = 0;
  for (auto& t : w.txns) nc += t->st == Txn::kCommitted;
  if (nc >= 2 && (w.met_lock || w.nfault)) {
    std::ostringstream d;
    for (auto& n : s.notes_) d << n << "\n";
    s.NonTrivial(d.str());
  }
  s.Tag("committed", nc);
  s.Tag("locks-met", w.met_lock);
  s.Tag("faults", w.nfault);
  s.Tag("late", w.nlate);
  s.Tag("nested", w.nnested);
  s.Tag("reads", rs.size());
}
}  // namespace

VT_PROPERTY("C12", 14000, 600000, "at least two transactions were acknowledged as committed and a lock was met or a request was lost, repeated or delayed")
VT_SUB("C12", "optimistic", 3) {
  Opt o;
  o.pess = false;
  o.regions = s.Range(1, 2);
  o.ntxn = s.Range(2, 6);
  o.nkeys = s.Range(2, 5);
  Play(s, o);
}
VT_SUB("C12", "mixed", 4) {
  Opt o;
  o.regions = s.Range(1, 3);
  o.ntxn = s.Range(2, 7);
  o.nkeys = s.Range(2, 6);
  Play(s, o);
}
VT_SUB("C12", "pessimistic-nofault", 1) {
  Opt o;
  o.faults = false;
  o.ntxn = s.Range(2, 5);
  o.nkeys = s.Range(1, 3);
  Play(s, o);
}
VT_SUB("C12", "restart", 2) {
  Opt o;
  o.restart = true;
  o.regions = s.Range(1, 2);
  o.ntxn = s.Range(2, 6);
  o.nkeys = s.Range(2, 4);
  Play(s, o);
}

// ---------------------------------------------------------------- C13 every request against the model
namespace {
void PlayOps(Src& s, std::initializer_list<int> w, int lo, int hi) {
  txo::Ops o(s);
  int n = s.Range(lo, hi);
  for (int i = 0; i < n; i++) o.Step(w);
  s.Tag("effective", o.effects);
  s.Tag("refused", o.refused);
  s.Tag("reads", o.nread);
  if (o.effects >= 3 && o.refused >= 2) {
    std::ostringstream d;
    for (auto& x : s.notes_) d << x << "\n";
    s.NonTrivial(d.str());
  }
}
}  // namespace
VT_PROPERTY("C13", 16000, 800000, "at least three requests changed the state and two were refused or had nothing to do")
VT_SUB("C13", "optimistic", 3) { PlayOps(s, {10, 0, 0, 7, 3, 3, 2, 3, 2, 2, 1, 0}, 5, 40); }
VT_SUB("C13", "pessimistic", 3) { PlayOps(s, {9, 8, 3, 6, 2, 3, 2, 3, 2, 2, 1, 0}, 5, 40); }
VT_SUB("C13", "resolve", 2) { PlayOps(s, {9, 2, 1, 3, 4, 6, 4, 6, 2, 1, 0, 0}, 5, 40); }

VT_PROPERTY("C15", 12000, 600000, "reads returned data, and a lock blocked one or a scan took several pages")
VT_SUB("C15", "reads", 1) {
  txo::Ops o(s);
  int n = s.Range(8, 40);
  for (int i = 0; i < n; i++) o.Step({10, 3, 1, 8, 3, 1, 1, 2, 0, 0, 0, 0});
  int r = s.Range(4, 14);
  for (int i = 0; i < r; i++) {
    o.Step({1, 0, 0, 1, 1, 0, 0, 0, 0, 6, 8, 3});
  }
  s.Tag("reads", o.nread);
  s.Tag("pages", o.npages);
  s.Tag("locked", o.nread_conf);
  if (o.nread_data >= 2 && (o.nread_conf || o.npages)) {
    std::ostringstream d;
    for (auto& x : s.notes_) d << x << "\n";
    s.NonTrivial(d.str());
  }
}
#include "gc.h"
int main(int argc, char** argv) {
  FLAGS_minloglevel = getenv("VT_LOG") ? 0 : 3;
  return vt::Main(argc, argv);
}
