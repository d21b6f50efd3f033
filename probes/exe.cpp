#include "opaque.hpp"
#include <yaclib/exe/inline.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
#include <yaclib/util/detail/intrusive_list.hpp>
using namespace yaclib;
using detail::Node;
using detail::List;
// strand
ENTRY void strand_submit(Strand& s, Job& j) { s.Submit(j); }
ENTRY void strand_call(Strand& s) { s.Call(); }
ENTRY void strand_drop(Strand& s) { s.Drop(); }
ENTRY bool strand_alive(const Strand& s) { return s.Alive(); }
ENTRY void strand_make(IExecutorPtr& e, IExecutorPtr* out) { new (out) IExecutorPtr(MakeStrand(e)); }
// pool
ENTRY void pool_submit(FairThreadPool& s, Job& j) { s.Submit(j); }
ENTRY void pool_soft(FairThreadPool& s) { s.SoftStop(); }
ENTRY void pool_stop(FairThreadPool& s) { s.Stop(); }
ENTRY void pool_hard(FairThreadPool& s) { s.HardStop(); }
ENTRY void pool_wait(FairThreadPool& s) { s.Wait(); }
ENTRY void pool_loop(FairThreadPool& s) { s.Loop(); }
ENTRY bool pool_alive(const FairThreadPool& s) { return s.Alive(); }
ENTRY void pool_make(std::uint64_t n, IntrusivePtr<FairThreadPool>* out) { new (out) IntrusivePtr<FairThreadPool>(MakeFairThreadPool(n)); }
// manual
ENTRY void manual_submit(ManualExecutor& s, Job& j) { s.Submit(j); }
ENTRY std::size_t manual_drain(ManualExecutor& s) { return s.Drain(); }
// inline
ENTRY void inline_call(Job& j) { MakeInline().Submit(j); }
ENTRY void inline_drop(Job& j) { MakeInline(StopTag{}).Submit(j); }
// list
ENTRY void list_fifo(Node& a, Node& b, Node& c, Node** out, bool* empty) {
  List l;
  empty[0] = l.Empty();
  l.PushBack(a);
  empty[1] = l.Empty();
  l.PushBack(b);
  out[0] = &l.PopFront();
  l.PushBack(c);
  out[1] = &l.PopFront();
  out[2] = &l.PopFront();
  empty[2] = l.Empty();
  l.PushBack(b);
  l.PushBack(a);
  out[3] = &l.PopFront();
  out[4] = &l.PopFront();
  empty[3] = l.Empty();
}
ENTRY void list_move(Node& a, Node& b, Node& c, Node** out, bool* empty) {
  List l;
  l.PushBack(a);
  l.PushBack(b);
  List m{std::move(l)};
  empty[0] = l.Empty();
  empty[1] = m.Empty();
  l.PushBack(c);
  out[0] = &m.PopFront();
  out[1] = &m.PopFront();
  empty[2] = m.Empty();
  out[2] = &l.PopFront();
  empty[3] = l.Empty();
  List n{std::move(m)};
  empty[4] = n.Empty();
  n.PushBack(a);
  m.PushBack(b);
  out[3] = &n.PopFront();
  out[4] = &m.PopFront();
}
ENTRY void list_front(Node& a, Node& b, Node& c, Node** out, bool* empty) {
  List l;
  l.PushFront(a);
  l.PushFront(b);
  l.PushBack(c);
  out[0] = &l.PopFront();
  out[1] = &l.PopFront();
  out[2] = &l.PopFront();
  empty[0] = l.Empty();
}
