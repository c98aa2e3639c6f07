// Witness: owned/borrowed objects, waitable atomics, termination signals.
#include "bricks/sync/owned_borrowed.h"
#include "bricks/sync/waitable_atomic.h"
#include "bricks/util/waitable_terminate_signal.h"
#include <string>
namespace verif_sync {
struct O {
  int x = 0;
  O() = default;
  O(int x, std::string) : x(x) {}
};
using current::Borrowed;
using current::BorrowedOfGuaranteedLifetime;
using current::BorrowedWithCallback;
using current::MakeOwned;
using current::Owned;
using current::WeakBorrowed;
void use_owned() {
  Owned<O> o = MakeOwned<O>();
  Owned<O> o2 = MakeOwned<O>(1, std::string("x"));
  Owned<O> o3(std::move(o2));
  o2 = std::move(o3);
  Borrowed<O> a(o);
  Borrowed<O> b(a);
  Borrowed<O> c(std::move(b));
  a = std::move(c);
  a = nullptr;
  const WeakBorrowed<O>& wc = o;
  WeakBorrowed<O>& wm = o2;
  Borrowed<O> d(wc);
  Borrowed<O> e(std::move(wm));
  BorrowedWithCallback<O> f(wc, []() {});
  BorrowedWithCallback<O> g(std::move(e), []() {});
  f = nullptr;
  BorrowedOfGuaranteedLifetime<O> h(wc);
  BorrowedOfGuaranteedLifetime<O> i(std::move(d));
  BorrowedOfGuaranteedLifetime<O> j(std::move(h));
  i = std::move(j);
  i = nullptr;
  o.IsValid();
  static_cast<bool>(a);
  (*o).x = 1;
  o->x = 1;
  (*wc).x;
  wc->x;
  o.ExclusiveUse([](O&) {});
  wc.ExclusiveUse([](const O&) {});
  wm.ExclusiveUse<int>([](O& z) { return z.x; });
  wc.ExclusiveUse<int>([](const O& z) { return z.x; });
  o.NumberOfActiveBorrowers();
  o.TotalBorrowersSpawnedThroughoutLifetime();
}
struct D : current::CustomWaitableAtomicDestructor {
  void WaitableAtomicDestructing() override {}
};
using basic_t = current::WaitableAtomic<O>;
using intrusive_t = current::WaitableAtomic<O, true>;
template <typename W>
void use_waitable(W& w) {
  const W& c = w;
  {
    auto s = w.MutableScopedAccessor();
    s->x = 1;
    (*s).x = 2;
    s.MarkAsUnmodified();
    auto t = c.ImmutableScopedAccessor();
    t->x;
    (*t).x;
  }
  w.Notify();
  c.UseAsLock([]() {});
  c.Wait([](const O& o) { return o.x == 1; });
  c.WaitFor([](const O& o) { return o.x == 1; }, std::chrono::milliseconds(1));
  c.ImmutableUse([](const O& o) { return o.x; });
  w.MutableUse([](O& o) { o.x = 1; });
  w.PotentiallyMutableUse([](O& o) { return o.x == 1; });
  w.GetValue();
  w.SetValue(O());
  w.SetValueIf([](const O& o) { return o.x == 1; }, O());
}
void use_atomic() {
  D d;
  basic_t b;
  basic_t b2(1, std::string("x"));
  intrusive_t i, i2(&d), i3(O(), &d);
  use_waitable(b);
  use_waitable(i);
  auto client = i.RegisterScopedClient();
  current::IntrusiveClient moved(std::move(client));
  static_cast<bool>(moved);
}
void use_signal(std::atomic_bool& done) {
  current::WaitableTerminateSignal s;
  current::WaitableTerminateSignalBulkNotifier bulk;
  std::mutex m;
  static_cast<bool>(s);
  s.SignalExternalTermination();
  s.NotifyOfExternalWaitableEvent();
  {
    current::WaitableTerminateSignalBulkNotifier::Scope scope(bulk, s);
    current::WaitableTerminateSignalBulkNotifier::Scope scope2(&bulk, s);
    std::unique_lock<std::mutex> lock(m);
    s.WaitUntil(lock, [&done]() { return done.load(); });
  }
  bulk.NotifyAllOfExternalWaitableEvent();
}
}  // namespace verif_sync
