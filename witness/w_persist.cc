// Witness: every public entry point of the two persisters, for a plain entry and for a variant entry, with both lock modes.
#include "typesystem/variant.h"
#include "blocks/persistence/file.h"
#include "blocks/persistence/memory.h"
namespace verif_persist {
CURRENT_STRUCT(PEntry) {
  CURRENT_FIELD(s, std::string);
  CURRENT_CONSTRUCTOR(PEntry)(std::string s = "") : s(s) {}
};
CURRENT_STRUCT(PEntry2) { CURRENT_FIELD(x, int32_t, 0); };
CURRENT_VARIANT(PVariant, PEntry, PEntry2);
using L = current::locks::MutexLockStatus;
template <L MLS, typename P, typename E>
void publish(P& p, const E& e) {
  const auto us = std::chrono::microseconds(1);
  p.template Publish<MLS>(e);
  p.template Publish<MLS>(e, us);
  p.template Publish<MLS>(E(e));
  p.template Publish<MLS>(E(e), us);
  const std::string raw("x");
  p.template PersisterPublishUnsafeImpl<MLS>(raw);
  p.template UpdateHead<MLS>();
  p.template UpdateHead<MLS>(us);
}
template <L MLS, typename P>
void read(const P& p) {
  const auto us = std::chrono::microseconds(1);
  p.template Empty<MLS>();
  p.template Size<MLS>();
  p.template CurrentHead<MLS>();
  p.template LastPublishedIndexAndTimestamp<MLS>();
  p.template HeadAndLastPublishedIndexAndTimestamp<MLS>();
  p.template IndexRangeByTimestampRange<MLS>(us, us);
  for (const auto& e : p.template Iterate<MLS>(0u, 1u)) { e.idx_ts; e.entry; }
  for (const auto& e : p.template Iterate<MLS>(us, us)) { e.idx_ts; e.entry; }
  for (const auto& e : p.template IterateUnsafe<MLS>(0u, 1u)) { e.length(); }
  for (const auto& e : p.template IterateUnsafe<MLS>(us, us)) { e.length(); }
  static_cast<bool>(p.template Iterate<MLS>(0u, 1u));
}
void use(std::mutex& m, const current::ss::StreamNamespaceName& n) {
  current::persistence::File<PEntry> f(m, n, "x");
  current::persistence::File<PVariant> fv(m, n, "x");
  current::persistence::Memory<PEntry> q(m, n);
  current::persistence::Memory<PVariant> qv(m, n);
  publish<L::NeedToLock>(f, PEntry());
  publish<L::AlreadyLocked>(f, PEntry());
  publish<L::NeedToLock>(fv, PVariant());
  publish<L::NeedToLock>(q, PEntry());
  publish<L::AlreadyLocked>(q, PEntry());
  publish<L::NeedToLock>(qv, PVariant());
  fv.Publish(PEntry());
  qv.Publish(PEntry());
  read<L::NeedToLock>(f);
  read<L::AlreadyLocked>(f);
  read<L::NeedToLock>(q);
  read<L::AlreadyLocked>(q);
  read<L::NeedToLock>(fv);
  read<L::NeedToLock>(qv);
}
}  // namespace verif_persist
