// Witness: streams over both persisters, subscriptions (checked and unchecked, to the entry and to a case of a variant),
// master/follower, HTTP subscriptions.
#include "typesystem/variant.h"
#include "stream/stream.h"
#include "blocks/http/api.h"
namespace verif_stream {
CURRENT_STRUCT(SEntry) {
  CURRENT_FIELD(s, std::string);
  CURRENT_CONSTRUCTOR(SEntry)(std::string s = "") : s(s) {}
};
CURRENT_STRUCT(SEntry2) { CURRENT_FIELD(x, int32_t, 0); };
CURRENT_VARIANT(SVariant, SEntry, SEntry2);
using current::ss::EntryResponse;
using current::ss::TerminationResponse;
template <typename E>
struct SubImpl {
  EntryResponse operator()(const E&, idxts_t, idxts_t);
  EntryResponse operator()(const std::string&, uint64_t, idxts_t);
  EntryResponse operator()(std::chrono::microseconds);
  EntryResponse EntryResponseIfNoMorePassTypeFilter() const;
  TerminationResponse Terminate();
};
template <typename E>
using Sub = current::ss::StreamSubscriber<SubImpl<E>, E>;
using L = current::locks::MutexLockStatus;
template <typename STREAM, typename E>
void use() {
  current::Owned<STREAM> s = STREAM::CreateStream();
  s->Publisher()->Publish(E());
  s->Publisher()->Publish(E(), std::chrono::microseconds(1));
  s->Publisher()->PublishUnsafe(std::string("x"));
  s->Publisher()->UpdateHead();
  s->Publisher()->UpdateHead(std::chrono::microseconds(1));
  s->Publisher()->template Publish<L::AlreadyLocked>(E());
  s->Publisher()->template PublishUnsafe<L::AlreadyLocked>(std::string("x"));
  s->Publisher()->template UpdateHead<L::AlreadyLocked>(std::chrono::microseconds(1));
  s->BorrowPublisher()->Publish(E());
  s->IsMasterStream();
  s->BecomeMasterStream();
  auto p = s->BecomeFollowingStream();
  s->template Publisher<L::AlreadyLocked>();
  s->template BorrowPublisher<L::AlreadyLocked>();
  s->template IsMasterStream<L::AlreadyLocked>();
  s->template BecomeMasterStream<L::AlreadyLocked>();
  s->template BecomeFollowingStream<L::AlreadyLocked>();
  Sub<E> sub;
  auto scope1 = s->Subscribe(sub, 1u, std::chrono::microseconds(1), []() {});
  auto scope2 = s->SubscribeUnchecked(sub, 1u, std::chrono::microseconds(1), []() {});
  current::stream::SubscriberScope g;
  g = std::move(scope1);
  g = nullptr;
  static_cast<bool>(g);
  current::stream::SubscriberScope h(std::move(g));
  HTTP(0).Register("/", *s);
  s->Data()->Size();
}
void useall() {
  use<current::stream::Stream<SEntry, current::persistence::Memory>, SEntry>();
  use<current::stream::Stream<SVariant, current::persistence::Memory>, SVariant>();
  {
    auto s = current::stream::Stream<SVariant, current::persistence::Memory>::CreateStream();
    Sub<SEntry> sub;
    auto scope = s->template Subscribe<SEntry>(sub);
    s->Publisher()->Publish(SEntry());
  }
  {
    auto s = current::stream::Stream<SEntry, current::persistence::File>::CreateStream("f");
    s->Publisher()->Publish(SEntry());
    s->BecomeMasterStream();
    auto p = s->BecomeFollowingStream();
    Sub<SEntry> sub;
    auto scope1 = s->Subscribe(sub);
    auto scope2 = s->SubscribeUnchecked(sub);
    HTTP(0).Register("/", *s);
  }
}
}  // namespace verif_stream
