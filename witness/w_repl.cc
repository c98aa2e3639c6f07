// Witness: master/follower authority, remote subscriptions and replication, the master flip.
#include "stream/stream.h"
#include "stream/replicator.h"
#include "blocks/http/api.h"
namespace verif_repl {
CURRENT_STRUCT(SEntry) {
  CURRENT_FIELD(s, std::string);
  CURRENT_CONSTRUCTOR(SEntry)(std::string s = "") : s(s) {}
};
using current::ss::EntryResponse;
using current::ss::TerminationResponse;
template <typename E>
struct SubImpl {
  EntryResponse operator()(const E&, idxts_t, idxts_t);
  EntryResponse operator()(const std::string&, uint64_t, idxts_t);
  EntryResponse operator()(std::chrono::microseconds);
  EntryResponse EntryResponseIfNoMorePassTypeFilter() const;
  TerminationResponse Terminate();
};
template <typename E>
using Sub = current::ss::StreamSubscriber<SubImpl<E>, E>;
using L = current::locks::MutexLockStatus;
template <typename STREAM>
void use_authority(STREAM& s) {
  s.Publisher()->Publish(SEntry());
  s.BorrowPublisher()->Publish(SEntry());
  s.IsMasterStream();
  s.BecomeMasterStream();
  auto p = s.BecomeFollowingStream();
  s.template Publisher<L::AlreadyLocked>();
  s.template BorrowPublisher<L::AlreadyLocked>();
  s.template IsMasterStream<L::AlreadyLocked>();
  s.template BecomeMasterStream<L::AlreadyLocked>();
  s.template BecomeFollowingStream<L::AlreadyLocked>();
}
void use() {
  using M = current::stream::Stream<SEntry, current::persistence::Memory>;
  using F = current::stream::Stream<SEntry, current::persistence::File>;
  auto m = M::CreateStream();
  auto f = F::CreateStream("f");
  use_authority(*m);
  use_authority(*f);
  using S = current::stream::SubscribableRemoteStream<SEntry>;
  S r("u");
  S r2("u", "a", "b");
  Sub<SEntry> sub;
  auto c = r.Subscribe(sub, 0u, std::chrono::microseconds(0), current::stream::SubscriptionMode::Checked, []() {});
  auto u = r.SubscribeUnchecked(sub, 0u, std::chrono::microseconds(0), current::stream::SubscriptionMode::Checked, []() {});
  r.GetNumberOfEntries();
  current::stream::StreamReplicator<M> repl1(m);
  current::stream::StreamReplicator<F> repl2(f->BecomeFollowingStream());
  SEntry e;
  repl1(e, idxts_t(), idxts_t());
  repl1(SEntry(), idxts_t(), idxts_t());
  repl1(std::string("x"), 0u, idxts_t());
  std::string line;
  repl1(line, 0u, idxts_t());
  repl1(std::chrono::microseconds(1));
  using current::stream::ReplicationMode;
  {
    current::stream::MasterFlipController<M> x(M::CreateStream());
    x.ExposeViaHTTP(0, "/");
    x.StopExposingViaHTTP();
    x.FollowRemoteStream("u");
    x.FlipToMaster(0u);
    x.IsMasterStream();
  }
  {
    current::stream::MasterFlipController<F, current::stream::StreamReplicator<F>, ReplicationMode::Unchecked> x(f);
    x.ExposeViaHTTP(0, "/");
    x.StopExposingViaHTTP();
    x.FollowRemoteStream("u");
    x.FlipToMaster(0u);
    x.IsMasterStream();
  }
}
}  // namespace verif_repl
