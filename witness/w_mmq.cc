// Witness: every template of the in-memory queues that a user can instantiate.
#include "blocks/mmq/mmq.h"
#include "blocks/mmq/mmpq.h"
namespace verif_mmq {
struct Consumer {
  current::ss::EntryResponse operator()(std::string&&, idxts_t, idxts_t) { return current::ss::EntryResponse::More; }
  current::ss::EntryResponse operator()(const std::string&, idxts_t, idxts_t) { return current::ss::EntryResponse::More; }
  current::ss::EntryResponse operator()(std::chrono::microseconds) { return current::ss::EntryResponse::More; }
  current::ss::EntryResponse operator()(const std::string&, uint64_t, idxts_t) { return current::ss::EntryResponse::More; }
  current::ss::EntryResponse EntryResponseIfNoMorePassTypeFilter() const { return current::ss::EntryResponse::More; }
  current::ss::TerminationResponse Terminate() { return current::ss::TerminationResponse::Terminate; }
};
using sub_t = current::ss::EntrySubscriber<Consumer, std::string>;
using drop_t = current::mmq::MMQ<std::string, sub_t, 16u, true>;
using wait_t = current::mmq::MMQ<std::string, sub_t, 16u, false>;
using pq_t = current::mmq::MMPQ<std::string, sub_t>;
void use(sub_t& s) {
  const std::string c("x");
  {
    drop_t q(s);
    q.Publish(c);
    q.Publish(std::string("y"));
    q.Publish(c, std::chrono::microseconds(1));
    q.Publish(std::string("y"), std::chrono::microseconds(1));
  }
  {
    wait_t q(s);
    q.Publish(c);
    q.Publish(std::string("y"));
    q.Publish(c, std::chrono::microseconds(1));
    q.Publish(std::string("y"), std::chrono::microseconds(1));
  }
  {
    pq_t q(s);
    q.Publish(std::string("y"));
    q.Publish(std::string("y"), std::chrono::microseconds(1));
    q.UpdateHead();
    q.UpdateHead(std::chrono::microseconds(1));
  }
}
}  // namespace verif_mmq
