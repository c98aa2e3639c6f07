// Witness: the storage, all its containers, ordered and unordered, both persisters, master and following, all kinds of transactions.
#include "storage/storage.h"
#include "storage/persister/stream.h"
namespace verif_storage {
CURRENT_ENUM(Row, uint64_t) { INVALID = 0u };
CURRENT_STRUCT(DPatch) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_CONSTRUCTOR(DPatch)(int32_t x = 0) : x(x) {}
};
CURRENT_STRUCT(DEntry) {
  CURRENT_FIELD(key, std::string);
  CURRENT_FIELD(x, int32_t, 0);
#ifdef CURRENT_STORAGE_PATCH_SUPPORT
  using patch_object_t = DPatch;
  void PatchWith(const patch_object_t& p) { x = p.x; }
#endif
};
CURRENT_STRUCT(MEntry) {
  CURRENT_FIELD(row, int32_t, 0);
  CURRENT_FIELD(col, std::string);
  CURRENT_FIELD(x, int32_t, 0);
};
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, DEntry, EUD);
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, DEntry, EOD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToUnorderedMany, MEntry, EUMUM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToOrderedMany, MEntry, EOMOM);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedMany, MEntry, EUOUM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedMany, MEntry, EOOOM);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedOne, MEntry, EUOUO);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedOne, MEntry, EOOOO);
CURRENT_STORAGE(Db) {
  CURRENT_STORAGE_FIELD(ud, EUD);
  CURRENT_STORAGE_FIELD(od, EOD);
  CURRENT_STORAGE_FIELD(umum, EUMUM);
  CURRENT_STORAGE_FIELD(omom, EOMOM);
  CURRENT_STORAGE_FIELD(uoum, EUOUM);
  CURRENT_STORAGE_FIELD(ooom, EOOOM);
  CURRENT_STORAGE_FIELD(uouo, EUOUO);
  CURRENT_STORAGE_FIELD(oooo, EOOOO);
};
template <typename T>
void dict(T& t) {
  t.Add(DEntry());
  t.Erase("x");
  t.Has("x");
  t["x"];
  t.LastModified("x");
  t.Empty();
  t.Size();
#ifdef CURRENT_STORAGE_PATCH_SUPPORT
  t.Patch("x", DPatch(1));
#endif
  for (auto it = t.begin(); it != t.end(); ++it) {
    it.key();
    *it;
  }
}
template <typename T>
void mat(T& t) {
  t.Add(MEntry());
  t.Erase(1, "x");
  t.Erase(std::make_pair(1, std::string("x")));
  t.Get(1, "x");
  t[std::make_pair(1, std::string("x"))];
  t.LastModified(1, "x");
  t.Empty();
  t.Size();
  t.Rows().Size();
  t.Cols().Size();
  t.Rows().Has(1);
  t.Cols().Has("x");
  for (auto it = t.begin(); it != t.end(); ++it) {
    *it;
  }
}
template <typename T>
void mm(T& t) {
  mat(t);
  t.Has(1, "x");
  t.Has(std::make_pair(1, std::string("x")));
  t.Row(1).Size();
  t.Col("x").Size();
  t.Rows()[1];
  t.Cols()["x"];
}
template <typename T>
void om(T& t) {
  mat(t);
  t.Has(1, "x");
  t.Has(std::make_pair(1, std::string("x")));
  t.EraseCol("x");
  t.GetEntryFromCol("x");
  t.DoesNotConflict(1, "x");
  t.Row(1).Size();
  t.Rows()[1];
}
template <typename T>
void oo(T& t) {
  mat(t);
  t.EraseRow(1);
  t.EraseCol("x");
  t.GetEntryFromRow(1);
  t.GetEntryFromCol("x");
  t.DoesNotConflict(1, "x");
}
template <typename S>
void storage(current::Owned<S> s) {
  using L = current::locks::MutexLockStatus;
  s->ReadWriteTransaction([](MutableFields<S> f) -> int {
    dict(f.ud); dict(f.od);
    mm(f.umum); mm(f.omom);
    om(f.uoum); om(f.ooom);
    oo(f.uouo); oo(f.oooo);
    f.SetTransactionMetaField("a", "b");
    f.EraseTransactionMetaField("a");
    CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, 1);
    return 1;
  });
  s->ReadWriteTransaction([](MutableFields<S>) { CURRENT_STORAGE_THROW_ROLLBACK(); });
  s->ReadWriteTransaction([](MutableFields<S>) -> int { return 1; }, [](int) {});
  s->ReadOnlyTransaction([](ImmutableFields<S>) -> int { return 1; });
  s->ReadOnlyTransaction([](ImmutableFields<S>) {});
  s->ReadOnlyTransaction([](ImmutableFields<S>) -> int { return 1; }, [](int) {});
  s->template ReadWriteTransaction<L::AlreadyLocked>([](MutableFields<S>) -> int { return 1; });
  s->template ReadOnlyTransaction<L::AlreadyLocked>([](ImmutableFields<S>) -> int { return 1; });
  s->IsMasterStorage();
  s->LastAppliedTimestamp();
  s->FlipToMaster();
  s->GracefulShutdown();
  s->PublisherUsed();
  s->BorrowUnderlyingStream();
  s->ExposeRawLogViaHTTP(1, "/x");
}
void run() {
  using M = Db<StreamInMemoryStreamPersister>;
  using F = Db<StreamStreamPersister>;
  storage(M::CreateMasterStorage());
  storage(F::CreateFollowingStorage("x"));
  storage(M::CreateMasterStorageAtopExistingStream(M::stream_t::CreateStream()));
  storage(F::CreateFollowingStorageAtopExistingStream(F::stream_t::CreateStream("x")));
}
}  // namespace verif_storage
