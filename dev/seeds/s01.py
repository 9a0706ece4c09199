import sys, os; sys.path.insert(0, os.path.dirname(__file__)); from common import TABLE
SEED = dict(property="P04",
 needs="a full table and an insert whose priority is rejected by a selector (negative priority with a prioritized sampler)",
 breaks="the eviction is done before the new item is known to be accepted: an insert that is rejected still evicts an item of a table that never exceeded its maximum size",
 edits=[("table.cc", """    // Remove an item if we exceeded `max_size_`.
    if (data_.size() > max_size_) {
      REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key, &deleted_item));
    }

""", ""), ("table.cc", """    auto status = InsertIntoSelectors(key, priority);
""", """    // Make room for the new item.
    if (data_.size() >= max_size_) {
      REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key, &deleted_item));
    }

    auto status = InsertIntoSelectors(key, priority);
""")],
 demo=TABLE + r'''
int main() {
  auto table = std::make_shared<Table>("t", std::make_shared<PrioritizedSelector>(1.0), std::make_shared<FifoSelector>(),
      /*max_size=*/2, /*max_times_sampled=*/0, std::make_shared<RateLimiter>(1.0, 1, -1e9, 1e9));
  REQUIRE(table->InsertOrAssign(MakeItem(1, 1.0)).ok());
  REQUIRE(table->InsertOrAssign(MakeItem(2, 1.0)).ok());
  REQUIRE(!table->InsertOrAssign(MakeItem(3, -1.0)).ok());
  REQUIRE(table->size() == 2);
  REQUIRE(table->InsertOrAssign(MakeItem(4, 1.0)).ok());
  REQUIRE(table->size() == 2);
  return 0;
}
''')
