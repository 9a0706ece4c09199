import sys, os; sys.path.insert(0, os.path.dirname(__file__)); from common import TABLE
SEED = dict(property="P06",
 needs="a batch of samples taken synchronously from a table with max_times_sampled=1, so that items are removed while the batch is collected",
 breaks="the reported table size of a sample whose item reaches its sample limit is the size after its removal (off by one) instead of the size the item was sampled from",
 edits=[("table.cc", """      // If there is an upper bound of the number of times an item can be
      // sampled and it is now reached then delete the item before the lock is
      // released.
      if (item->item.times_sampled() == max_times_sampled_) {
        deleted_items.emplace_back();
        REVERB_RETURN_IF_ERROR(
            DeleteItem(item->item.key(), &deleted_items.back()));
      }
""", """      // If there is an upper bound of the number of times an item can be
      // sampled and it is now reached then delete the item before the lock is
      // released.
      if (item->item.times_sampled() == max_times_sampled_) {
        deleted_items.emplace_back();
        REVERB_RETURN_IF_ERROR(
            DeleteItem(item->item.key(), &deleted_items.back()));
        items->back().table_size = static_cast<int64_t>(data_.size());
      }
""")],
 demo=TABLE + r'''
int main() {
  auto table = std::make_shared<Table>("t", std::make_shared<FifoSelector>(), std::make_shared<FifoSelector>(),
      /*max_size=*/10, /*max_times_sampled=*/1, std::make_shared<RateLimiter>(1.0, 1, -1e9, 1e9));
  for (int i = 1; i <= 3; i++) REQUIRE(table->InsertOrAssign(MakeItem(i, 1.0)).ok());
  std::vector<Table::SampledItem> items;
  REQUIRE(table->SampleFlexibleBatch(&items, 3, absl::Seconds(1)).ok());
  REQUIRE(items.size() == 3);
  for (int i = 0; i < 3; i++) REQUIRE(items[i].table_size == 3 - i);
  REQUIRE(table->size() == 0);
  return 0;
}
''')
