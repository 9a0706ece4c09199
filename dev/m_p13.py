def b(n,*e): return (n,['P13'],'bad',list(e))
def k(n,*e): return (n,['P13'],'ok',list(e))
C='platform/tfrecord_checkpointer.cc'
T='table.cc'; R='rate_limiter.cc'
ITEMS='''  for (const auto& entry : data_) {
    *checkpoint.add_items() = entry.second->item;
    chunks.insert(entry.second->chunks.begin(), entry.second->chunks.end());
  }
'''
CMP='''  return a.inserted_at().seconds() < b.inserted_at().seconds() ||
         (a.inserted_at().seconds() == b.inserted_at().seconds() &&
          a.inserted_at().nanos() < b.inserted_at().nanos());
'''
SORT='''  std::sort(checkpoint.mutable_items()->begin(),
            checkpoint.mutable_items()->end(), IsInsertedBefore);
'''
KEYS='''        REVERB_CHECK(chunk_by_key.contains(key));
        insert_item.chunks.push_back(chunk_by_key[key]);
'''
INS='''      REVERB_CHECK_OK(table->InsertCheckpointItem(std::move(insert_item)));
'''
SWAP='    tables->at(index).swap(table);\n'
STAMP='''  EncodeAsTimestampProto(absl::Now(), item->item.mutable_inserted_at());
'''
CH='      chunk_by_key[chunk_data.chunk_key()] = chunk_store->Insert(chunk_data);\n'
M=[
 # saving
 b('a-drop-maxtimes',(T,'  checkpoint.set_max_times_sampled(max_times_sampled_);\n','')),
 b('a-drop-name',(T,'  checkpoint.set_table_name(name());\n','')),
 b('a-maxsize-data',(T,'  checkpoint.set_max_size(max_size_);\n','  checkpoint.set_max_size(data_.size());\n')),
 b('a-swap-deleted-unique',(T,'checkpoint.set_num_deleted_episodes(num_deleted_episodes_);\n  checkpoint.set_num_unique_samples(num_unique_samples_);','checkpoint.set_num_deleted_episodes(num_unique_samples_);\n  checkpoint.set_num_unique_samples(num_deleted_episodes_);')),
 b('a-sampler-both',(T,'*checkpoint.mutable_remover() = remover_->options();','*checkpoint.mutable_remover() = sampler_->options();')),
 b('a-swap-selectors',(T,'*checkpoint.mutable_sampler() = sampler_->options();\n  *checkpoint.mutable_remover() = remover_->options();','*checkpoint.mutable_sampler() = remover_->options();\n  *checkpoint.mutable_remover() = sampler_->options();')),
 b('a-no-limiter',(T,'  *checkpoint.mutable_rate_limiter() = rate_limiter_->CheckpointReader(&mu_);\n','')),
 b('a-sig-only-if-unlimited',(T,'  if (signature_.has_value()) {\n    *checkpoint.mutable','  if (signature_.has_value() && max_times_sampled_ <= 0) {\n    *checkpoint.mutable')),
 b('a-rl-drop-delete',(R,'  checkpoint.set_delete_count(deletes_);\n','')),
 b('a-rl-swap-diff',(R,'checkpoint.set_min_diff(min_diff_);\n  checkpoint.set_max_diff(max_diff_);','checkpoint.set_min_diff(max_diff_);\n  checkpoint.set_max_diff(min_diff_);')),
 b('a-rl-live',(R,'checkpoint.set_insert_count(inserts_);','checkpoint.set_insert_count(inserts_ - deletes_);')),
 # restoring
 b('b-rl-swap-counts',(R,'inserts_ = checkpoint.insert_count();\n  samples_ = checkpoint.sample_count();','inserts_ = checkpoint.sample_count();\n  samples_ = checkpoint.insert_count();')),
 b('b-rl-no-deletes',(R,'  deletes_ = checkpoint.delete_count();\n','')),
 b('b-rl-swap-diff',(R,'/*min_diff=*/checkpoint.min_diff(),\n                  /*max_diff=*/checkpoint.max_diff())','/*min_diff=*/checkpoint.max_diff(),\n                  /*max_diff=*/checkpoint.min_diff())')),
 b('b-rl-inserts-minus',(R,'inserts_ = checkpoint.insert_count();','inserts_ = checkpoint.insert_count() - checkpoint.delete_count();')),
 b('b-rl-inserts-max',(R,'samples_ = checkpoint.sample_count();','samples_ = std::max<int64_t>(checkpoint.sample_count(), 1);')),
 b('b-swap-selectors',(C,'MakeDistribution(checkpoint.sampler())','MakeDistribution(checkpoint.remover())')),
 b('b-maxsize-items',(C,'/*max_size=*/checkpoint.max_size()','/*max_size=*/checkpoint.items_size()')),
 b('b-times-const',(C,'/*max_times_sampled=*/checkpoint.max_times_sampled()','/*max_times_sampled=*/0')),
 b('b-swap-size-times',(C,'/*max_size=*/checkpoint.max_size(),\n        /*max_times_sampled=*/checkpoint.max_times_sampled()','/*max_size=*/checkpoint.max_times_sampled(),\n        /*max_times_sampled=*/checkpoint.max_size()')),
 b('b-no-signature',(C,'/*signature=*/std::move(signature)','/*signature=*/absl::nullopt')),
 b('b-no-deleted',(C,'    table->set_num_deleted_episodes_from_checkpoint(\n        checkpoint.num_deleted_episodes());\n','')),
 b('b-unique-from-deleted',(C,'        checkpoint.num_unique_samples());','        checkpoint.num_deleted_episodes());')),
 b('b-setter-wrong',(T,'num_unique_samples_ == 0);\n  num_unique_samples_ = value;','num_unique_samples_ == 0);\n  num_deleted_episodes_ = value;')),
 b('b-setter-plus',(T,'num_deleted_episodes_ == 0);\n  num_deleted_episodes_ = value;','num_deleted_episodes_ == 0);\n  if (value > 1) num_deleted_episodes_ = value;')),
 # table in place
 b('c-before-items',(C,'    for (const auto& checkpoint_item : checkpoint.items()) {','    tables->at(index) = table;\n    for (const auto& checkpoint_item : checkpoint.items()) {'),(C,SWAP,'')),
 b('c-never',(C,SWAP,'')),
 b('c-slot0',(C,SWAP,'    tables->at(0).swap(table);\n')),
 b('c-only-if-items',(C,SWAP,'    if (checkpoint.items_size() > 0) tables->at(index).swap(table);\n')),
 b('c-find-index',(C,'''if (tables->at(i)->name() == name) return i;''','''if (tables->at(i)->name() == name) return i > 0 ? i - 1 : i;''')),
 # items
 b('d-skip-item',(C,'      insert_item.item = checkpoint_item;\n','      insert_item.item = checkpoint_item;\n      if (checkpoint_item.times_sampled() > 100) continue;\n')),
 b('d-break',(C,INS,INS+'      if (table->size() >= checkpoint.max_size() / 2) break;\n')),
 b('d-unchecked',(C,INS,'      (void)table->InsertCheckpointItem(std::move(insert_item));\n')),
 b('d-warn',(C,INS,'      if (auto s = table->InsertCheckpointItem(std::move(insert_item)); !s.ok()) {\n        REVERB_LOG(REVERB_WARNING) << s;\n      }\n')),
 b('d-missing-chunk-skip',(C,KEYS,'        if (!chunk_by_key.contains(key)) continue;\n        insert_item.chunks.push_back(chunk_by_key[key]);\n')),
 b('d-chunk-wrong-key',(C,CH,'      chunk_by_key[chunk_data.sequence_range().episode_id()] = chunk_store->Insert(chunk_data);\n')),
 b('d-chunk-skip',(C,CH,'      if (chunk_data.data().tensors_size() > 0) {\n'+CH+'      }\n')),
 b('d-old-table',(C,INS,'      REVERB_CHECK_OK(tables->at(index)->InsertCheckpointItem(std::move(insert_item)));\n')),
 b('d-skip-zero-priority',(C,INS,'      if (checkpoint_item.priority() != 0) {\n'+INS+'      }\n')),
 # capture
 b('e-no-sort',(T,SORT,'')),
 b('e-sort-reversed',(T,CMP,CMP.replace('a.','@.').replace('b.','a.').replace('@.','b.'))),
 b('e-seconds-only',(T,CMP,'  return a.inserted_at().seconds() < b.inserted_at().seconds();\n')),
 b('e-nanos-or',(T,CMP,'''  return a.inserted_at().seconds() < b.inserted_at().seconds() ||
         a.inserted_at().nanos() < b.inserted_at().nanos();
''')),
 b('e-sort-key',(T,'absl::flat_hash_set<std::shared_ptr<ChunkStore::Chunk>> chunks;\n','absl::flat_hash_set<std::shared_ptr<ChunkStore::Chunk>> chunks;\n'),(T,CMP,'  return a.key() < b.key();\n')),
 b('e-skip-expired',(T,ITEMS,ITEMS.replace('    *check','    if (max_times_sampled_ > 0 && entry.second->item.times_sampled() >= max_times_sampled_) continue;\n    *check'))),
 b('e-first-chunk',(T,'    chunks.insert(entry.second->chunks.begin(), entry.second->chunks.end());\n','    if (!entry.second->chunks.empty()) chunks.insert(entry.second->chunks.front());\n')),
 b('e-front-chunk',(T,'    chunks.insert(entry.second->chunks.begin(), entry.second->chunks.end());\n','    chunks.insert(entry.second->chunks.front());\n')),
 b('e-no-chunks-cond',(T,'    chunks.insert(entry.second->chunks.begin(), entry.second->chunks.end());\n','    if (entry.second->item.times_sampled() == 0)\n      chunks.insert(entry.second->chunks.begin(), entry.second->chunks.end());\n')),
 b('e-two-sections',(T,'''  absl::MutexLock lock(&mu_);

  checkpoint.set_num_deleted_episodes(num_deleted_episodes_);
  checkpoint.set_num_unique_samples(num_unique_samples_);
''','''  {
    absl::MutexLock lock(&mu_);
    checkpoint.set_num_deleted_episodes(num_deleted_episodes_);
    checkpoint.set_num_unique_samples(num_unique_samples_);
  }
  absl::MutexLock lock(&mu_);
''')),
 # timestamps
 b('f-no-stamp',(T,STAMP,'')),
 b('f-restamp',(T,'''  const auto key = item.item.key();
  auto it = data_.emplace(''','''  EncodeAsTimestampProto(absl::Now(), item.item.mutable_inserted_at());
  const auto key = item.item.key();
  auto it = data_.emplace(''')),
 b('f-restamp-clear',(T,'''  const auto key = item.item.key();
  auto it = data_.emplace(''','''  item.item.mutable_inserted_at()->set_nanos(0);
  const auto key = item.item.key();
  auto it = data_.emplace(''')),
 b('f-stamp-before-lock',(T,'    EncodeAsTimestampProto(absl::Now(), item.item.mutable_inserted_at());\n',''),(T,'''absl::Status Table::InsertOrAssign(Item item, absl::Duration timeout) {
''','''absl::Status Table::InsertOrAssign(Item item, absl::Duration timeout) {
  EncodeAsTimestampProto(absl::Now(), item.item.mutable_inserted_at());
''')),
 # ---- behaviour preserving
 k('k-local',(T,'  checkpoint.set_max_size(max_size_);\n','  const int64_t limit = max_size_;\n  checkpoint.set_max_size(limit);\n')),
 k('k-order',(T,'  checkpoint.set_max_size(max_size_);\n  checkpoint.set_max_times_sampled(max_times_sampled_);\n','  checkpoint.set_max_times_sampled(max_times_sampled_);\n  checkpoint.set_max_size(max_size_);\n')),
 k('k-copyfrom',(T,'*checkpoint.mutable_sampler() = sampler_->options();','checkpoint.mutable_sampler()->CopyFrom(sampler_->options());')),
 k('k-lock-first',(T,'''  PriorityTableCheckpoint checkpoint;
  checkpoint.set_table_name(name());''','''  absl::MutexLock lock(&mu_);
  PriorityTableCheckpoint checkpoint;
  checkpoint.set_table_name(name());'''),(T,'''  absl::MutexLock lock(&mu_);

  checkpoint.set_num_deleted''','''  checkpoint.set_num_deleted''')),
 k('k-helper',(T,'''Table::CheckpointAndChunks Table::Checkpoint() {''','''namespace {
void FillCounters(PriorityTableCheckpoint* c, int64_t deleted, int64_t unique) {
  c->set_num_deleted_episodes(deleted);
  c->set_num_unique_samples(unique);
}
}  // namespace

Table::CheckpointAndChunks Table::Checkpoint() {'''),(T,'''  checkpoint.set_num_deleted_episodes(num_deleted_episodes_);
  checkpoint.set_num_unique_samples(num_unique_samples_);
''','''  FillCounters(&checkpoint, num_deleted_episodes_, num_unique_samples_);
''')),
 k('k-iter-loop',(T,ITEMS,'''  for (auto it = data_.begin(); it != data_.end(); ++it) {
    *checkpoint.add_items() = it->second->item;
    chunks.insert(it->second->chunks.begin(), it->second->chunks.end());
  }
''')),
 k('k-binding',(T,ITEMS,'''  for (const auto& [key, item] : data_) {
    *checkpoint.add_items() = item->item;
    for (const auto& chunk : item->chunks) {
      chunks.insert(chunk);
    }
  }
''')),
 k('k-item-copyfrom',(T,ITEMS,ITEMS.replace('*checkpoint.add_items() = entry.second->item;','checkpoint.add_items()->CopyFrom(entry.second->item);'))),
 k('k-item-ptr',(T,ITEMS,ITEMS.replace('*checkpoint.add_items() = entry.second->item;','PrioritizedItem* saved = checkpoint.add_items();\n    *saved = entry.second->item;'))),
 k('k-sort-lambda',(T,SORT,'''  std::sort(checkpoint.mutable_items()->begin(),
            checkpoint.mutable_items()->end(),
            [](const PrioritizedItem& x, const PrioritizedItem& y) {
              return IsInsertedBefore(x, y);
            });
''')),
 k('k-sort-local',(T,SORT,'''  auto* items = checkpoint.mutable_items();
  std::stable_sort(items->begin(), items->end(), IsInsertedBefore);
''')),
 k('k-cmp-if',(T,CMP,'''  const auto& x = a.inserted_at();
  const auto& y = b.inserted_at();
  if (x.seconds() != y.seconds()) return x.seconds() < y.seconds();
  return x.nanos() < y.nanos();
''')),
 k('k-rl-order',(R,'''  checkpoint.set_sample_count(samples_);
  checkpoint.set_insert_count(inserts_);
''','''  checkpoint.set_insert_count(inserts_);
  checkpoint.set_sample_count(samples_);
''')),
 k('k-rl-local',(R,'inserts_ = checkpoint.insert_count();','const int64_t inserts = checkpoint.insert_count();\n  inserts_ = inserts;')),
 k('k-reset-slot',(C,SWAP,'    tables->at(index) = std::move(table);\n')),
 k('k-bracket-slot',(C,SWAP,'    (*tables)[index] = table;\n')),
 k('k-swap-std',(C,SWAP,'    std::swap(tables->at(index), table);\n')),
 k('k-emplace-back',(C,KEYS,KEYS.replace('push_back','emplace_back'))),
 k('k-find-chunk',(C,KEYS,'''        auto found = chunk_by_key.find(key);
        REVERB_CHECK(found != chunk_by_key.end());
        insert_item.chunks.push_back(found->second);
''')),
 k('k-return-error',(C,INS,'      REVERB_RETURN_IF_ERROR(table->InsertCheckpointItem(std::move(insert_item)));\n')),
 k('k-status-local',(C,INS,'      const absl::Status inserted =\n          table->InsertCheckpointItem(std::move(insert_item));\n      REVERB_CHECK_OK(inserted);\n')),
 k('k-items-index',(C,'    for (const auto& checkpoint_item : checkpoint.items()) {\n','    for (int i = 0; i < checkpoint.items_size(); ++i) {\n      const auto& checkpoint_item = checkpoint.items(i);\n')),
 k('k-chunk-local',(C,CH,'      auto chunk = chunk_store->Insert(chunk_data);\n      chunk_by_key[chunk->key()] = std::move(chunk);\n')),
 k('k-chunk-emplace',(C,CH,'      chunk_by_key.insert_or_assign(chunk_data.chunk_key(), chunk_store->Insert(chunk_data));\n')),
 k('k-index-bind',(C,'''    tables->at(index).swap(table);''','''    std::shared_ptr<Table>& slot = tables->at(index);
    slot.swap(table);''')),
 k('k-inline-limiter',(C,'''        /*rate_limiter=*/std::move(rate_limiter),
        /*extensions=*/std::move(extensions),''','''        /*rate_limiter=*/std::make_shared<RateLimiter>(checkpoint.rate_limiter()),
        /*extensions=*/std::move(extensions),'''),(C,'''    auto rate_limiter =
        std::make_shared<RateLimiter>(checkpoint.rate_limiter());
''','')),
 k('k-sig-if',(C,'''    auto signature =
        checkpoint.has_signature()
            ? absl::make_optional(std::move(checkpoint.signature()))
            : absl::nullopt;
''','''    absl::optional<tensorflow::StructuredValue> signature;
    if (checkpoint.has_signature()) {
      signature = checkpoint.signature();
    }
''')),
 k('k-stamp-after',(T,STAMP+'  data_[key] = std::move(item);\n','  auto stamped = std::move(item);\n'+STAMP.replace('item->item','stamped->item')+'  data_[key] = std::move(stamped);\n')),
 k('k-stamp-inline',(T,STAMP,'  const absl::Time now = absl::Now();\n  EncodeAsTimestampProto(now, item->item.mutable_inserted_at());\n')),
]
