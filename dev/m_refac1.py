ALL=["P%02d"%i for i in range(1,36)]
def H(decl): return ("table.h","  // Finalize sampling request with a given status.\n", decl+"\n  // Finalize sampling request with a given status.\n")
L="      ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);\n"
M=[]
def ok(n,*eds): M.append((n,ALL,"ok",list(eds)))
S=open('/repo/reverb/cc/table.cc').read()
def between(a,b,s=S):
    i=s.index(a); j=s.index(b,i); return s[i:j]

# common sampling core for the two paths
core_sync=between("      auto sample = sampler_->Sample();\n      std::shared_ptr<Item>& item","    } while (items->size() < batch_size")
core_int=between("  auto sample = sampler_->Sample();\n  std::shared_ptr<Item>& item = data_[sample.key];\n  // If this","  // If there is an upper bound of the number of times an item can be\n  // sampled and it is now reached then delete the item before the lock is\n  // released.\n  if (item")
ok("t-sample-core", H("  std::shared_ptr<Item> SampleOne(bool rate_limited, SampledItem* result)\n"+L),
 ("table.cc",core_sync,'''      items->emplace_back();
      auto item = SampleOne(rate_limited, &items->back());
      if (item->item.times_sampled() == max_times_sampled_) {
        deleted_items.emplace_back();
        REVERB_RETURN_IF_ERROR(
            DeleteItem(item->item.key(), &deleted_items.back()));
      }
'''),
 ("table.cc",core_int,"  auto item = SampleOne(rate_limited, result);\n"),
 ("table.cc","absl::Status Table::SampleInternal(","std::shared_ptr<Table::Item> Table::SampleOne(bool rate_limited,\n                                              SampledItem* result) {\n"+core_int.replace("std::shared_ptr<Item>& item","std::shared_ptr<Item> item")+"  return item;\n}\n\nabsl::Status Table::SampleInternal("))
# common insert tail
tail_int=between("  REVERB_RETURN_IF_ERROR(InsertIntoSelectors(key, priority));\n\n  // Set the insertion timestamp after","absl::Status Table::MutateItems")
tail_body=tail_int.replace("  return absl::OkStatus();\n}\n","")
ok("t-insert-finish", H("  absl::Status FinishInsert(std::shared_ptr<Item> item, std::shared_ptr<Item>* deleted)\n"+L),
 ("table.cc",tail_int,"  return FinishInsert(std::move(item), nullptr);\n}\n\n"),
 ("table.cc","absl::Status Table::InsertOrAssignInternal(","absl::Status Table::FinishInsert(std::shared_ptr<Item> item,\n                                 std::shared_ptr<Item>* deleted) {\n  const auto key = item->item.key();\n  const auto priority = item->item.priority();\n"+tail_int.replace("remover_->Sample().key)","remover_->Sample().key, deleted)")+"absl::Status Table::InsertOrAssignInternal("))
# episode helpers
ok("t-episode-helpers", H("  void AddEpisodeRefs(const Item& item)\n"+L+"  void RemoveEpisodeRefs(const Item& item)\n"+L),
 ("table.cc",'''    for (const auto& chunk : it->second->chunks) {
      ++episode_refs_[chunk->episode_id()];
    }
''',"    AddEpisodeRefs(*it->second);\n"),
 ("table.cc",'''  for (const auto& chunk : it->second->chunks) {
    ++episode_refs_[chunk->episode_id()];
  }
''',"  AddEpisodeRefs(*it->second);\n"),
 ("table.cc",'''  for (const auto& chunk : it->second->chunks) {
    ++episode_refs_[chunk->episode_id()];
  }
''',"  AddEpisodeRefs(*it->second);\n"),
 ("table.cc",between("  for (const auto& chunk : it->second->chunks) {\n    auto ep_it","  ExtensionOperation(ExtensionRequest::CallType::kDelete"),"  RemoveEpisodeRefs(*it->second);\n"),
 ("table.cc","absl::Status Table::DeleteItem(",'''void Table::AddEpisodeRefs(const Item& item) {
  for (const auto& chunk : item.chunks) {
    auto entry = episode_refs_.try_emplace(chunk->episode_id(), 0).first;
    entry->second += 1;
  }
}

void Table::RemoveEpisodeRefs(const Item& item) {
  for (const auto& chunk : item.chunks) {
    auto ep_it = episode_refs_.find(chunk->episode_id());
    REVERB_CHECK(ep_it != episode_refs_.end());
    ep_it->second -= 1;
    if (ep_it->second == 0) {
      ++num_deleted_episodes_;
      episode_refs_.erase(ep_it);
    }
  }
}

absl::Status Table::DeleteItem('''))
# wake helper
ok("t-wake-helper", H("  void WakeUpWorker() ABSL_EXCLUSIVE_LOCKS_REQUIRED(worker_mu_);\n"),
 ("table.cc","    if (worker_state_ != TableWorkerState::kRunning) {\n      wakeup_worker_.Signal();\n    }\n","    WakeUpWorker();\n",0),
 ("table.cc","    if (worker_state_ != TableWorkerState::kRunning) {\n      wakeup_worker_.Signal();\n    }\n","    WakeUpWorker();\n",0),
 ("table.cc","    if (worker_state_ != TableWorkerState::kRunning) {\n      wakeup_worker_.Signal();\n    }\n","    WakeUpWorker();\n",0),
 ("table.cc","absl::Status Table::DeleteItem(","void Table::WakeUpWorker() {\n  if (worker_state_ == TableWorkerState::kRunning) {\n    return;\n  }\n  wakeup_worker_.Signal();\n}\n\nabsl::Status Table::DeleteItem("))
# take one deleted item helper
dele='''    if (!deleted_items_.empty()) {
      to_delete = std::move(deleted_items_.back());
      deleted_items_.pop_back();
    }
'''
ok("t-takedeleted-helper", H("  std::shared_ptr<Item> TakeDeletedItem() ABSL_EXCLUSIVE_LOCKS_REQUIRED(worker_mu_);\n"),
 ("table.cc",dele,"    to_delete = TakeDeletedItem();\n"),("table.cc",dele,"    to_delete = TakeDeletedItem();\n"),
 ("table.cc","absl::Status Table::DeleteItem(",'''std::shared_ptr<Table::Item> Table::TakeDeletedItem() {
  std::shared_ptr<Item> result;
  if (!deleted_items_.empty()) {
    result = std::move(deleted_items_.back());
    deleted_items_.pop_back();
  }
  return result;
}

absl::Status Table::DeleteItem('''))
# extension dispatch: one helper for sync and async
ok("t-ext-dispatch", 
 ("table.cc",between("    switch (type) {\n      case ExtensionRequest::CallType::kInsert:\n        for (auto& extension : sync_extensions_)","  if (!extension_worker_) {\n    // All"),"    for (auto& extension : sync_extensions_) {\n      NotifyExtension(extension.get(), &mu_, type, e_item);\n    }\n  }\n"),
 H("  static void NotifyExtension(TableExtension* extension, absl::Mutex* mu, ExtensionRequest::CallType type, const ExtensionItem& item);\n"),
 ("table.cc","void Table::ExtensionOperation(",'''void Table::NotifyExtension(TableExtension* extension, absl::Mutex* mu,
                            ExtensionRequest::CallType type,
                            const ExtensionItem& item) {
  switch (type) {
    case ExtensionRequest::CallType::kInsert:
      extension->OnInsert(mu, item);
      return;
    case ExtensionRequest::CallType::kSample:
      extension->OnSample(mu, item);
      return;
    case ExtensionRequest::CallType::kUpdate:
      extension->OnUpdate(mu, item);
      return;
    case ExtensionRequest::CallType::kDelete:
      extension->OnDelete(mu, item);
      return;
    case ExtensionRequest::CallType::kMemoryRelease:
      return;
  }
}

void Table::ExtensionOperation('''))
sw=between("        switch (request.call_type) {\n","      }\n    }\n    extension_requests.clear();")
ok("t-ext-async-if", ("table.cc",sw,'''        const auto type = request.call_type;
        for (auto& extension : async_extensions_) {
          if (type == ExtensionRequest::CallType::kInsert) {
            extension->OnInsert(&async_extensions_mu_, request.item);
          } else if (type == ExtensionRequest::CallType::kSample) {
            extension->OnSample(&async_extensions_mu_, request.item);
          } else if (type == ExtensionRequest::CallType::kUpdate) {
            extension->OnUpdate(&async_extensions_mu_, request.item);
          } else if (type == ExtensionRequest::CallType::kDelete) {
            extension->OnDelete(&async_extensions_mu_, request.item);
          }
        }
        if (type == ExtensionRequest::CallType::kDelete ||
            type == ExtensionRequest::CallType::kMemoryRelease) {
          deleted_items.push_back(std::move(request.item.ref));
        }
'''))
ok("t-ext-async-helper", ("table.cc",sw,"        RunAsyncExtensions(request);\n        if (request.call_type == ExtensionRequest::CallType::kDelete ||\n            request.call_type == ExtensionRequest::CallType::kMemoryRelease) {\n          deleted_items.push_back(std::move(request.item.ref));\n        }\n"),
 H("  void RunAsyncExtensions(const ExtensionRequest& request) ABSL_EXCLUSIVE_LOCKS_REQUIRED(async_extensions_mu_);\n"),
 ("table.cc","void Table::ExtensionOperation(","void Table::RunAsyncExtensions(const ExtensionRequest& request) {\n"+__import__("re").sub(r" *deleted_items.push_back\(std::move\(request.item.ref\)\);\n","",sw)+"}\n\nvoid Table::ExtensionOperation("))
ok("t-mutate-return", ("table.cc",'''    for (int i = 0; status.ok() && i < deletes.size(); i++) {
      AwaitExtensionBufferSpace();
      status = DeleteItem(deletes[i], &deleted_items[i]);
    }
''','''    for (int i = 0; i < deletes.size(); i++) {
      AwaitExtensionBufferSpace();
      status = DeleteItem(deletes[i], &deleted_items[i]);
      if (!status.ok()) {
        break;
      }
    }
'''),("table.cc",'''    for (int i = 0; status.ok() && i < updates.size(); i++) {
      AwaitExtensionBufferSpace();
      status = UpdateItem(updates[i].key(), updates[i].priority());
    }
''','''    if (status.ok()) {
      for (const auto& update : updates) {
        AwaitExtensionBufferSpace();
        status = UpdateItem(update.key(), update.priority());
        if (!status.ok()) break;
      }
    }
'''))
ok("t-copy-range", ("table.cc",between("  items.reserve(count == 0 ? data_.size() : count);","  return items;\n}\n\nabsl::Status Table::InsertOrAssign("),'''  const size_t limit = count == 0 ? data_.size() : count;
  items.reserve(limit);
  for (const auto& entry : data_) {
    if (items.size() >= limit) {
      break;
    }
    items.push_back(*entry.second);
  }
'''))
ok("t-reset-order", ("table.cc",between("    sampler_->Clear();\n    remover_->Clear();","    rate_limiter_->Reset(&mu_);\n  }\n"),'''    data_.clear();
    episode_refs_.clear();
    num_unique_samples_ = num_deleted_episodes_ = 0;
    remover_->Clear();
    sampler_->Clear();
'''))
ok("t-checkpoint-stable", ("table.cc",'''  for (const auto& entry : data_) {
    *checkpoint.add_items() = entry.second->item;
    chunks.insert(entry.second->chunks.begin(), entry.second->chunks.end());
  }
''','''  for (const auto& [key, item] : data_) {
    checkpoint.add_items()->CopyFrom(item->item);
    for (const auto& chunk : item->chunks) {
      chunks.insert(chunk);
    }
  }
'''),("table.cc",'''  std::sort(checkpoint.mutable_items()->begin(),
            checkpoint.mutable_items()->end(), IsInsertedBefore);
''','''  auto* items = checkpoint.mutable_items();
  std::stable_sort(items->begin(), items->end(), IsInsertedBefore);
'''))
ok("t-notify-fn", ("table.cc",between("      callback_executor_->Schedule(\n          [notify_inserts_ok","      notify_inserts_ok.clear();"),"      NotifyInserters(std::move(notify_inserts_ok), insert_status);\n"),
 H("  void NotifyInserters(std::vector<std::weak_ptr<std::function<void(const absl::Status&)>>> callbacks, const absl::Status& status);\n"),
 ("table.cc","absl::Status Table::TableWorkerLoop() {",'''void Table::NotifyInserters(
    std::vector<std::weak_ptr<std::function<void(const absl::Status&)>>>
        callbacks,
    const absl::Status& status) {
  callback_executor_->Schedule([callbacks = std::move(callbacks), status] {
    for (const auto& callback : callbacks) {
      if (auto to_notify = callback.lock()) {
        (*to_notify)(status);
      }
    }
  });
}

absl::Status Table::TableWorkerLoop() {'''))
ok("t-process-insert", ("table.cc",'''        if (insert_idx < current_inserts.size() &&
            rate_limiter_->CanInsert(&mu_, 1)) {
''','''        const bool has_insert = insert_idx < current_inserts.size();
        if (has_insert && rate_limiter_->CanInsert(&mu_, 1)) {
'''),("table.cc","InsertOrAssignInternal(current_inserts[insert_idx++]);","InsertOrAssignInternal(current_inserts[insert_idx]);\n          insert_idx++;"),
 ("table.cc",'''        while (sample_idx < current_sampling.size() &&
               current_sampling[sample_idx] == nullptr) {
          sample_idx++;
        }
''','''        for (; sample_idx < current_sampling.size(); ++sample_idx) {
          if (current_sampling[sample_idx] != nullptr) break;
        }
'''))
ok("t-refill-helper", H("  template <typename T>\n  static bool Refill(std::vector<T>* current, int* index, std::vector<T>* pending) {\n    if (*index != current->size() || pending->empty()) {\n      return false;\n    }\n    *index = 0;\n    current->clear();\n    std::swap(*current, *pending);\n    return true;\n  }\n"),
 ("table.cc",'''      if (insert_idx == current_inserts.size() &&
          !pending_inserts_.empty()) {
        // Get a new batch of insert requests as previous batch is done.
        progress++;
        insert_idx = 0;
        current_inserts.clear();
        std::swap(current_inserts, pending_inserts_);
''','''      if (Refill(&current_inserts, &insert_idx, &pending_inserts_)) {
        progress++;
'''),("table.cc",'''      if (sample_idx == current_sampling.size() &&
          !pending_sampling_.empty()) {
        // Get a new batch of sample requests as previous batch is done.
        progress++;
        sample_idx = 0;
        current_sampling.clear();
        std::swap(current_sampling, pending_sampling_);
''','''      if (Refill(&current_sampling, &sample_idx, &pending_sampling_)) {
        progress++;
'''))
ok("t-delete-return", ("table.cc",'''  rate_limiter_->Delete(&mu_);
  REVERB_RETURN_IF_ERROR(sampler_->Delete(key));
  REVERB_RETURN_IF_ERROR(remover_->Delete(key));
  return absl::OkStatus();
''','''  rate_limiter_->Delete(&mu_);
  if (absl::Status status = sampler_->Delete(key); !status.ok()) {
    return status;
  }
  return remover_->Delete(key);
'''))
ok("t-update-nest", ("table.cc",'''  REVERB_RETURN_IF_ERROR(sampler_->Update(key, priority));
  auto status = remover_->Update(key, priority);
  if (!status.ok()) {
''','''  auto* table_item = it->second.get();
  auto status = sampler_->Update(key, priority);
  if (!status.ok()) {
    return status;
  }
  status = remover_->Update(key, priority);
  if (!status.ok()) {
'''),("table.cc","  it->second->item.set_priority(priority);\n  ExtensionOperation(ExtensionRequest::CallType::kUpdate","  table_item->item.set_priority(priority);\n  ExtensionOperation(ExtensionRequest::CallType::kUpdate"))
