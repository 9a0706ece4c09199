t='table.cc'
A=['P03','P04','P05','P06','P32']
def b(n,p,*e): return (n,p if isinstance(p,list) else [p],'bad',list(e))
def k(n,*e): return (n,A,'ok',list(e))
M=[
b('sel-noundo','P03',(t,"    REVERB_CHECK_OK(sampler_->Delete(key));\n","")),
b('del-no-remover','P03',(t,"  REVERB_RETURN_IF_ERROR(remover_->Delete(key));\n  return","  return")),
b('upd-prio-before','P03',(t,"  REVERB_RETURN_IF_ERROR(sampler_->Update(key, priority));\n  auto status = remover_","  it->second->item.set_priority(priority);\n  REVERB_RETURN_IF_ERROR(sampler_->Update(key, priority));\n  auto status = remover_")),
b('upd-no-restore','P03',(t,"    REVERB_CHECK_OK(sampler_->Update(key, it->second->item.priority()));\n","")),
b('upd-no-setprio','P03',(t,"  it->second->item.set_priority(priority);\n","")),
b('epi-skip-async','P03',(t,"++episode_refs_[chunk->episode_id()];","if (chunk->episode_id() > 0) ++episode_refs_[chunk->episode_id()];",1)),
b('epi-break','P03',(t,"++episode_refs_[chunk->episode_id()];","++episode_refs_[chunk->episode_id()]; break;",1)),
b('epi-noerase','P03',(t,"      episode_refs_.erase(ep_it);\n","")),
b('epi-ndel','P03',(t,"      num_deleted_episodes_++;\n","")),
b('epi-inc-before-evict','P03',(t,"""  for (const auto& chunk : it->second->chunks) {
    ++episode_refs_[chunk->episode_id()];
  }

  // Remove an item if we exceeded `max_size_`.
  if (data_.size() > max_size_) {
    REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key));
  }
""","""  if (data_.size() > max_size_) {
    REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key));
    return absl::OkStatus();
  }
  for (const auto& chunk : it->second->chunks) {
    ++episode_refs_[chunk->episode_id()];
  }
""")),
b('cap-ge','P04',(t,"if (data_.size() > max_size_) {","if (data_.size() > max_size_ + 1) {")),
b('cap-ge2','P04',(t,"if (data_.size() > max_size_) {","if (data_.size() > max_size_ + 1) {",1)),
b('cap-before','P04',(t,"  REVERB_RETURN_IF_ERROR(InsertIntoSelectors(key, priority));\n","  if (data_.size() > max_size_) {\n    REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key));\n  }\n  REVERB_RETURN_IF_ERROR(InsertIntoSelectors(key, priority));\n"),(t,"""  // Remove an item if we exceeded `max_size_`.
  if (data_.size() > max_size_) {
    REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key));
  }
""","")),
b('cap-sampler','P04',(t,"DeleteItem(remover_->Sample().key));","DeleteItem(sampler_->Sample().key));")),
b('no-limiter-insert','P05',(t,"  rate_limiter_->Insert(&mu_);\n  return absl::OkStatus();","  return absl::OkStatus();")),
b('no-limiter-delete','P05',(t,"  rate_limiter_->Delete(&mu_);\n","")),
b('insert-cond','P05',(t,"""    rate_limiter_->Insert(&mu_);
  }

  return absl""","""    if (deleted_item == nullptr) rate_limiter_->Insert(&mu_);
  }

  return absl""")),
b('no-recheck','P05',(t,"""    if (data_.contains(key)) {
      // If the insert""","""    if (false && data_.contains(key)) {
      // If the insert""")),
b('unique','P06',(t,"times_sampled() == 0) {\n    ++num","times_sampled() == 1) {\n    ++num")),
b('unique-order','P06',(t,"""  if (item->item.times_sampled() == 0) {
    ++num_unique_samples_;
  }
  // Increment the sample count.
  item->item.set_times_sampled(item->item.times_sampled() + 1);
""","""  item->item.set_times_sampled(item->item.times_sampled() + 1);
  if (item->item.times_sampled() == 0) {
    ++num_unique_samples_;
  }
""")),
b('maxtimes','P06',(t,"if (item->item.times_sampled() == max_times_sampled_) {\n    REV","if (item->item.times_sampled() > max_times_sampled_) {\n    REV")),
b('maxtimes2','P06',(t,"if (item->item.times_sampled() == max_times_sampled_) {\n        del","if (item->item.times_sampled() == max_times_sampled_ && !rate_limited) {\n        del")),
b('prio-remover','P03',(t,"auto status = remover_->Insert(key, priority);","auto status = remover_->Insert(key, 1.0);")),
b('reset-no-uniq','P06',(t,"  num_unique_samples_ = 0;\n","")),
b('ext-no-delete','P32',(t,"  ExtensionOperation(ExtensionRequest::CallType::kDelete, it->second);\n","  if (deleted_item) ExtensionOperation(ExtensionRequest::CallType::kDelete, it->second);\n")),
b('ext-update-missing','P32',(t,"  ExtensionOperation(ExtensionRequest::CallType::kUpdate, it->second);\n","")),
b('batch-le','P06',(t,"while (items->size() < batch_size &&","while (items->size() <= batch_size &&")),
b('sampled-size','P06',(t,"""  // Copy Details of the sampled item.
  *result = {""","""  const double prio0 = item->item.times_sampled();
  *result = {"""),(t,".times_sampled = item->item.times_sampled(),\n      .rate_limited = rate_limited,\n  };\n\n  // Notify",".times_sampled = item->item.times_sampled() + 1,\n      .rate_limited = rate_limited,\n  };\n\n  // Notify")),
b('uncommitted-sample','P05',(t,"while (items->size() < batch_size &&\n             rate_limiter_->MaybeCommitSample(&mu_));","while (items->size() < batch_size && !data_.empty());")),
# behaviour preserving
k('k-const-it',(t,"  auto it = data_.find(key);\n  ExtensionOperation(ExtensionRequest::CallType::kInsert, it->second);\n","  std::shared_ptr<Item>& stored = data_[key];\n  ExtensionOperation(ExtensionRequest::CallType::kInsert, stored);\n"),(t,"""  for (const auto& chunk : it->second->chunks) {
    ++episode_refs_[chunk->episode_id()];
  }

  // Remove an item if we exceeded `max_size_`.
  if (data_.size() > max_size_) {
    REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key));""","""  for (size_t c = 0; c < stored->chunks.size(); c++) {
    episode_refs_[stored->chunks[c]->episode_id()] += 1;
  }

  // Remove an item if we exceeded `max_size_`.
  if (data_.size() > max_size_) {
    REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key));""")),
k('k-dtor-order',(t,"  data_.erase(it);\n  rate_limiter_->Delete(&mu_);\n  REVERB_RETURN_IF_ERROR(sampler_->Delete(key));\n  REVERB_RETURN_IF_ERROR(remover_->Delete(key));\n","  REVERB_RETURN_IF_ERROR(remover_->Delete(key));\n  REVERB_RETURN_IF_ERROR(sampler_->Delete(key));\n  rate_limiter_->Delete(&mu_);\n  data_.erase(it);\n")),
k('k-emplace',(t,"  data_[key] = std::move(item);\n\n  auto it = data_.find(key);","  auto it = data_.emplace(key, std::move(item)).first;")),
k('k-maxge',(t,"if (item->item.times_sampled() == max_times_sampled_) {\n    REV","const bool last = max_times_sampled_ > 0 && item->item.times_sampled() >= max_times_sampled_;\n  if (last) {\n    REV")),
k('k-size-ge',(t,"if (data_.size() > max_size_) {","if (static_cast<int64_t>(data_.size()) >= max_size_ + 1) {")),
k('k-evict-var',(t,"DeleteItem(remover_->Sample().key));","DeleteItem(remover_->Sample().key, nullptr));")),
k('k-evict-var2',(t,"    REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key));","    const auto victim = remover_->Sample();\n    auto st = DeleteItem(victim.key);\n    if (!st.ok()) return st;")),
k('k-epi-find',(t,"""    auto ep_it = episode_refs_.find(chunk->episode_id());
    REVERB_CHECK(ep_it != episode_refs_.end());
    if (--(ep_it->second) == 0) {
      episode_refs_.erase(ep_it);
      num_deleted_episodes_++;
    }""","""    const auto episode = chunk->episode_id();
    auto ep_it = episode_refs_.find(episode);
    REVERB_CHECK(ep_it != episode_refs_.end());
    --(ep_it->second);
    if (ep_it->second > 0) continue;
    ++num_deleted_episodes_;
    episode_refs_.erase(episode);""")),
k('k-epi-find2',(t,"""    if (--(ep_it->second) == 0) {
      episode_refs_.erase(ep_it);
      num_deleted_episodes_++;
    }""","""    if (ep_it->second == 1) {
      episode_refs_.erase(ep_it);
      num_deleted_episodes_++;
    } else {
      ep_it->second--;
    }""")),
k('k-sample-fields',(t,"""      SampledItem sampled_item = {
          .ref = item,
          .probability = sample.probability,
          .table_size = static_cast<int64_t>(data_.size()),
          .priority = item->item.priority(),
          .times_sampled = item->item.times_sampled(),
          .rate_limited = rate_limited,
      };
""","""      SampledItem sampled_item;
      sampled_item.ref = item;
      sampled_item.probability = sample.probability;
      sampled_item.table_size = static_cast<int64_t>(data_.size());
      sampled_item.priority = item->item.priority();
      sampled_item.times_sampled = item->item.times_sampled();
      sampled_item.rate_limited = rate_limited;
""")),
k('k-unique-flag',(t,"""  if (item->item.times_sampled() == 0) {
    ++num_unique_samples_;
  }
  // Increment the sample count.
  item->item.set_times_sampled(item->item.times_sampled() + 1);
""","""  const auto before = item->item.times_sampled();
  item->item.set_times_sampled(before + 1);
  if (before == 0) num_unique_samples_ += 1;
""")),
k('k-sel-undo',(t,"""  REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
  auto status = remover_->Insert(key, priority);
  if (!status.ok()) {
    REVERB_CHECK_OK(sampler_->Delete(key));
  }
  return status;""","""  REVERB_RETURN_IF_ERROR(remover_->Insert(key, priority));
  auto status = sampler_->Insert(key, priority);
  if (status.ok()) return status;
  REVERB_CHECK_OK(remover_->Delete(key));
  return status;""")),
k('k-batch-for',(t,"while (items->size() < batch_size &&\n             rate_limiter_->MaybeCommitSample(&mu_));","while (static_cast<int>(items->size()) != batch_size &&\n             rate_limiter_->MaybeCommitSample(&mu_));")),
k('k-helper',(t,"absl::Status Table::SampleInternal(bool","namespace {\nbool FirstSample(const PrioritizedItem& item) { return item.times_sampled() == 0; }\n}\nabsl::Status Table::SampleInternal(bool"),(t,"""  if (item->item.times_sampled() == 0) {
    ++num""","""  if (FirstSample(item->item)) {
    ++num""")),
]
