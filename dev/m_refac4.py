ALL=["P%02d"%i for i in range(1,36)]
M=[]
def ok(n,*eds): M.append((n,ALL,"ok",list(eds)))
A="reverb_service_async_impl.cc"; I="reverb_service_impl.cc"; L="rate_limiter.cc"
R=lambda f: open('/repo/reverb/cc/'+f).read()
def bt(f,a,b):
    s=R(f); i=s.index(a); j=s.index(b,i); return s[i:j]
import re
def anchor(f,pat):
    s=R(f); m=re.search(r"\n[^\n]*"+pat,s); assert m,(f,pat); return m.group(0)
def hdr(f,pat,decl):
    a=anchor(f,pat); return (f,a,decl+a)
ok("a-init-load",(A,bt(A,"  if (checkpointer_ != nullptr) {\n    // We start","  for (auto& table : tables) {\n    std::string name"),"  REVERB_RETURN_IF_ERROR(LoadCheckpoint(&tables));\n\n"),
 hdr("reverb_service_async_impl.h","absl::Status Initialize\\(","\n  absl::Status LoadCheckpoint(std::vector<std::shared_ptr<Table>>* tables);\n"),
 (A,"absl::Status ReverbServiceAsyncImpl::Initialize(",'''absl::Status ReverbServiceAsyncImpl::LoadCheckpoint(
    std::vector<std::shared_ptr<Table>>* tables) {
  if (checkpointer_ == nullptr) {
    return absl::OkStatus();
  }
  absl::Status status = checkpointer_->LoadLatest(&chunk_store_, tables);
  if (absl::IsNotFound(status)) {
    status = checkpointer_->LoadFallbackCheckpoint(&chunk_store_, tables);
  }
  if (absl::IsNotFound(status)) {
    return absl::OkStatus();
  }
  return status;
}

absl::Status ReverbServiceAsyncImpl::Initialize('''))
ok("a-init-name",(A,'''    std::string name = table->name();
    tables_[name] = std::move(table);
  }
''','''    tables_.insert_or_assign(table->name(), table);
  }
'''))
ok("a-insert-lookup-first",(A,bt(A,"      ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());\n      const auto& table_name","      bool can_insert;"),'''      // Check that table name is valid.
      auto table = server_->TableByName(item.item.table());
      if (table == nullptr) {
        return TableNotFound(item.item.table());
      }
      ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());
'''))
ok("a-insert-confirm-helper",(A,bt(A,"      if (send_confirmation) {\n        // The first","      return grpc::Status::OK;\n    }\n\n   private:\n    grpc::Status SaveChunks"),"      if (send_confirmation) Confirm(key);\n"),
 (A,"    grpc::Status SaveChunks(InsertStreamRequest* request) {",'''    void Confirm(Table::Key key) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
      const bool can_extend_last = responses_to_send_.size() >= 2;
      if (!can_extend_last) {
        responses_to_send_.emplace();
      }
      responses_to_send_.back().payload.add_keys(key);
      if (responses_to_send_.size() == 1) {
        MaybeSendNextResponse();
      }
    }

    grpc::Status SaveChunks(InsertStreamRequest* request) {'''))
ok("a-save-emplace",(A,'''        if (!chunks_.contains(key)) {
          chunks_[key] = std::make_shared<ChunkStore::Chunk>(std::move(chunk));
        }
''','''        auto& slot = chunks_[key];
        if (slot == nullptr) {
          slot = std::make_shared<ChunkStore::Chunk>(std::move(chunk));
        }
'''))
ok("a-release-set",(A,bt(A,"      for (auto it = chunks_.cbegin(); it != chunks_.cend();) {","      REVERB_CHECK_EQ(chunks_.size(), keep_keys.size())"),'''      const std::set<uint64_t> keep(keep_keys.begin(), keep_keys.end());
      for (auto it = chunks_.begin(); it != chunks_.end();) {
        auto current = it++;
        if (keep.count(current->first) == 0) {
          chunks_.erase(current);
        }
      }
'''),(A,"#include <algorithm>","#include <algorithm>\n#include <set>"))
ok("a-callback-helper",(A,bt(A,"                  if (!sample->status.ok()) {\n                    if (!is_finished_) {","                  const int next_batch_size = task_info_.NextSampleSize();\n                  if (next_batch_size != 0) {"),'''                  if (!HandleSamples(sample)) return;
'''),(A,"    void ProcessSample(Table::SampledItem* sample, bool write_in_flight)",'''    bool HandleSamples(Table::SampleRequest* sample)
        ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
      if (!sample->status.ok()) {
        if (!is_finished_) {
          SetReactorAsFinished(ToGrpcStatus(sample->status));
        }
        return false;
      }
      task_info_.fetched_samples += sample->samples.size();
      const bool already_writing = !responses_to_send_.empty();
      for (auto& item : sample->samples) {
        ProcessSample(&item, already_writing);
      }
      if (!already_writing) {
        MaybeSendNextResponse();
      }
      return true;
    }

    void ProcessSample(Table::SampledItem* sample, bool write_in_flight)'''))
ok("a-info-helper",(A,bt(A,"          auto* item = entry->mutable_info()->mutable_item();\n          auto& sample_item","        }\n        ChunkData* chunk ="),"          FillInfo(sample, entry->mutable_info());\n"),
 (A,"    void ProcessSample(Table::SampledItem* sample, bool write_in_flight)",'''    static void FillInfo(Table::SampledItem* sample, SampleInfo* info) {
      info->set_probability(sample->probability);
      info->set_table_size(sample->table_size);
      info->set_rate_limited(sample->rate_limited);
      PrioritizedItem* item = info->mutable_item();
      PrioritizedItem& sample_item = sample->ref->item;
      item->set_key(sample_item.key());
      item->set_table(sample_item.table());
      item->set_priority(sample->priority);
      item->set_times_sampled(sample->times_sampled);
      item->set_allocated_inserted_at(sample_item.mutable_inserted_at());
      item->set_allocated_flat_trajectory(
          sample_item.mutable_flat_trajectory());
    }

    void ProcessSample(Table::SampledItem* sample, bool write_in_flight)'''))
ok("a-newresponse-helper",(A,'''        responses_to_send_.emplace();
        current_response_size_bytes_ = 0;
      }
      SampleStreamResponseCtx* response = &responses_to_send_.back();
''','''        StartNewResponse();
      }
      SampleStreamResponseCtx* response = &responses_to_send_.back();
'''),(A,'''          responses_to_send_.emplace();
          current_response_size_bytes_ = 0;
          response = &responses_to_send_.back();
''','''          response = StartNewResponse();
'''),(A,"    void ProcessSample(Table::SampledItem* sample, bool write_in_flight)",'''    SampleStreamResponseCtx* StartNewResponse()
        ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
      current_response_size_bytes_ = 0;
      responses_to_send_.emplace();
      return &responses_to_send_.back();
    }

    void ProcessSample(Table::SampledItem* sample, bool write_in_flight)'''))
ok("a-start-merge",(A,bt(A,"      const int next_batch_size = task_info_.NextSampleSize();\n      if (next_batch_size == 0) {\n        // Current","      waiting_for_enqueued_sample_ = true;"),'''      if (waiting_for_enqueued_sample_ ||
          responses_to_send_.size() >= kMaxQueuedResponses) {
        return;
      }
      const int next_batch_size = task_info_.NextSampleSize();
      if (next_batch_size == 0) {
        return;
      }
'''))
ok("a-timeout-tern",(A,bt(A,"      if (request->has_rate_limiter_timeout() &&\n          request","      task_info_.table = server_"),'''      const int64_t timeout_ms =
          request->has_rate_limiter_timeout()
              ? request->rate_limiter_timeout().milliseconds()
              : -1;
      task_info_.timeout = timeout_ms < 0 ? absl::InfiniteDuration()
                                          : absl::Milliseconds(timeout_ms);

'''))
ok("i-savechunks",(I,bt(I,"    for (auto& chunk : *request.mutable_chunks()) {","    if (request.has_item()) {\n      Table::Item item;"),'''    auto save_status = SaveChunks(&request, &chunks);
    if (!save_status.ok()) return save_status;

'''),hdr("reverb_service_impl.h","Table\\* TableByName","\n  grpc::Status SaveChunks(InsertStreamRequest* request, internal::flat_hash_map<ChunkStore::Key, std::shared_ptr<ChunkStore::Chunk>>* chunks);\n"),
 (I,"grpc::Status ReverbServiceImpl::MutatePriorities(",'''grpc::Status ReverbServiceImpl::SaveChunks(
    InsertStreamRequest* request,
    internal::flat_hash_map<ChunkStore::Key, std::shared_ptr<ChunkStore::Chunk>>*
        chunks) {
  for (int i = 0; i < request->chunks_size(); ++i) {
    ChunkData* data = request->mutable_chunks(i);
    const ChunkStore::Key key = data->chunk_key();
    auto inserted = chunk_store_.Insert(std::move(*data));
    if (inserted == nullptr) {
      return grpc::Status(grpc::StatusCode::CANCELLED,
                          "Service has been closed");
    }
    (*chunks)[key] = std::move(inserted);
  }
  return grpc::Status::OK;
}

grpc::Status ReverbServiceImpl::MutatePriorities('''))
ok("i-item-helper",(I,bt(I,"      auto push_or = [&chunks","      const auto& table_name = request.item().item().table();"),'''      const auto keys =
          internal::GetChunkKeys(request.item().item().flat_trajectory());
      item.chunks.reserve(keys.size());
      for (const ChunkStore::Key key : keys) {
        const auto it = chunks.find(key);
        if (it == chunks.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item.chunks.push_back(it->second);
      }

'''))
ok("i-batch-size",(I,bt(I,"      int32_t max_batch_size = std::min<int32_t>(","      if (auto status =\n              table->SampleFlexibleBatch("),'''      int32_t max_batch_size = request.flexible_batch_size();
      if (max_batch_size == Sampler::kAutoSelectValue) {
        max_batch_size = default_flexible_batch_size;
      }
      max_batch_size =
          std::min<int32_t>(max_batch_size, request.num_samples() - count);
'''))
ok("i-sample-info",(I,bt(I,"            auto* item = entry->mutable_info()->mutable_item();","          // We const cast to avoid"),'''            FillInfo(sample, entry->mutable_info());
          }

'''),(I,"ReverbServiceImpl::ReverbServiceImpl(",'''namespace {

void FillInfo(const Table::SampledItem& sample, SampleInfo* info) {
  info->set_probability(sample.probability);
  info->set_table_size(sample.table_size);
  info->set_rate_limited(sample.rate_limited);
  auto* item = info->mutable_item();
  const auto& source = sample.ref->item;
  item->set_key(source.key());
  item->set_table(source.table());
  *item->mutable_inserted_at() = source.inserted_at();
  *item->mutable_flat_trajectory() = source.flat_trajectory();
  item->set_priority(sample.priority);
  item->set_times_sampled(sample.times_sampled);
}

}  // namespace

ReverbServiceImpl::ReverbServiceImpl('''))
ok("i-stream-sample",(I,bt(I,"      for (auto& sample : samples) {\n        SampleStreamResponse response;","    request.Clear();\n  } while"),'''      for (auto& sample : samples) {
        auto status = SendSample(sample, stream);
        if (!status.ok()) return status;
      }
    }

'''),(I,"grpc::Status ReverbServiceImpl::SampleStreamInternal(","namespace {\n\ngrpc::Status SendSample(\n    const Table::SampledItem& sample,\n    grpc::ServerReaderWriterInterface<SampleStreamResponse,\n                                      SampleStreamRequest>* stream) {\n"+bt(I,"        SampleStreamResponse response;\n        auto* entry","      }\n    }\n\n    request.Clear();")+"  return grpc::Status::OK;\n}\n\n}  // namespace\n\ngrpc::Status ReverbServiceImpl::SampleStreamInternal("))
ok("i-initconn",(I,bt(I,"  auto it = tables_.find(request.table_name());","  // Allocate a new shared pointer on"),'''  if (!tables_.contains(request.table_name())) {
    return TableNotFound(request.table_name());
  }
'''),(I,"new std::shared_ptr<Table>(it->second)","new std::shared_ptr<Table>(tables_.at(request.table_name()))"))
ok("l-wait-helper",(L,'''    auto event = insert_stats_.CreateEvent(mu);
    while (!cancelled_ && !CanInsert(mu, 1)) {
      event.set_was_blocked();
      if (can_insert_cv_.WaitWithDeadline(mu, deadline)) {
        return errors::RateLimiterTimeout();
      }
    }
  }
  REVERB_RETURN_IF_ERROR(CheckIfCancelled(mu));
  return absl::OkStatus();
''','''    auto event = insert_stats_.CreateEvent(mu);
    for (;;) {
      if (cancelled_ || CanInsert(mu, 1)) break;
      event.set_was_blocked();
      const bool timed_out = can_insert_cv_.WaitWithDeadline(mu, deadline);
      if (timed_out) return errors::RateLimiterTimeout();
    }
  }
  return CheckIfCancelled(mu);
'''))
ok("l-commit-helper",(L,'''  sample_stats_.CreateEvent(mu);
  samples_++;
  MaybeSignalCondVars(mu);
  return true;
''','''  sample_stats_.CreateEvent(mu);
  CommitSample(mu);
  return true;
'''),(L,'''  samples_++;
  MaybeSignalCondVars(mu);
  return absl::OkStatus();
''','''  CommitSample(mu);
  return absl::OkStatus();
'''),hdr("rate_limiter.h","void MaybeSignalCondVars\\(","\n  void CommitSample(absl::Mutex* mu) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu);\n"),
 (L,"void RateLimiter::MaybeSignalCondVars(absl::Mutex* mu) {","void RateLimiter::CommitSample(absl::Mutex* mu) {\n  samples_ += 1;\n  MaybeSignalCondVars(mu);\n}\n\nvoid RateLimiter::MaybeSignalCondVars(absl::Mutex* mu) {"))
ok("l-size-var",(L,'''  if (inserts_ - deletes_ < min_size_to_sample_) {
    return false;
  }
  double diff = inserts_ * samples_per_insert_ - samples_ - num_samples;
  return diff >= min_diff_;
''','''  const int64_t size = inserts_ - deletes_;
  const double diff =
      samples_per_insert_ * inserts_ - (samples_ + num_samples);
  return size >= min_size_to_sample_ && !(diff < min_diff_);
'''))
