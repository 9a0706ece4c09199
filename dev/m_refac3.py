ALL=["P%02d"%i for i in range(1,36)]
M=[]
def ok(n,*eds): M.append((n,ALL,"ok",list(eds)))
T="trajectory_writer.cc"; C="chunker.cc"; W="writer.cc"
R=lambda f: open('/repo/reverb/cc/'+f).read()
def bt(f,a,b):
    s=R(f); i=s.index(a); j=s.index(b,i); return s[i:j]
TH=R("trajectory_writer.h"); WH=R("writer.h"); CH=R("chunker.h")
def hdr(f,anchor,decl):
    s=R(f); assert anchor in s,(f,anchor)
    return (f,anchor,decl+anchor)
import re
def anchor(f,pat):
    s=R(f); m=re.search(r"\n[^\n]*"+pat,s); assert m,(f,pat); return m.group(0)
ok("tw-chunker-helper", hdr("trajectory_writer.h",anchor("trajectory_writer.h","RunStreamWorker\\("),"\n  void MaybeCreateChunker(int column, const tensorflow::Tensor& tensor);\n"),
 (T,bt(T,"  for (int i = 0; i < data.size(); i++) {\n    if (data[i].has_value() && !chunkers_","  // Append data to respective column chunker."),'''  for (int i = 0; i < data.size(); i++) {
    if (data[i].has_value()) {
      MaybeCreateChunker(i, *data[i]);
    }
  }

'''),(T,"absl::Status TrajectoryWriter::CreateItem(",'''void TrajectoryWriter::MaybeCreateChunker(int column,
                                          const tensorflow::Tensor& tensor) {
  if (chunkers_.contains(column)) {
    return;
  }
  auto override_it = options_override_.find(column);
  std::shared_ptr<ChunkerOptions> chunker_options =
      (override_it != options_override_.end() ? override_it->second
                                              : options_.chunker_options)
          ->Clone();
  auto chunker = std::make_shared<Chunker>(
      internal::TensorSpec{std::to_string(column), tensor.dtype(),
                           tensor.shape()},
      std::move(chunker_options));
  absl::MutexLock lock(&mu_);
  chunkers_.insert({column, std::move(chunker)});
}

absl::Status TrajectoryWriter::CreateItem('''))
ok("tw-reader-lambda",(T,bt(T,"      internal::StartThread(\"TrajectoryWriter_ReaderWorker\", [&] {","  internal::flat_hash_set<uint64_t> streamed_chunk_keys;\n  ArenaOwnedRequest request;\n  while"),'''      internal::StartThread("TrajectoryWriter_ReaderWorker",
                            [&] { RunReader(stream.get()); });

'''),hdr("trajectory_writer.h",anchor("trajectory_writer.h","RunStreamWorker\\("),"\n  void RunReader(InsertStream* stream);\n"),
 (T,"absl::Status TrajectoryWriter::RunStreamWorker() {",'''void TrajectoryWriter::RunReader(InsertStream* stream) {
  for (InsertStreamResponse response; stream->Read(&response);) {
    absl::MutexLock lock(&mu_);
    for (int i = 0; i < response.keys_size(); ++i) {
      in_flight_items_.erase(response.keys(i));
    }
  }
}

absl::Status TrajectoryWriter::RunStreamWorker() {'''))
ok("tw-notify-chunkers",(T,'''    {
      absl::MutexLock lock(&mu_);
      for (auto& [_, chunker] : chunkers_) {
        chunker->OnItemFinalized(item_and_refs.item, item_and_refs.refs);
      }
    }
''',"    NotifyChunkers(item_and_refs);\n"),hdr("trajectory_writer.h",anchor("trajectory_writer.h","RunStreamWorker\\("),"\n  void NotifyChunkers(const ItemAndRefs& item_and_refs);\n"),
 (T,"absl::Status TrajectoryWriter::RunStreamWorker() {",'''void TrajectoryWriter::NotifyChunkers(const ItemAndRefs& item_and_refs) {
  absl::MutexLock lock(&mu_);
  for (auto it = chunkers_.begin(); it != chunkers_.end(); ++it) {
    it->second->OnItemFinalized(item_and_refs.item, item_and_refs.refs);
  }
}

absl::Status TrajectoryWriter::RunStreamWorker() {'''))
ok("tw-send-item-local",(T,bt(T,"  request->r.mutable_item()->unsafe_arena_set_allocated_item(","  grpc::WriteOptions options;\n  options.set_no_compression();\n  return stream->Write"),'''  auto* insert = request->r.mutable_item();
  insert->unsafe_arena_set_allocated_item(const_cast<PrioritizedItem*>(&item));
  for (uint64_t keep_key : keep_keys) insert->add_keep_chunk_keys(keep_key);
  insert->set_send_confirmation(true);
'''))
ok("tw-keepkeys-loop",(T,bt(T,"  for (auto it = write_queue_.begin(); it != write_queue_.end(); it++) {","  return keys;\n}\n\nabsl::Status TrajectoryWriter::RunStreamWorker"),'''  bool front = true;
  for (const auto& pending : write_queue_) {
    if (front) {
      front = false;
      continue;
    }
    for (const auto& ref : pending.refs) {
      const uint64_t key = ref->chunk_key();
      if (streamed_chunk_keys.contains(key)) keys.insert(key);
    }
  }

'''))
ok("tw-flush-helper",(T,bt(T,"  int num_items_to_force_flush =","  // Since all the (referenced) data"),"  REVERB_RETURN_IF_ERROR(ForceFlush(ignore_last_num_items));\n\n"),
 hdr("trajectory_writer.h",anchor("trajectory_writer.h","RunStreamWorker\\("),"\n  absl::Status ForceFlush(int ignore_last_num_items) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);\n"),
 (T,"absl::Status TrajectoryWriter::FlushLocked(int",'''absl::Status TrajectoryWriter::ForceFlush(int ignore_last_num_items) {
  const int num_items = write_queue_.size();
  int idx = 0;
  for (const ItemAndRefs& item : write_queue_) {
    if (idx++ >= num_items - ignore_last_num_items) break;
    for (const std::shared_ptr<CellRef>& ref : item.refs) {
      if (ref->IsReady()) continue;
      auto chunker = ref->chunker().lock();
      REVERB_RETURN_IF_ERROR(chunker->Flush());
    }
  }
  return absl::OkStatus();
}

absl::Status TrajectoryWriter::FlushLocked(int'''))
ok("tw-endepisode-split",(T,bt(T,"  for (auto& [_, chunker] : chunkers_) {\n    if (clear_buffers) {","  episode_id_ = key_generator_->Generate();\n  episode_step_ = 0;"),'''  if (clear_buffers) {
    for (auto& [_, chunker] : chunkers_) {
      chunker->Reset();
    }
  } else {
    for (auto& [_, chunker] : chunkers_) {
      absl::Status status = chunker->Flush();
      if (!status.ok()) {
        unrecoverable_status_ = status;
        return status;
      }
    }
  }

'''))
ok("tw-createitem-oneloop",(T,bt(T,"  item_and_refs.item.set_key(key_generator_->Generate());","  REVERB_RETURN_IF_ERROR(Validate(item_and_refs));"),'''  PrioritizedItem& item = item_and_refs.item;
  for (const TrajectoryColumn& column : trajectory) {
    column.ToProto(item.mutable_flat_trajectory()->add_columns());
  }
  item.set_priority(priority);
  item.set_table(std::string(table));
  item.set_key(key_generator_->Generate());

'''))
ok("tw-worker-loop",(T,bt(T,"              if (closed_) {\n                unrecov","            }\n          })) {"),'''              if (closed_) {
                status = absl::CancelledError(
                    "TrajectoryWriter::Close has been called.");
              } else if (status.ok() || absl::IsUnavailable(status)) {
                continue;
              }
              unrecoverable_status_ = status;
              return;
'''))
ok("tw-pending-count",(T,bt(T,"    int num_pending_items = write_queue_.size() + in","    return num_pending_items <= ignore_last_num_items;"),'''    const bool being_sent =
        !write_queue_.empty() &&
        in_flight_items_.contains(write_queue_.front().item.key());
    const int num_pending_items = write_queue_.size() +
                                  in_flight_items_.size() -
                                  (being_sent ? 1 : 0);

'''))
ok("c-trim-helper",(C,'''  while (active_refs_.size() > options_->GetNumKeepAliveRefs()) {
    active_refs_.pop_front();
  }
''',"  TrimActiveRefs();\n"),(C,'''  while (active_refs_.size() > options_->GetNumKeepAliveRefs()) {
    active_refs_.pop_front();
  }
''',"  TrimActiveRefs();\n"),hdr("chunker.h",anchor("chunker.h","FlushLocked\\("),"\n  void TrimActiveRefs() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);\n"),
 (C,"void Chunker::Reset() {","void Chunker::TrimActiveRefs() {\n  const int limit = options_->GetNumKeepAliveRefs();\n  while (active_refs_.size() > limit) active_refs_.pop_front();\n}\n\nvoid Chunker::Reset() {"))
ok("c-range-helper",(C,bt(C,"    if (!chunk->has_sequence_range()) {","  // Now the chunk has been finalized"),'''    const bool first = !chunk->has_sequence_range();
    SequenceRange* range = chunk->mutable_sequence_range();
    const auto step = ref->episode_step();
    if (first) {
      range->set_episode_id(ref->episode_id());
      range->set_start(step);
    } else {
      REVERB_CHECK(range->episode_id() == ref->episode_id() &&
                   range->end() < step);
      if (range->end() + 1 != step) {
        range->set_sparse(true);
      }
    }
    range->set_end(step);
  }

'''))
ok("c-copy-idx",(C,bt(C,"  int negative_offset = 0;\n","  if (buffer_index < 0) {"),'''  auto found = std::find_if(
      active_refs_.crbegin(), active_refs_.crend(),
      [ref](const std::shared_ptr<CellRef>& r) { return r.get() == ref; });
  const int negative_offset = std::distance(active_refs_.crbegin(), found);

  const int buffer_index =
      static_cast<int>(buffer_.size()) - 1 - negative_offset;
'''))
ok("c-append-merge",(C,bt(C,"  if (!buffer_.empty() &&\n      active_refs_.back()->episode_id() !=","  active_refs_.push_back(\n"),'''  if (!buffer_.empty()) {
    const CellRef& last = *active_refs_.back();
    if (last.episode_id() != episode_info.episode_id) {
      return absl::FailedPreconditionError(
          "Chunker::Append called with new episode when buffer non empty.");
    }
    if (episode_info.step <= last.episode_step()) {
      return absl::FailedPreconditionError(
          "Chunker::Append called with an episode step which was not greater "
          "than already observed.");
    }
  }

'''))
ok("w-batch-column",(W,bt(W,"    std::vector<tensorflow::Tensor> tensors(buffer_.size());","    batched_tensors.emplace_back();"),'''    std::vector<tensorflow::Tensor> tensors;
    tensors.reserve(buffer_.size());
    const auto& want = buffer_[0][i].shape();
    for (int j = 0; j < buffer_.size(); ++j) {
      const tensorflow::Tensor& item = buffer_[j][i];
      if (item.shape() != want) {
        return absl::InvalidArgumentError(
            absl::StrCat("Unable to concatenate tensors at index ", i,
                         " due to mismatched shapes.  Tensor 0 has shape: ",
                         want.DebugString(), ", but tensor ", j,
                         " has shape: ", item.shape().DebugString()));
      }
      tensorflow::TensorShape shape = item.shape();
      shape.InsertDim(0, 1);
      tensors.emplace_back();
      REVERB_CHECK(tensors.back().CopyFrom(item, shape));
    }
'''))
ok("w-metadata",(W,bt(W,"  ChunkData chunk_data;\n","  if (delta_encoded_) {"),'''  ChunkData chunk_data;
  chunk_data.set_chunk_key(next_chunk_key_);
  auto* range = chunk_data.mutable_sequence_range();
  range->set_start(index_within_episode_);
  range->set_end(range->start() + buffer_.size() - 1);
  range->set_episode_id(episode_id_);

'''))
ok("w-open-stream",(W,bt(W,"  if (!stream_) {\n    streamed_chunk_keys_.clear();","  // Stream all chunks which are referenced by the pending"),"  MaybeOpenStream();\n\n"),
 hdr("writer.h",anchor("writer.h","WritePendingData\\("),"\n  void MaybeOpenStream();\n"),
 (W,"bool Writer::WritePendingData() {",'''void Writer::MaybeOpenStream() {
  if (stream_ != nullptr) return;
  context_ = absl::make_unique<grpc::ClientContext>();
  stream_ = stub_->InsertStream(context_.get());
  streamed_chunk_keys_.clear();
  StartItemConfirmationWorker();
}

bool Writer::WritePendingData() {'''))
ok("w-validate-helper",(W,bt(W,"      for (int c = 0; c < dtypes_and_shapes_t->size(); ++c) {\n        const auto& signature","  PrioritizedItem item;\n"),'''      REVERB_RETURN_IF_ERROR(
          CheckSignature(table, t, **dtypes_and_shapes, *dtypes_and_shapes_t));
    }
  }

'''),(W,"absl::Status Writer::CreateItem(",'''namespace {

absl::Status CheckSignature(const std::string& table, int t,
                            const std::vector<internal::TensorSpec>& want,
                            const std::vector<internal::TensorSpec>& seen) {
  for (int c = 0; c < seen.size(); ++c) {
    const bool same_dtype = want[c].dtype == seen[c].dtype;
    if (same_dtype && want[c].shape.IsCompatibleWith(seen[c].shape)) {
      continue;
    }
    return absl::InvalidArgumentError(absl::StrCat(
        "Unable to CreateItem in table '", table, "' at timestep offset ", t,
        ", flattened index ", c, "."));
  }
  return absl::OkStatus();
}

}  // namespace

absl::Status Writer::CreateItem('''))
ok("w-close-nest",(W,'''      if (!absl::IsUnavailable(status) || retry_on_unavailable) {
        return status;
      }
''','''      const bool ignore = absl::IsUnavailable(status) && !retry_on_unavailable;
      if (!ignore) {
        return status;
      }
'''))
ok("w-trim-for",(W,'''    while ((chunks_.size() - 1) * chunk_length_ >= max_timesteps_) {
      streamed_chunk_keys_.erase(chunks_.front().chunk_key());
      chunks_.pop_front();
    }
  } else {
    chunks_.pop_back();
  }
  return status;
''','''    for (; (chunks_.size() - 1) * chunk_length_ >= max_timesteps_;
         chunks_.pop_front()) {
      streamed_chunk_keys_.erase(chunks_.front().chunk_key());
    }
    return absl::OkStatus();
  }
  chunks_.pop_back();
  return status;
'''))
