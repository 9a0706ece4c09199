def b(n,*e): return (n,['P25'],'bad',list(e))
def k(n,*e): return (n,['P25'],'ok',list(e))
W='writer.cc'; T='support/trajectory_util.cc'
UNDO='''    buffer_.pop_back();
    insert_dtypes_and_shapes_location_ =
        PositiveModulo(insert_dtypes_and_shapes_location_ - 1, max_timesteps_);
    std::swap(dtypes_and_shapes_t,
              inserted_dtypes_and_shapes_[insert_dtypes_and_shapes_location_]);
'''
SWAP='''  std::swap(dtypes_and_shapes_t,
            inserted_dtypes_and_shapes_[insert_dtypes_and_shapes_location_]);
'''
ADV='''  insert_dtypes_and_shapes_location_ =
      (insert_dtypes_and_shapes_location_ + 1) % max_timesteps_;
'''
PUSH='''  buffer_.push_back(std::move(data));
  if (buffer_.size() < chunk_length_) return absl::OkStatus();

  auto status = Finish(/*retry_on_unavailable=*/true);
'''
FIN='''    index_within_episode_ += buffer_.size();
    buffer_.clear();
    next_chunk_key_ = NewID();
'''
TRIM='''    while ((chunks_.size() - 1) * chunk_length_ >= max_timesteps_) {'''
LOOP='''    if (item_chunk_keys.contains(chunk.chunk_key()) &&
        !streamed_chunk_keys_.contains(chunk.chunk_key())) {
      request.r.mutable_chunks()->UnsafeArenaAddAllocated(&chunk);
      keep_chunk_keys.push_back(chunk.chunk_key());
'''
ELSE='''    } else if (streamed_chunk_keys_.contains(chunk.chunk_key())) {
      keep_chunk_keys.push_back(chunk.chunk_key());
    }
'''
BIG='''        for (const auto& chunk : request.r.chunks()) {
          streamed_chunk_keys_.insert(chunk.chunk_key());
        }
        request.Clear();
'''
CONF='''    if (max_in_flight_items_.has_value() &&
        !ConfirmItems(max_in_flight_items_.value() - 1)) {
      return false;
    }
'''
POST='''    for (const auto& chunk : request.r.chunks()) {
      streamed_chunk_keys_.insert(chunk.chunk_key());
    }
    pending_items_.pop_front();
'''
CNT='''    if (request.r.item().send_confirmation()) {
      absl::MutexLock lock(&mu_);
      ++num_items_in_flight_;
    }
'''
STREAM='''    streamed_chunk_keys_.clear();
    context_ = absl::make_unique<grpc::ClientContext>();
    stream_ = stub_->InsertStream(context_.get());
    StartItemConfirmationWorker();
'''
RETRY='''    stream_->WritesDone();
    REVERB_RETURN_IF_ERROR(StopItemConfirmationWorker());
    auto status = FromGrpcStatus(stream_->Finish());
    stream_ = nullptr;
    if (!absl::IsUnavailable(status) || !retry_on_unavailable) {
      return status;
    }
'''
CUR='''  if (!buffer_.empty()) {
    chunk_lengths.push_back(buffer_.size());
    chunk_keys.push_back(next_chunk_key_);
    remaining -= buffer_.size();
  }
'''
HIST='''    chunk_lengths.push_back(range.end() - range.start() + 1);
    chunk_keys.push_back(rit->chunk_key());
    remaining -= chunk_lengths.back();
'''
REV='''  std::reverse(chunk_lengths.begin(), chunk_lengths.end());
  std::reverse(chunk_keys.begin(), chunk_keys.end());
'''
QUEUE='''  pending_items_.push_back(item);

  if (buffer_.empty()) {
    auto status = WriteWithRetries(/*retry_on_unavailable=*/true);
    if (!status.ok()) pending_items_.pop_back();
    return status;
  }
'''
FLUSH='''  if (!pending_items_.empty()) {
    return Finish(/*retry_on_unavailable=*/true);
  }
  if (!ConfirmItems(0)) {'''
FOR='''  for (auto rit = chunks_.rbegin(); remaining > 0 && rit != chunks_.rend();
       ++rit) {'''
SL='''      slice->set_offset(col_offset);
      slice->set_length(
          std::min<int32_t>(chunk_lengths[i] - col_offset, col_remaining));
'''
NX='''      col_offset = 0;
      col_remaining -= slice->length();
'''
M=[
 # A
 b('a-nopop',(W,UNDO,UNDO.replace('    buffer_.pop_back();\n',''))),
 b('a-noloc',(W,UNDO,'    buffer_.pop_back();\n    std::swap(dtypes_and_shapes_t,\n              inserted_dtypes_and_shapes_[insert_dtypes_and_shapes_location_]);\n')),
 b('a-noswap',(W,UNDO,UNDO[:UNDO.index('    std::swap')])),
 b('a-undo-order',(W,UNDO,'    buffer_.pop_back();\n    std::swap(dtypes_and_shapes_t,\n              inserted_dtypes_and_shapes_[insert_dtypes_and_shapes_location_]);\n    insert_dtypes_and_shapes_location_ =\n        PositiveModulo(insert_dtypes_and_shapes_location_ - 1, max_timesteps_);\n')),
 b('a-percent',(W,'PositiveModulo(insert_dtypes_and_shapes_location_ - 1, max_timesteps_);\n    std::swap','(insert_dtypes_and_shapes_location_ - 1) % max_timesteps_;\n    std::swap')),
 b('a-only-transient',(W,'  if (!status.ok()) {\n    // Undo','  if (absl::IsUnavailable(status)) {\n    // Undo')),
 b('a-adv-first',(W,SWAP+ADV,ADV+SWAP)),
 b('a-chunklen-mod',(W,'(insert_dtypes_and_shapes_location_ + 1) % max_timesteps_','(insert_dtypes_and_shapes_location_ + 1) % (max_timesteps_ - 1)')),
 b('a-noadv',(W,ADV,'')),
 b('a-le',(W,'buffer_.size() < chunk_length_) return','buffer_.size() <= chunk_length_) return')),
 b('a-early',(W,PUSH,'  if (buffer_.size() < chunk_length_) {\n    buffer_.push_back(std::move(data));\n    return absl::OkStatus();\n  }\n  auto status = Finish(/*retry_on_unavailable=*/true);\n  buffer_.push_back(std::move(data));\n')),
 b('a-drop-check',(W,'  if (!buffer_.empty() && buffer_.front().size() != data.size()) {','  if (buffer_.empty() && data.empty()) {')),
 b('a-smaller',(W,'buffer_.front().size() != data.size()','buffer_.front().size() > data.size()')),
 b('a-sig-scalars',(W,'  for (const auto& t : data) {\n    dtypes','  for (const auto& t : data) {\n    if (t.dims() == 0) continue;\n    dtypes')),
 b('a-mod-neg',('writer.cc','PositiveModulo(int','PositiveModulo(int')) if False else b('a-swallow',(W,'    std::swap(dtypes_and_shapes_t,\n              inserted_dtypes_and_shapes_[insert_dtypes_and_shapes_location_]);\n  }\n  return status;','    std::swap(dtypes_and_shapes_t,\n              inserted_dtypes_and_shapes_[insert_dtypes_and_shapes_location_]);\n  }\n  if (absl::IsInvalidArgument(status)) return status;\n  return absl::OkStatus();')),
 k('a-helper',(W,'  if (!status.ok()) {\n    // Undo','  if (status.ok()) return status;\n  {\n    // Undo')),
 k('a-ge',(W,'  if (buffer_.size() < chunk_length_) return absl::OkStatus();\n','  const bool full = buffer_.size() >= chunk_length_;\n  if (!full) return absl::OkStatus();\n')),
 k('a-if-wrap',(W,ADV,'  ++insert_dtypes_and_shapes_location_;\n  insert_dtypes_and_shapes_location_ %= max_timesteps_;\n')),
 k('a-reorder-push',(W,SWAP+ADV+'\n  buffer_.push_back(std::move(data));\n','  buffer_.push_back(std::move(data));\n'+SWAP+ADV)),
 k('a-undo-order2',(W,UNDO,UNDO.replace('    buffer_.pop_back();\n','')+'    buffer_.pop_back();\n')),
 k('a-index-loop',(W,'  for (const auto& t : data) {\n    dtypes_and_shapes_t->push_back(\n        {/*name=*/"", t.dtype(), tensorflow::PartialTensorShape(t.shape())});\n  }','  for (size_t c = 0; c < data.size(); ++c) {\n    dtypes_and_shapes_t->push_back(\n        {/*name=*/"", data[c].dtype(), tensorflow::PartialTensorShape(data[c].shape())});\n  }')),
 k('a-emplace',(W,'buffer_.push_back(std::move(data));','buffer_.emplace_back(std::move(data));')),
 k('a-location-var',(W,SWAP,'  const int here = insert_dtypes_and_shapes_location_;\n  std::swap(dtypes_and_shapes_t, inserted_dtypes_and_shapes_[here]);\n')),
 # B
 b('b-skip-first',(W,'for (int j = 0; j < buffer_.size(); ++j) {','for (int j = 1; j < buffer_.size(); ++j) {')),
 b('b-wrong-row',(W,'buffer_[j][i];','buffer_[0][i];')),
 b('b-key-late',(W,FIN,'    next_chunk_key_ = NewID();\n    buffer_.clear();\n    index_within_episode_ += buffer_.size();\n')),
 b('b-no-key',(W,FIN,FIN.replace('    next_chunk_key_ = NewID();\n',''))),
 b('b-no-clear',(W,FIN,FIN.replace('    buffer_.clear();\n',''))),
 b('b-no-index',(W,FIN,FIN.replace('    index_within_episode_ += buffer_.size();\n',''))),
 b('b-index-chunklen',(W,'index_within_episode_ += buffer_.size();','index_within_episode_ += chunk_length_;')),
 b('b-trim-gt',(W,TRIM,'    while (chunks_.size() * chunk_length_ >= max_timesteps_) {')),
 b('b-trim-count',(W,TRIM,'    while ((chunks_.size() - 1) * chunk_length_ + buffer_.size() + 1 >= max_timesteps_) {')),
 b('b-no-popback',(W,'  } else {\n    chunks_.pop_back();\n  }','  }')),
 b('b-popback-unavail',(W,'  } else {\n    chunks_.pop_back();','  } else if (absl::IsUnavailable(status)) {\n    chunks_.pop_back();')),
 b('b-clear-always',(W,'  auto status = WriteWithRetries(retry_on_unavailable);\n  if (status.ok()) {','  auto status = WriteWithRetries(retry_on_unavailable);\n  if (status.ok() || absl::IsUnavailable(status)) {')),
 b('b-end',(W,'                                               buffer_.size() - 1);','                                               buffer_.size());')),
 b('b-end-chunklen',(W,'                                               buffer_.size() - 1);','                                               chunk_length_ - 1);')),
 b('b-newkey',(W,'chunk_data.set_chunk_key(next_chunk_key_);','chunk_data.set_chunk_key(NewID());')),
 b('b-retry-true',(W,'auto status = WriteWithRetries(retry_on_unavailable);','auto status = WriteWithRetries(/*retry_on_unavailable=*/true);')),
 b('b-tensors',(W,'  for (const auto& tensor : batched_tensors) {','  for (const auto& tensor : batched_tensors) {\n    if (tensor.NumElements() == 0) continue;')),
 b('b-clear-before',(W,'  chunks_.emplace_back(std::move(chunk_data));\n','  chunks_.emplace_back(std::move(chunk_data));\n  const auto num_steps = buffer_.size();\n  buffer_.clear();\n'),(W,'index_within_episode_ += buffer_.size();','index_within_episode_ += num_steps;')),
 k('b-early-return',(W,'  if (status.ok()) {\n    index_within','  if (!status.ok()) {\n    chunks_.pop_back();\n    return status;\n  }\n  {\n    index_within'),(W,'  } else {\n    chunks_.pop_back();\n  }\n  return status;\n}\n\nabsl::Status Writer::WriteWithRetries','  }\n  return status;\n}\n\nabsl::Status Writer::WriteWithRetries')),
 k('b-order',(W,FIN,'    next_chunk_key_ = NewID();\n    index_within_episode_ += buffer_.size();\n    buffer_.clear();\n')),
 k('b-plus',(W,'index_within_episode_ += buffer_.size();','const int num_steps = buffer_.size();\n    index_within_episode_ = index_within_episode_ + num_steps;')),
 k('b-trim-later',(W,TRIM,'    while (chunks_.size() > 1 && (chunks_.size() - 1) * chunk_length_ >= max_timesteps_) {')),
 k('b-trim-more',(W,TRIM,'    while ((chunks_.size() - 1) * chunk_length_ > max_timesteps_) {')),
 k('b-range-var',(W,'''  chunk_data.mutable_sequence_range()->set_episode_id(episode_id_);
  chunk_data.mutable_sequence_range()->set_start(index_within_episode_);
  chunk_data.mutable_sequence_range()->set_end(index_within_episode_ +
                                               buffer_.size() - 1);
''','''  auto* range = chunk_data.mutable_sequence_range();
  range->set_start(index_within_episode_);
  range->set_end(range->start() + buffer_.size() - 1);
  range->set_episode_id(episode_id_);
''')),
 k('b-num-steps',(W,'  std::vector<tensorflow::Tensor> batched_tensors;\n','  std::vector<tensorflow::Tensor> batched_tensors;\n  const int num_steps = buffer_.size();\n'),(W,'for (int j = 0; j < buffer_.size(); ++j) {','for (int j = 0; j < num_steps; ++j) {')),
 # C
 b('c-no-clear',(W,STREAM,STREAM.replace('    streamed_chunk_keys_.clear();\n',''))),
 b('c-no-worker',(W,STREAM,STREAM.replace('    StartItemConfirmationWorker();\n',''))),
 b('c-worker-first',(W,STREAM,'    StartItemConfirmationWorker();\n'+STREAM.replace('    StartItemConfirmationWorker();\n',''))),
 b('c-front-only',(W,'  for (const auto& item : pending_items_) {\n    for (auto key','  {\n    const auto& item = pending_items_.front();\n    for (auto key')),
 b('c-keep-missing',(W,LOOP,LOOP.replace('      keep_chunk_keys.push_back(chunk.chunk_key());\n',''))),
 b('c-keep-old',(W,ELSE,'    }\n')),
 b('c-keep-all',(W,ELSE,'    } else {\n      keep_chunk_keys.push_back(chunk.chunk_key());\n    }\n')),
 b('c-send-all-streamed',(W,'if (item_chunk_keys.contains(chunk.chunk_key()) &&\n        !streamed','if (!item_chunk_keys.contains(chunk.chunk_key()) &&\n        !streamed')),
 b('c-note-early',(W,LOOP,LOOP+'      streamed_chunk_keys_.insert(chunk.chunk_key());\n')),
 b('c-note-missing',(W,BIG,'        request.Clear();\n')),
 b('c-note-missing2',(W,POST,'    pending_items_.pop_front();\n')),
 b('c-pop-first',(W,'    bool ok = stream_->Write(request.r, options);\n    if (!ok) return false;\n'+POST,'    bool ok = stream_->Write(request.r, options);\n'+POST.replace('    pending_items_.pop_front();\n','').replace('    for','    pending_items_.pop_front();\n    if (!ok) return false;\n    for'))),
 b('c-no-pop',(W,POST,POST.replace('    pending_items_.pop_front();\n','')),(W,'  while (!pending_items_.empty()) {','  for (const auto& pending : pending_items_) {'),(W,'= pending_items_.front();','= pending;')),
 b('c-back',(W,'= pending_items_.front();','= pending_items_.back();')),
 b('c-limit',(W,'ConfirmItems(max_in_flight_items_.value() - 1)','ConfirmItems(max_in_flight_items_.value())')),
 b('c-nolimit',(W,CONF,'')),
 b('c-limit-outside',(W,'  while (!pending_items_.empty()) {\n'+CONF,CONF+'  while (!pending_items_.empty()) {\n')),
 b('c-noconf',(W,'    request.r.mutable_item()->set_send_confirmation(\n        max_in_flight_items_.has_value());\n','')),
 b('c-conf-last',(W,'        max_in_flight_items_.has_value());\n    bool','        max_in_flight_items_.has_value() && pending_items_.size() == 1);\n    bool')),
 b('c-nocount',(W,CNT,'')),
 b('c-count-first',(W,CONF,CONF+'    if (max_in_flight_items_.has_value()) {\n      absl::MutexLock lock(&mu_);\n      ++num_items_in_flight_;\n    }\n'),(W,CNT,'')),
 b('c-keepset-none',(W,'''    *request.r.mutable_item()->mutable_keep_chunk_keys() = {
        keep_chunk_keys.begin(), keep_chunk_keys.end()};
''','')),
 b('c-ignore-write',(W,'    if (!ok) return false;\n','    if (!ok && pending_items_.size() > 1) return false;\n')),
 b('c-one',(W,CNT,CNT+'    if (num_items_in_flight_ > 100) break;\n')),
 k('c-nested',(W,LOOP,'''    const bool sent = streamed_chunk_keys_.contains(chunk.chunk_key());
    const bool wanted = item_chunk_keys.contains(chunk.chunk_key());
    if (wanted && !sent) {
      request.r.mutable_chunks()->UnsafeArenaAddAllocated(&chunk);
      keep_chunk_keys.push_back(chunk.chunk_key());
'''),(W,ELSE,'''    } else if (sent) {
      keep_chunk_keys.push_back(chunk.chunk_key());
    }
''')),
 k('c-keep-once',(W,LOOP,'''    if (streamed_chunk_keys_.contains(chunk.chunk_key())) {
      keep_chunk_keys.push_back(chunk.chunk_key());
      continue;
    }
    if (item_chunk_keys.contains(chunk.chunk_key())) {
      request.r.mutable_chunks()->UnsafeArenaAddAllocated(&chunk);
      keep_chunk_keys.push_back(chunk.chunk_key());
'''),(W,ELSE,'    }\n')),
 k('c-limited',(W,CNT,CNT.replace('request.r.item().send_confirmation()','max_in_flight_items_.has_value()'))),
 k('c-pop-late',(W,POST,POST.replace('    pending_items_.pop_front();\n','')),(W,CNT,CNT+'    pending_items_.pop_front();\n')),
 k('c-auto-item',(W,'''    *request.r.mutable_item()->mutable_item() = pending_items_.front();
    *request.r.mutable_item()->mutable_keep_chunk_keys() = {
        keep_chunk_keys.begin(), keep_chunk_keys.end()};
    request.r.mutable_item()->set_send_confirmation(
        max_in_flight_items_.has_value());
''','''    auto* insertion = request.r.mutable_item();
    insertion->mutable_item()->CopyFrom(pending_items_.front());
    *insertion->mutable_keep_chunk_keys() = {keep_chunk_keys.begin(),
                                             keep_chunk_keys.end()};
    insertion->set_send_confirmation(max_in_flight_items_.has_value());
''')),
 k('c-write-inline',(W,'    bool ok = stream_->Write(request.r, options);\n    if (!ok) return false;\n','    if (!stream_->Write(request.r, options)) {\n      return false;\n    }\n')),
 k('c-forever',(W,'  while (!pending_items_.empty()) {\n','  while (true) {\n    if (pending_items_.empty()) break;\n')),
 k('c-helper',(W,'bool Writer::WritePendingData() {','''namespace {
void NoteSent(const google::protobuf::RepeatedPtrField<ChunkData>& chunks,
              internal::flat_hash_set<uint64_t>* sent) {
  for (const auto& chunk : chunks) {
    sent->insert(chunk.chunk_key());
  }
}
}  // namespace

bool Writer::WritePendingData() {'''.replace('internal::flat_hash_set','absl::flat_hash_set')),(W,POST,'    NoteSent(request.r.chunks(), &streamed_chunk_keys_);\n    pending_items_.pop_front();\n')),
 k('c-conf-nested',(W,CONF,'''    if (max_in_flight_items_.has_value()) {
      const int limit = *max_in_flight_items_ - 1;
      if (!ConfirmItems(limit)) return false;
    }
''')),
 # D
 b('d-noreset',(W,RETRY,RETRY.replace('    stream_ = nullptr;\n',''))),
 b('d-reset-late',(W,RETRY,RETRY.replace('    stream_ = nullptr;\n','')+'    stream_ = nullptr;\n')),
 b('d-any',(W,'if (!absl::IsUnavailable(status) || !retry_on_unavailable) {','if (status.ok() || !retry_on_unavailable) {')),
 b('d-and',(W,'if (!absl::IsUnavailable(status) || !retry_on_unavailable) {','if (!absl::IsUnavailable(status) && !retry_on_unavailable) {')),
 b('d-never',(W,'if (!absl::IsUnavailable(status) || !retry_on_unavailable) {','if (true) {')),
 b('d-nostop',(W,RETRY,RETRY.replace('    REVERB_RETURN_IF_ERROR(StopItemConfirmationWorker());\n',''))),
 b('d-nostop2',(W,RETRY,RETRY.replace('    REVERB_RETURN_IF_ERROR(StopItemConfirmationWorker());\n','    StopItemConfirmationWorker().IgnoreError();\n'))),
 b('d-ok',(W,RETRY,RETRY.replace('      return status;','      if (absl::IsCancelled(status)) return absl::OkStatus();\n      return status;'))),
 k('d-swap',(W,'if (!absl::IsUnavailable(status) || !retry_on_unavailable) {','const bool again = retry_on_unavailable && absl::IsUnavailable(status);\n    if (!again) {')),
 k('d-dowhile',(W,'  while (true) {\n    if (WritePendingData()) return absl::OkStatus();','  while (!WritePendingData()) {'),(W,RETRY+'  }\n',RETRY+'  }\n  return absl::OkStatus();\n')),
 k('d-reset',(W,'    stream_ = nullptr;\n    if (!absl','    stream_.reset();\n    if (!absl')),
 k('d-recursive',(W,'''    if (!absl::IsUnavailable(status) || !retry_on_unavailable) {
      return status;
    }
''','''    if (!retry_on_unavailable) return status;
    if (!absl::IsUnavailable(status)) return status;
''')),
 # E
 b('e-nobuf',(W,CUR,'')),
 b('e-nosub',(W,CUR,CUR.replace('    remaining -= buffer_.size();\n',''))),
 b('e-buf-chunklen',(W,'chunk_lengths.push_back(buffer_.size());','chunk_lengths.push_back(chunk_length_);')),
 b('e-len',(W,HIST,HIST.replace(' + 1',''))),
 b('e-sub-chunklen',(W,'remaining -= chunk_lengths.back();','remaining -= chunk_length_;')),
 b('e-forward',(W,FOR,'  for (auto rit = chunks_.begin(); remaining > 0 && rit != chunks_.end();\n       ++rit) {')),
 b('e-norev',(W,REV,'  std::reverse(chunk_lengths.begin(), chunk_lengths.end());\n')),
 b('e-norev2',(W,REV,'')),
 b('e-offset',(W,'/*offset=*/-remaining,','/*offset=*/0,')),
 b('e-offset2',(W,'/*offset=*/-remaining,','/*offset=*/-remaining - 1,')),
 b('e-length',(W,'/*length=*/num_timesteps);','/*length=*/num_timesteps + remaining);')),
 b('e-skip',(W,'    const auto& range = rit->sequence_range();\n','    const auto& range = rit->sequence_range();\n    if (range.sparse()) continue;\n')),
 b('e-queue-twice',(W,'  pending_items_.push_back(item);\n','  pending_items_.push_back(item);\n  if (num_timesteps > chunk_length_) pending_items_.push_back(item);\n')),
 b('e-keep-failed',(W,'    if (!status.ok()) pending_items_.pop_back();\n','')),
 b('e-keep-transient',(W,'if (!status.ok()) pending_items_.pop_back();','if (!status.ok() && !absl::IsUnavailable(status)) pending_items_.pop_back();')),
 b('e-delay',(W,'  if (buffer_.empty()) {\n    auto status = Write','  if (buffer_.empty() && pending_items_.size() > 1) {\n    auto status = Write')),
 b('e-swallow',(W,'    if (!status.ok()) pending_items_.pop_back();\n    return status;','    if (!status.ok()) pending_items_.pop_back();\n    return absl::OkStatus();')),
 b('e-noprio',(W,'  item.set_priority(priority);\n','')),
 b('e-nokey',(W,'  item.set_key(NewID());\n','')),
 b('e-short',(W,'  if (remaining > 0) {\n    return absl::Inv','  if (remaining > chunk_length_) {\n    return absl::Inv')),
 b('e-buf-last',(W,CUR,''),(W,'  // Reverse the chunk order.\n',CUR)),
 k('e-if-while',(W,FOR,'  for (auto rit = chunks_.rbegin(); rit != chunks_.rend(); ++rit) {\n    if (remaining <= 0) break;')),
 k('e-range-inline',(W,HIST,'''    const int length = range.end() - range.start() + 1;
    chunk_keys.push_back(rit->chunk_key());
    chunk_lengths.push_back(length);
    remaining -= length;
''')),
 k('e-offset-var',(W,'''  *item.mutable_flat_trajectory() = internal''','''  const int skipped = -remaining;
  *item.mutable_flat_trajectory() = internal'''),(W,'/*offset=*/-remaining,','/*offset=*/skipped,')),
 k('e-rev-order',(W,REV,'  std::reverse(chunk_keys.begin(), chunk_keys.end());\n  std::reverse(chunk_lengths.begin(), chunk_lengths.end());\n')),
 k('e-queue',(W,QUEUE,'''  pending_items_.push_back(std::move(item));

  if (!buffer_.empty()) {
    return absl::OkStatus();
  }
  auto status = WriteWithRetries(/*retry_on_unavailable=*/true);
  if (!status.ok()) {
    pending_items_.pop_back();
    return status;
  }
''')),
 k('e-late-meta',(W,'  item.set_priority(priority);\n',''),(W,'  pending_items_.push_back(item);\n','  item.set_priority(priority);\n  pending_items_.push_back(item);\n')),
 # F
 b('f-noconfirm',(W,'  if (!ConfirmItems(0)) {\n    return absl::Int','  if (!ConfirmItems(1)) {\n    return absl::Int')),
 b('f-never',(W,FLUSH,FLUSH.replace('if (!pending_items_.empty()) {','if (pending_items_.size() > 1) {'))),
 b('f-buffer',(W,FLUSH,FLUSH.replace('if (!pending_items_.empty()) {','if (!buffer_.empty() && !pending_items_.empty()) {'))),
 b('f-empty',(W,FLUSH,FLUSH.replace('if (!pending_items_.empty()) {','if (!pending_items_.empty() || num_items_in_flight_ > 0) {'))),
 b('f-count',(W,'num_items_in_flight_ -= response.keys_size();','--num_items_in_flight_;')),
 b('f-lt',(W,'  return num_items_in_flight_ <= limit;\n}','  return num_items_in_flight_ < limit;\n}')),
 b('f-true',(W,'  return num_items_in_flight_ <= limit;\n}','  return num_items_in_flight_ <= limit || !item_confirmation_worker_running_;\n}')),
 b('f-zero',(W,'num_items_in_flight_ -= response.keys_size();','num_items_in_flight_ = 0;')),
 b('f-running',(W,'  absl::WriterMutexLock lock(&mu_);\n  item_confirmation_worker_running_ = false;\n','')),
 b('f-return',(W,'    if (!stream_->Read(&response)) break;','    if (!stream_->Read(&response)) return;')),
 k('f-nested',(W,FLUSH,'''  if (pending_items_.empty()) {
    if (!ConfirmItems(0)) {
      return absl::InternalError(
          "Error when confirming that all items written to table.");
    }
    return absl::OkStatus();
  }
  return Finish(/*retry_on_unavailable=*/true);
}

std::string Unused() {
  bool x = true;
  if (!x) {'''),(W,'''    return absl::InternalError(
        "Error when confirming that all items written to table.");
  }
  return absl::OkStatus();
}

std::string Writer''','''    return "a";
  }
  return "b";
}

std::string Writer''')),
 k('f-not-gt',(W,'  return num_items_in_flight_ <= limit;\n}','  if (num_items_in_flight_ > limit) return false;\n  return true;\n}')),
 k('f-while',(W,'    if (!stream_->Read(&response)) break;\n','    const bool ok = stream_->Read(&response);\n    if (!ok) break;\n')),
 k('f-set',(W,'num_items_in_flight_ -= response.keys_size();','num_items_in_flight_ = num_items_in_flight_ - response.keys_size();')),
 # G
 b('g-nomin',(T,SL,SL.replace('std::min<int32_t>(chunk_lengths[i] - col_offset, col_remaining)','std::min<int32_t>(chunk_lengths[i], col_remaining)'))),
 b('g-noreset',(T,NX,NX.replace('      col_offset = 0;\n',''))),
 b('g-nosub',(T,NX,NX.replace('      col_remaining -= slice->length();\n','')),(T,'    REVERB_CHECK_EQ(col_remaining, 0);\n','')),
 b('g-sub-len',(T,'col_remaining -= slice->length();','col_remaining -= chunk_lengths[i];')),
 b('g-offset0',(T,'slice->set_offset(col_offset);','slice->set_offset(0);')),
 b('g-reset-first',(T,'      slice->set_offset(col_offset);\n','      if (i > 0) slice->set_offset(col_offset);\n')),
 b('g-key0',(T,'slice->set_chunk_key(chunk_keys[i]);','slice->set_chunk_key(chunk_keys[0]);')),
 b('g-max',(T,'std::min<int32_t>(chunk_lengths[i]','std::max<int32_t>(chunk_lengths[i]')),
 k('g-lenvar',(T,SL,'''      const int32_t slice_length =
          std::min<int32_t>(col_remaining, chunk_lengths[i] - col_offset);
      slice->set_offset(col_offset);
      slice->set_length(slice_length);
'''),(T,NX,'      col_remaining -= slice_length;\n      col_offset = 0;\n')),
 k('g-ifoff',(T,'      slice->set_offset(col_offset);\n','      slice->set_offset(i == 0 ? offset : 0);\n')),
 k('g-ifmin',(T,SL,'''      slice->set_offset(col_offset);
      int slice_length = chunk_lengths[i] - col_offset;
      if (slice_length > col_remaining) slice_length = col_remaining;
      slice->set_length(slice_length);
''')),
 # H
 b('h-first',(W,'for (int i = 0; i < sequence[0].dim_size(0); i++) {','for (int i = 1; i < sequence[0].dim_size(0); i++) {')),
 b('h-row0',(W,'column.SubSlice(i);','column.SubSlice(0);')),
 b('h-skip',(W,'      if (!slice.IsAligned()) {\n        slice = tensorflow::tensor::DeepCopy(slice);\n      }\n','      if (!slice.IsAligned()) {\n        continue;\n      }\n')),
 b('h-stop',(W,'    REVERB_RETURN_IF_ERROR(Append(std::move(step)));','    if (!Append(std::move(step)).ok()) break;')),
 b('h-every',(W,'    REVERB_RETURN_IF_ERROR(Append(std::move(step)));','    if (!step.empty()) REVERB_RETURN_IF_ERROR(Append(std::move(step)));\n    if (i > 1000) break;')),
 k('h-var',(W,'  for (int i = 0; i < sequence[0].dim_size(0); i++) {','  const int num_rows = sequence[0].dim_size(0);\n  for (int i = 0; i < num_rows; i++) {')),
 k('h-status',(W,'    REVERB_RETURN_IF_ERROR(Append(std::move(step)));','    auto status = Append(std::move(step));\n    if (!status.ok()) return status;')),
 k('h-copy',(W,'''      auto slice = column.SubSlice(i);
      if (!slice.IsAligned()) {
        slice = tensorflow::tensor::DeepCopy(slice);
      }
      step.push_back(std::move(slice));
''','''      tensorflow::Tensor slice = column.SubSlice(i);
      step.push_back(slice.IsAligned() ? slice
                                       : tensorflow::tensor::DeepCopy(slice));
''')),
]
