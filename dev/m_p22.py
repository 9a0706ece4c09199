def b(n,*e): return (n,['P22'],'bad',list(e))
def k(n,*e): return (n,['P22'],'ok',list(e))
T='trajectory_writer.cc'; H='trajectory_writer.h'
COND='''    if (!ref->IsReady() || streamed_chunk_keys->contains(ref->chunk_key())) {
      continue;
    }
'''
CA='''      if (!ContainsAll(streamed_chunk_keys, item_and_refs.refs)) {'''
POP='''      write_queue_.pop_front();
'''
M=[
 b('no-ready',(T,COND,'''    if (streamed_chunk_keys->contains(ref->chunk_key())) {
      continue;
    }
''')),
 b('no-contains',(T,COND,'''    if (!ref->IsReady()) {
      continue;
    }
''')),
 b('insert-always',(T,COND,'''    streamed_chunk_keys->insert(ref->chunk_key());
'''+COND),(T,'''        const_cast<ChunkData*>(ref->GetChunk()->get()));
    streamed_chunk_keys->insert(ref->chunk_key());
''','''        const_cast<ChunkData*>(ref->GetChunk()->get()));
''')),
 b('no-note',(T,'''        const_cast<ChunkData*>(ref->GetChunk()->get()));
    streamed_chunk_keys->insert(ref->chunk_key());
''','''        const_cast<ChunkData*>(ref->GetChunk()->get()));
''')),
 b('clear-unwritten',(T,'''      if (!stream->Write(request->r, options)) {
        return false;
      }
''','''''')),
 b('write-ignored',(T,'''      if (!stream->Write(request->r, options)) {
        return false;
      }
''','''      stream->Write(request->r, options);
''')),
 b('clear-below',(T,'''      request->Clear();
    }
  }
  // Remaining''','''    }
    request->Clear();
  }
  // Remaining''')),
 b('allready',(T,CA,'''      if (!AllReady(item_and_refs.refs)) {''')),
 b('no-all',(T,CA,'''      if (!ContainsAll(streamed_chunk_keys, item_and_refs.refs) && !closed_ && false) {''')),
 b('any',(T,'''  return absl::c_all_of(refs, [&set](const auto& ref) {
    return set''','''  return absl::c_any_of(refs, [&set](const auto& ref) {
    return set''')),
 b('no-continue',(T,'''          data_cv_.Wait(&mu_);
        }
        continue;''','''          data_cv_.Wait(&mu_);
          continue;
        }''')),
 b('keep-nofilter',(T,'''      if (streamed_chunk_keys.contains(key)) {
        keys.insert(key);
      }''','''      keys.insert(key);''')),
 b('keep-nofilter2',(T,'''      if (streamed_chunk_keys.contains(ref->chunk_key())) {
        keys.insert(ref->chunk_key());
      }''','''      keys.insert(ref->chunk_key());''')),
 b('keep-nochunkers',(T,'''  for (const auto& it : chunkers_) {
    for (uint64_t key : it.second->GetKeepKeys()) {''','''  for (const auto& it : chunkers_) {
    if (it.first > 0) break;
    for (uint64_t key : it.second->GetKeepKeys()) {''')),
 b('keep-noqueue',(T,'''  for (auto it = write_queue_.begin(); it != write_queue_.end(); it++) {''','''  for (auto it = write_queue_.begin(); it != write_queue_.end() && write_queue_.size() > 2; it++) {''')),
 b('keep-noqueue2',(T,'''    if (it == write_queue_.begin()) continue;
''','''    if (it == write_queue_.begin() || it->refs.size() > 1) continue;
''')),
 b('keep-next2',(T,'for (auto it = write_queue_.begin(); it != write_queue_.end(); it++) {','for (auto it = std::next(write_queue_.begin(), 2); it != write_queue_.end(); it++) {')),
 b('keep-firstref',(T,'''        keys.insert(ref->chunk_key());
      }
    }''','''        keys.insert(ref->chunk_key());
        break;
      }
    }''')),
 b('keep-other',(T,'''    if (!SendItem(stream.get(), streamed_chunk_keys, item_and_refs.item,''','''    if (!SendItem(stream.get(), keep_now, item_and_refs.item,'''),(T,'''      streamed_chunk_keys = GetKeepKeys(streamed_chunk_keys);
    }
''','''      keep_now = GetKeepKeys(streamed_chunk_keys);
    }
'''),(T,'''    {
      absl::WriterMutexLock lock(&mu_);
      // Check whether all''','''    internal::flat_hash_set<uint64_t> keep_now;
    {
      absl::WriterMutexLock lock(&mu_);
      // Check whether all''')),
 b('keep-none',(T,'''  for (uint64_t keep_key : keep_keys) {
    request->r.mutable_item()->add_keep_chunk_keys(keep_key);
  }
''','''  for (uint64_t keep_key : keep_keys) {
    if (keep_key == item.key()) break;
    request->r.mutable_item()->add_keep_chunk_keys(keep_key);
  }
''')),
 b('keep-nothing',(T,'''  for (uint64_t keep_key : keep_keys) {
    request->r.mutable_item()->add_keep_chunk_keys(keep_key);
  }
''','')),
 b('pop-early',(T,POP,''),(T,'''    // All chunks have been written to the stream so the item can now be
''','''    {
      absl::MutexLock lock(&mu_);
      write_queue_.pop_front();
    }
    // All chunks have been written to the stream so the item can now be
''')),
 b('pop-fail',(T,'''        in_flight_items_.erase(item_and_refs.item.key());
      }
      return''','''        in_flight_items_.erase(item_and_refs.item.key());
        write_queue_.pop_front();
      }
      return''')),
 b('no-clear',(T,'''    request.Clear();

    // Item''','''    // Item''')),
 b('fail-continue',(T,'''        in_flight_items_.erase(item_and_refs.item.key());
      }
      return FromGrpcStatus(stream->Finish());''','''        in_flight_items_.erase(item_and_refs.item.key());
      }
      continue;''')),
 b('back',(T,'*item_and_refs = write_queue_.front();','*item_and_refs = write_queue_.back();')),
 b('push-front',(T,'write_queue_.push_back(std::move(item_and_refs));','write_queue_.push_front(std::move(item_and_refs));')),
 b('no-pop',(T,POP,'      if (write_queue_.size() > 1) write_queue_.pop_front();\n')),
 b('ready-lambda',(T,'''    return set.template contains(ref->chunk_key());''','''    return ref->IsReady() || set.template contains(ref->chunk_key());''')),
 # behaviour preserving
 k('cond-split',(T,COND,'''    if (!ref->IsReady()) continue;
    const uint64_t key = ref->chunk_key();
    if (streamed_chunk_keys->contains(key)) continue;
''')),
 k('cond-nest',(T,COND,'''    const bool skip =
        !ref->IsReady() || streamed_chunk_keys->contains(ref->chunk_key());
    if (skip) {
      continue;
    }
''')),
 k('note-first',(T,'''    request->r.mutable_chunks()->UnsafeArenaAddAllocated(
        const_cast<ChunkData*>(ref->GetChunk()->get()));
    streamed_chunk_keys->insert(ref->chunk_key());
''','''    streamed_chunk_keys->insert(ref->chunk_key());
    auto chunk = ref->GetChunk();
    request->r.mutable_chunks()->UnsafeArenaAddAllocated(
        const_cast<ChunkData*>(chunk->get()));
''')),
 k('idx-loop',(T,'''  for (const std::shared_ptr<CellRef>& ref : refs) {
    if (!ref->IsReady() ||''','''  for (size_t i = 0; i < refs.size(); i++) {
    const std::shared_ptr<CellRef>& ref = refs[i];
    if (!ref->IsReady() ||''')),
 k('loop-all',(T,'''  return absl::c_all_of(refs, [&set](const auto& ref) {
    return set.template contains(ref->chunk_key());
  });''','''  for (const std::shared_ptr<CellRef>& ref : refs) {
    if (!set.contains(ref->chunk_key())) return false;
  }
  return true;''')),
 k('std-all',(T,'''  return absl::c_all_of(refs, [&set](const auto& ref) {
    return set.template contains(ref->chunk_key());
  });''','''  return std::all_of(refs.begin(), refs.end(), [&set](const auto& ref) {
    return set.template contains(ref->chunk_key());
  });''')),
 k('none-of',(T,'''  return absl::c_all_of(refs, [&set](const auto& ref) {
    return set.template contains(ref->chunk_key());
  });''','''  return absl::c_none_of(refs, [&set](const auto& ref) {
    return !set.template contains(ref->chunk_key());
  });''')),
 k('all-positive',(T,CA,'''      const bool complete =
          ContainsAll(streamed_chunk_keys, item_and_refs.refs);
      if (!complete) {''')),
 k('keep-find',(T,'''      if (streamed_chunk_keys.contains(key)) {
        keys.insert(key);
      }''','''      if (streamed_chunk_keys.find(key) == streamed_chunk_keys.end()) continue;
      keys.insert(key);''')),
 k('keep-next',(T,'''  for (auto it = write_queue_.begin(); it != write_queue_.end(); it++) {
    // Ignore chunks only referenced by the front item since keep keys is sent
    // together with this item and thus there is no need for the server to keep
    // these chunks around after the item has been written.
    if (it == write_queue_.begin()) continue;
''','''  for (auto it = std::next(write_queue_.begin()); it != write_queue_.end(); it++) {
''')),
 k('keep-idx',(T,'''  for (auto it = write_queue_.begin(); it != write_queue_.end(); it++) {
    // Ignore chunks only referenced by the front item since keep keys is sent
    // together with this item and thus there is no need for the server to keep
    // these chunks around after the item has been written.
    if (it == write_queue_.begin()) continue;

    for (const std::shared_ptr<CellRef>& ref : it->refs) {''','''  for (int i = 1; i < write_queue_.size(); i++) {
    for (const std::shared_ptr<CellRef>& ref : write_queue_[i].refs) {''')),
 k('keep-bindings',(T,'''  for (const auto& it : chunkers_) {
    for (uint64_t key : it.second->GetKeepKeys()) {''','''  for (const auto& [column, chunker] : chunkers_) {
    const std::vector<uint64_t> wanted = chunker->GetKeepKeys();
    for (uint64_t key : wanted) {''')),
 k('keep-assign',(T,'''  for (uint64_t keep_key : keep_keys) {
    request->r.mutable_item()->add_keep_chunk_keys(keep_key);
  }
''','''  auto* out = request->r.mutable_item()->mutable_keep_chunk_keys();
  for (auto it = keep_keys.begin(); it != keep_keys.end(); ++it) {
    out->Add(*it);
  }
''')),
 k('keep-copy',(T,'''      streamed_chunk_keys = GetKeepKeys(streamed_chunk_keys);
    }
''','''      auto keep = GetKeepKeys(streamed_chunk_keys);
      streamed_chunk_keys = std::move(keep);
    }
''')),
 k('finalize-same-lock',(T,'''      streamed_chunk_keys = GetKeepKeys(streamed_chunk_keys);
    }

    {
      absl::MutexLock lock(&mu_);
      for''','''      streamed_chunk_keys = GetKeepKeys(streamed_chunk_keys);

      for''')),
 k('sent-var',(T,'''    if (!SendItem(stream.get(), streamed_chunk_keys, item_and_refs.item,
                  &request)) {''','''    const bool written = SendItem(stream.get(), streamed_chunk_keys,
                                  item_and_refs.item, &request);
    if (!written) {''')),
 k('clear-after',(T,'''    request.Clear();

    // Item''','''    // Item'''),(T,'''      write_queue_.pop_front();
    }
''','''      write_queue_.pop_front();
    }
    request.Clear();
''')),
 k('senditem-inline',(T,'''    if (!SendItem(stream.get(), streamed_chunk_keys, item_and_refs.item,
                  &request)) {''','''    request.r.mutable_item()->unsafe_arena_set_allocated_item(
        &item_and_refs.item);
    request.r.mutable_item()->set_send_confirmation(true);
    for (uint64_t keep_key : streamed_chunk_keys) {
      request.r.mutable_item()->add_keep_chunk_keys(keep_key);
    }
    grpc::WriteOptions options;
    options.set_no_compression();
    if (!stream->Write(request.r, options)) {''')),
 k('wait-restructured',(T,'''        if (!closed_ && !AllReady(item_and_refs.refs)) {
          data_cv_.Wait(&mu_);
        }
        continue;''','''        const bool ready = AllReady(item_and_refs.refs);
        if (!ready) {
          if (!closed_) data_cv_.Wait(&mu_);
        }
        continue;''')),
]
