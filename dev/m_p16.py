def b(n,*e): return (n,['P16'],'bad',list(e))
def k(n,*e): return (n,['P16'],'ok',list(e))
S='reverb_service_impl.cc'; A='reverb_service_async_impl.cc'; T='table.cc'; U='support/trajectory_util.cc'
LOOP='''      for (ChunkStore::Key key :
           internal::GetChunkKeys(request.item().item().flat_trajectory())) {
        auto status = push_or(key);
        if (!status.ok()) return status;
      }
'''
M=[
 b('s-found',(S,'''        if (it == chunks.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item.chunks''','''        if (it == chunks.end()) return grpc::Status::OK;
        item.chunks''')),
 b('s-nocheck',(S,'''        if (it == chunks.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item.chunks''','''        item.chunks''')),
 b('s-operator',(S,'''        auto it = chunks.find(key);
        if (it == chunks.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item.chunks.push_back(it->second);''','''        item.chunks.push_back(chunks[key]);''')),
 b('s-status-ignored',(S,'''        if (!status.ok()) return status;
      }

      const auto& table_name''','''        if (!status.ok()) break;
      }

      const auto& table_name''')),
 b('s-insert-null',(S,'''      if (chunk_sp == nullptr) {
        return grpc::Status(grpc::StatusCode::CANCELLED,
                            "Service has been closed");
      }
''','')),
 b('s-skip-chunk',(S,'''      ChunkStore::Key key = chunk.chunk_key();
      std::shared_ptr''','''      ChunkStore::Key key = chunk.chunk_key();
      if (chunk.data().tensors().empty()) continue;
      std::shared_ptr''')),
 b('s-stale',(S,'''      chunks[key] = std::move(chunk_sp);''','''      chunks[chunk.chunk_key()] = std::move(chunk_sp);''')),
 b('s-loop-late',(S,LOOP,''),(S,'''      if (auto status = table->InsertOrAssign(item); !status.ok()) {
        return ToGrpcStatus(status);
      }
''','''      if (auto status = table->InsertOrAssign(item); !status.ok()) {
        return ToGrpcStatus(status);
      }
'''+LOOP.replace('request.item().item()','item.item'))),
 b('s-erase-flip',(S,'if (keep_keys.find(it->first) == keep_keys.end()) {','if (keep_keys.find(it->first) != keep_keys.end()) {')),
 b('s-erase-all',(S,'''        if (keep_keys.find(it->first) == keep_keys.end()) {
          chunks.erase(it++);
        } else {
          ++it;
        }''','''        chunks.erase(it++);''')),
 b('s-clear',(S,'''  InsertStreamRequest request;
  while (queue.Pop(&request)) {
''','''  InsertStreamRequest request;
  while (queue.Pop(&request)) {
    if (!request.chunks().empty()) chunks.clear();
''')),
 b('s-firstcol',(S,'internal::GetChunkKeys(request.item().item().flat_trajectory())','std::vector<uint64_t>{request.item().item().flat_trajectory().columns(0).chunk_slices(0).chunk_key()}')),
 b('s-item-lost',(S,'''      item.item = std::move(*request.mutable_item()->mutable_item());

      if''','''      item.item.set_key(item_key);

      if''')),
 b('a-nocheck',(A,'''        if (it == chunks_.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
''','')),
 b('a-continue',(A,'''          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
''','''          continue;
        }
''')),
 b('a-release-first',(A,'''      Table::Item item;
      if (auto status = GetItemWithChunks(&item, request); !status.ok()) {
        return status;
      }
      ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());''','''      Table::Item item;
      ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());
      if (auto status = GetItemWithChunks(&item, request); !status.ok()) {
        return status;
      }''')),
 b('a-keepflip',(A,'''it->first) ==
            keep_keys.end()) {''','''it->first) !=
            keep_keys.end()) {''')),
 b('a-getitem-ignored',(A,'''      if (auto status = GetItemWithChunks(&item, request); !status.ok()) {
        return status;
      }''','''      GetItemWithChunks(&item, request).ok();''')),
 b('a-save-late',(A,'''      if (auto status = SaveChunks(request); !status.ok()) {
        return status;
      }
      if (!request->has_item()) {''','''      if (!request->has_item()) {
        if (auto status = SaveChunks(request); !status.ok()) {
          return status;
        }'''),),
 b('a-save-key',(A,'chunks_[key] = std::make_shared<ChunkStore::Chunk>(std::move(chunk));','''auto sp = std::make_shared<ChunkStore::Chunk>(std::move(chunk));
          chunks_[chunk.chunk_key()] = sp;''')),
 b('a-save-skip',(A,'if (!chunks_.contains(key)) {','if (!chunks_.contains(key) && !chunk.data().tensors().empty()) {')),
 b('a-trajectory-after-move',(A,'''      for (ChunkStore::Key key :
           internal::GetChunkKeys(request->item().item().flat_trajectory())) {
        auto it = chunks_.find(key);
        if (it == chunks_.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item->chunks.push_back(it->second);
      }

      item->item = std::move(*request->mutable_item()->mutable_item());
''','''      item->item = std::move(*request->mutable_item()->mutable_item());
      for (ChunkStore::Key key :
           internal::GetChunkKeys(request->item().item().flat_trajectory())) {
        auto it = chunks_.find(key);
        if (it == chunks_.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item->chunks.push_back(it->second);
      }
''')),
 b('t-novalid',(T,'''  REVERB_RETURN_IF_ERROR(CheckItemValidity(item));
  auto item_ptr''','''  auto item_ptr''')),
 b('t-novalid-sync',(T,'''  REVERB_RETURN_IF_ERROR(CheckItemValidity(item));
  if (table_worker_) {''','''  if (table_worker_) {''')),
 b('t-valid-late',(T,'''  REVERB_RETURN_IF_ERROR(CheckItemValidity(item));
  auto item_ptr = std::make_shared<Item>(std::move(item));''','''  auto item_ptr = std::make_shared<Item>(std::move(item));
  REVERB_RETURN_IF_ERROR(CheckItemValidity(item));''')),
 b('v-empty',(T,'''  if (item.item.flat_trajectory().columns().empty() ||
      item.item.flat_trajectory().columns(0).chunk_slices().empty()) {
''','''  if (item.item.flat_trajectory().columns().empty() &&
      item.item.flat_trajectory().columns(0).chunk_slices().empty()) {
''')),
 b('v-count',(T,'if (trajectory_keys.size() != item.chunks.size()) {','if (trajectory_keys.size() > item.chunks.size()) {')),
 b('v-key',(T,'for (int i = 0; i < trajectory_keys.size(); ++i) {\n    if (item.chunks[i]','for (int i = 1; i < trajectory_keys.size(); ++i) {\n    if (item.chunks[i]')),
 b('v-key0',(T,'''item.chunks[i]->key() != trajectory_keys[i]''','''item.chunks[i]->key() != trajectory_keys[0]''')),
 b('v-keynone',(T,'''  for (int i = 0; i < trajectory_keys.size(); ++i) {
    if (item.chunks[i]->key() != trajectory_keys[i]) {
      return absl::InvalidArgumentError(
          "Item chunks does not match chunks referenced in trajectory.");
    }
  }
''','')),
 b('u-nodup',(U,'''      if (seen.insert(slice.chunk_key()).second) {
        keys.push_back(slice.chunk_key());
      }
    }
  }
  return keys;''','''      keys.push_back(slice.chunk_key());
    }
  }
  return keys;''')),
 b('u-firstslice',(U,'''      if (seen.insert(slice.chunk_key()).second) {
        keys.push_back(slice.chunk_key());
      }
    }''','''      if (seen.insert(slice.chunk_key()).second) {
        keys.push_back(slice.chunk_key());
      }
      if (slice.length() == 1) break;
    }''')),
 b('u-skipempty',(U,'''      if (seen.insert(slice.chunk_key()).second) {
        keys.push_back''','''      if (slice.offset() >= 0 && seen.insert(slice.chunk_key()).second) {
        keys.push_back''')),
 b('u-seencol',(U,'''  for (const auto& col : trajectory.columns()) {
    for (const auto& slice : col.chunk_slices()) {
      if (seen''','''  for (const auto& col : trajectory.columns()) {
    if (col.squeeze()) continue;
    for (const auto& slice : col.chunk_slices()) {
      if (seen''')),
 b('u-wrongkey',(U,'keys.push_back(slice.chunk_key());','keys.push_back(slice.index());')),
 # behaviour preserving
 k('s-inline-loop',(S,'''        auto status = push_or(key);
        if (!status.ok()) return status;
''','''        if (grpc::Status status = push_or(key); !status.ok()) {
          return status;
        }
''')),
 k('s-nolambda',(S,'''      auto push_or = [&chunks, &item](ChunkStore::Key key) -> grpc::Status {
        auto it = chunks.find(key);
        if (it == chunks.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item.chunks.push_back(it->second);
        return grpc::Status::OK;
      };

''',''),(S,'''        auto status = push_or(key);
        if (!status.ok()) return status;
''','''        const auto it = chunks.find(key);
        if (it == chunks.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item.chunks.push_back(it->second);
''')),
 k('s-contains-at',(S,'''        auto it = chunks.find(key);
        if (it == chunks.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item.chunks.push_back(it->second);''','''        if (!chunks.contains(key)) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item.chunks.push_back(chunks.at(key));''')),
 k('s-keysvar',(S,'''      for (ChunkStore::Key key :
           internal::GetChunkKeys(request.item().item().flat_trajectory())) {
''','''      const std::vector<uint64_t> refs =
          internal::GetChunkKeys(request.item().item().flat_trajectory());
      item.chunks.reserve(refs.size());
      for (ChunkStore::Key key : refs) {
''')),
 k('s-indexloop',(S,'''      for (ChunkStore::Key key :
           internal::GetChunkKeys(request.item().item().flat_trajectory())) {
        auto status = push_or(key);
''','''      const auto refs =
          internal::GetChunkKeys(request.item().item().flat_trajectory());
      for (size_t i = 0; i < refs.size(); i++) {
        auto status = push_or(refs[i]);
''')),
 k('s-itemref',(S,'''      const auto& table_name = request.item().item().table();
      Table* table''','''      const PrioritizedItem& received = request.item().item();
      const std::string table_name = received.table();
      Table* table''')),
 k('s-chunkloop-idx',(S,'''    for (auto& chunk : *request.mutable_chunks()) {
      ChunkStore::Key key = chunk.chunk_key();
      std::shared''','''    for (int i = 0; i < request.chunks_size(); i++) {
      ChunkData& chunk = *request.mutable_chunks(i);
      ChunkStore::Key key = chunk.chunk_key();
      std::shared''')),
 k('s-emplace',(S,'chunks[key] = std::move(chunk_sp);','chunks.insert_or_assign(key, std::move(chunk_sp));')),
 k('s-cond-bool',(S,'      if (chunk_sp == nullptr) {','      if (!chunk_sp) {')),
 k('s-continue',(S,'''    if (request.has_item()) {
      Table::Item item;
''','''    if (!request.has_item()) continue;
    {
      Table::Item item;
''')),
 k('s-keep-contains',(S,'if (keep_keys.find(it->first) == keep_keys.end()) {','if (!keep_keys.contains(it->first)) {')),
 k('s-keep-loop',(S,'''      for (auto it = chunks.cbegin(); it != chunks.cend();) {
        if (keep_keys.find(it->first) == keep_keys.end()) {
          chunks.erase(it++);
        } else {
          ++it;
        }
      }''','''      auto it = chunks.cbegin();
      while (it != chunks.cend()) {
        const bool keep = keep_keys.find(it->first) != keep_keys.end();
        auto current = it++;
        if (keep) continue;
        chunks.erase(current);
      }''')),
 k('s-move-item',(S,'table->InsertOrAssign(item); !status','table->InsertOrAssign(std::move(item)); !status')),
 k('s-table-first',(S,'''      const auto& table_name = request.item().item().table();
      Table* table = TableByName(table_name);
      if (table == nullptr) return TableNotFound(table_name);

''',''),(S,'''      Table::Item item;

''','''      Table::Item item;
      Table* table = TableByName(request.item().item().table());
      if (table == nullptr) {
        return TableNotFound(request.item().item().table());
      }

''')),
 k('a-save-find',(A,'''        if (!chunks_.contains(key)) {
          chunks_[key] = std::make_shared<ChunkStore::Chunk>(std::move(chunk));
        }''','''        if (chunks_.find(key) != chunks_.end()) continue;
        chunks_.emplace(key, std::make_shared<ChunkStore::Chunk>(std::move(chunk)));''')),
 k('a-save-tryemplace',(A,'''        if (!chunks_.contains(key)) {
          chunks_[key] = std::make_shared<ChunkStore::Chunk>(std::move(chunk));
        }''','''        auto& slot = chunks_[key];
        if (slot == nullptr) {
          slot = std::make_shared<ChunkStore::Chunk>(std::move(chunk));
        }''')),
 k('a-inline',(A,'''      Table::Item item;
      if (auto status = GetItemWithChunks(&item, request); !status.ok()) {
        return status;
      }
''','''      Table::Item item;
      const grpc::Status collected = GetItemWithChunks(&item, request);
      if (!collected.ok()) return collected;
''')),
 k('a-release-later',(A,'''      ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());
      const auto& table_name = item.item.table();
      // Check that table name is valid.
      auto table = server_->TableByName(table_name);
      if (table == nullptr) {
        return TableNotFound(table_name);
      }
''','''      const auto& table_name = item.item.table();
      // Check that table name is valid.
      auto table = server_->TableByName(table_name);
      if (table == nullptr) {
        return TableNotFound(table_name);
      }
      ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());
''')),
 k('a-found-flip',(A,'''        if (it == chunks_.end()) {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }
        item->chunks.push_back(it->second);''','''        if (it != chunks_.end()) {
          item->chunks.push_back(it->second);
        } else {
          return Internal(
              absl::StrCat("Could not find sequence chunk ", key, "."));
        }''')),
 k('a-copyitem',(A,'item->item = std::move(*request->mutable_item()->mutable_item());','item->item.Swap(request->mutable_item()->mutable_item());')),
 k('v-helper',(T,'''  for (int i = 0; i < trajectory_keys.size(); ++i) {
    if (item.chunks[i]->key() != trajectory_keys[i]) {
      return absl::InvalidArgumentError(
          "Item chunks does not match chunks referenced in trajectory.");
    }
  }

  return absl::OkStatus();''','''  size_t i = 0;
  while (i != item.chunks.size()) {
    const auto expected = trajectory_keys[i];
    if (!(item.chunks[i]->key() == expected)) {
      return absl::InvalidArgumentError(
          "Item chunks does not match chunks referenced in trajectory.");
    }
    ++i;
  }

  return absl::OkStatus();''')),
 k('v-iter',(T,'''  for (int i = 0; i < trajectory_keys.size(); ++i) {
    if (item.chunks[i]->key() != trajectory_keys[i]) {
''','''  int i = 0;
  for (const auto& chunk : item.chunks) {
    if (chunk->key() != trajectory_keys[i++]) {
''')),
 k('v-empty-size',(T,'''  if (item.item.flat_trajectory().columns().empty() ||
      item.item.flat_trajectory().columns(0).chunk_slices().empty()) {
''','''  const FlatTrajectory& trajectory = item.item.flat_trajectory();
  if (trajectory.columns_size() == 0 ||
      trajectory.columns(0).chunk_slices_size() == 0) {
''')),
 k('t-valid-var',(T,'''  REVERB_RETURN_IF_ERROR(CheckItemValidity(item));
  auto item_ptr''','''  auto valid = CheckItemValidity(item);
  if (!valid.ok()) return valid;
  auto item_ptr''')),
 k('u-contains',(U,'''      if (seen.insert(slice.chunk_key()).second) {
        keys.push_back(slice.chunk_key());
      }
    }
  }
  return keys;''','''      const uint64_t key = slice.chunk_key();
      if (seen.contains(key)) continue;
      seen.insert(key);
      keys.push_back(key);
    }
  }
  return keys;''')),
 k('u-pair',(U,'''      if (seen.insert(slice.chunk_key()).second) {
        keys.push_back(slice.chunk_key());
      }
    }
  }
  return keys;''','''      const auto [unused, is_new] = seen.insert(slice.chunk_key());
      if (is_new) keys.push_back(slice.chunk_key());
    }
  }
  return keys;''')),
 k('u-idx',(U,'''  for (const auto& col : trajectory.columns()) {
    for (const auto& slice : col.chunk_slices()) {
      if (seen''','''  for (int c = 0; c < trajectory.columns_size(); c++) {
    for (int s = 0; s < trajectory.columns(c).chunk_slices_size(); s++) {
      const auto& slice = trajectory.columns(c).chunk_slices(s);
      if (seen''')),
 k('u-algo',(U,'''      if (seen.insert(slice.chunk_key()).second) {
        keys.push_back(slice.chunk_key());
      }
    }
  }
  return keys;''','''      if (std::find(keys.begin(), keys.end(), slice.chunk_key()) ==
          keys.end()) {
        keys.push_back(slice.chunk_key());
      }
    }
  }
  return keys;''')),
]
