A="reverb/cc/reverb_service_async_impl.cc"
S="reverb/cc/reverb_service_impl.cc"
T="reverb/cc/trajectory_writer.cc"
H="reverb/cc/trajectory_writer.h"
W="reverb/cc/writer.cc"
P=["P17"]
M=[
("dtor-no-traj",P,"bad",[(A,"          item->/*unsafe_arena_*/release_flat_trajectory();\n","")]),
("dtor-no-inserted",P,"bad",[(A,"          item->/*unsafe_arena_*/release_inserted_at();\n","")]),
("dtor-no-data",P,"bad",[(A,"        while (entry.data_size() != 0) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();\n        }\n","")]),
("dtor-data-if",P,"bad",[(A,"        while (entry.data_size() != 0) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();","        if (entry.data_size() != 0) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();")]),
("dtor-data-gt1",P,"bad",[(A,"        while (entry.data_size() != 0) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();","        while (entry.data_size() > 1) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();")]),
("dtor-removelast",P,"bad",[(A,"        while (entry.data_size() != 0) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();","        while (entry.data_size() != 0) {\n          entry.mutable_data()->RemoveLast();")]),
("dtor-break",P,"bad",[(A,"        while (entry.data_size() != 0) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();\n        }","        while (entry.data_size() != 0) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();\n        }\n        if (entry.end_of_sequence()) break;")]),
("dtor-skip-eos",P,"bad",[(A,"        while (entry.data_size() != 0) {\n          entry.mutable_data()","        while (!entry.end_of_sequence() && entry.data_size() != 0) {\n          entry.mutable_data()")]),
("dtor-item-cond",P,"bad",[(A,"        if (entry.info().has_item()) {\n          auto* item = entry.mutable","        if (entry.info().has_item() && !table_items.empty()) {\n          auto* item = entry.mutable")]),
("dtor-halfcount",P,"bad",[(A,"        while (entry.data_size() != 0) {","        for (int i = 0; i < entry.data_size(); i++) {",)]),
("dtor-count-ok",P,"ok",[(A,"        while (entry.data_size() != 0) {","        const int n = entry.data_size();\n        for (int i = 0; i < n; i++) {",)]),
("dtor-while-empty-ok",P,"ok",[(A,"        while (entry.data_size() != 0) {","        while (!entry.data().empty()) {",)]),
("dtor-index-ok",P,"ok",[(A,"      for (auto& entry : *payload.mutable_entries()) {","      for (int k = 0; k < payload.entries_size(); ++k) {\n        auto& entry = *payload.mutable_entries(k);")]),
("dtor-index-1",P,"bad",[(A,"      for (auto& entry : *payload.mutable_entries()) {","      for (int k = 0; k + 1 < payload.entries_size(); ++k) {\n        auto& entry = *payload.mutable_entries(k);")]),
("dtor-helper-ok",P,"ok",[(A,"        while (entry.data_size() != 0) {\n          entry.mutable_data()->UnsafeArenaReleaseLast();\n        }\n","        ReleaseData(&entry);\n"),(A,"    void AddTableItem(std::shared_ptr<TableItem> item) {","    static void ReleaseData(SampleStreamResponse::SampleEntry* entry) {\n      auto* data = entry->mutable_data();\n      while (data->size() > 0) {\n        data->UnsafeArenaReleaseLast();\n      }\n    }\n\n    void AddTableItem(std::shared_ptr<TableItem> item) {")]),
("dtor-order-ok",P,"ok",[(A,"          item->/*unsafe_arena_*/release_inserted_at();\n          item->/*unsafe_arena_*/release_flat_trajectory();\n","          item->release_flat_trajectory();\n          item->release_inserted_at();\n")]),
("lend-more",P,"bad",[(A,"          entry->mutable_info()->set_probability(sample->probability);","          item->set_allocated_updated_at(\n              sample_item.mutable_inserted_at());\n          entry->mutable_info()->set_probability(sample->probability);")] if False else [(A,"          item->set_table(sample_item.table());","          item->set_allocated_table(sample_item.mutable_table());")]),
("no-owner",P,"bad",[(A,"      response->AddTableItem(sample->ref);","")]),
("owner-cond",P,"bad",[(A,"      response->AddTableItem(sample->ref);","      if (!write_in_flight) response->AddTableItem(sample->ref);")]),
("owner-first",P,"bad",[(A,"      response->AddTableItem(sample->ref);\n    }","    }"),(A,"      auto* entry = response->payload.add_entries();\n      for (int i","      auto* entry = response->payload.add_entries();\n      response->AddTableItem(sample->ref);\n      for (int i")]),
("owner-stale",P,"bad",[(A,"          response = &responses_to_send_.back();\n          entry = response->payload.add_entries();","          entry = responses_to_send_.back().payload.add_entries();")]),
("owner-every-ok",P,"ok",[(A,"          response = &responses_to_send_.back();\n","          response->AddTableItem(sample->ref);\n          response = &responses_to_send_.back();\n")]),
("owner-inline-ok",P,"ok",[(A,"      response->AddTableItem(sample->ref);","      response->table_items.push_back(sample->ref);")]),
("sync-no-release",P,"bad",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArenaReleaseLast();\n          }\n","")]),
("sync-release-after-check",P,"bad",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArenaReleaseLast();\n          }\n\n          if (!ok) {\n            return Internal(\"Failed to write to Sample stream.\");\n          }\n","          if (!ok) {\n            return Internal(\"Failed to write to Sample stream.\");\n          }\n\n          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArenaReleaseLast();\n          }\n")]),
("sync-release-ok-only",P,"bad",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArena","          while (ok && entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArena")]),
("sync-clear-first",P,"bad",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArena","          entry->clear_data();\n          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArena")]),
("sync-one",P,"bad",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArena","          if (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArena")]),
("sync-cancel-mid",P,"bad",[(S,"              entry->ByteSizeLong() < kMaxSampleResponseSizeBytes) {\n            continue;","              entry->ByteSizeLong() < kMaxSampleResponseSizeBytes) {\n            if (context->IsCancelled()) return Internal(\"Cancelled.\");\n            continue;")]),
("sync-last-skip",P,"bad",[(S,"          if (chunk_idx < sample.ref->chunks.size() - 1 &&","          if (chunk_idx < sample.ref->chunks.size() &&")]),
("sync-lend-traj",P,"bad",[(S,"            *item->mutable_flat_trajectory() =\n                sample.ref->item.flat_trajectory();","            item->set_allocated_flat_trajectory(const_cast<FlatTrajectory*>(\n                &sample.ref->item.flat_trajectory()));")]),
("sync-bool-ok",P,"ok",[(S,"          if (chunk_idx < sample.ref->chunks.size() - 1 &&","          const bool more = chunk_idx + 1 < sample.ref->chunks.size();\n          if (more &&")]),
("sync-neg-ok",P,"ok",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()","          while (!entry->data().empty()) {\n            entry->mutable_data()")]),
("sync-extract-ok",P,"ok",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArenaReleaseLast();\n          }\n","          entry->mutable_data()->UnsafeArenaExtractSubrange(\n              0, entry->data_size(), nullptr);\n")]),
("sync-count-ok",P,"ok",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()","          for (int n = entry->data_size(); n > 0; --n) {\n            entry->mutable_data()")]),
("sync-extract-1",P,"bad",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArenaReleaseLast();\n          }\n","          entry->mutable_data()->UnsafeArenaExtractSubrange(\n              0, 1, nullptr);\n")]),
("sync-split-ok",P,"ok",[(S,"          response.Clear();\n          entry = response.add_entries();\n","          response.clear_entries();\n          entry = response.add_entries();\n")]),
("sync-noclear",P,"ok",[(S,"          response.Clear();\n          entry = response.add_entries();\n","          entry = response.add_entries();\n")]),
("traj-no-clear",P,"bad",[(T,"    request.Clear();\n\n    // Item has been sent","    // Item has been sent")]),
("traj-clear-after-pop",P,"bad",[(T,"    request.Clear();\n\n    // Item has been sent","    // Item has been sent"),(T,"      write_queue_.pop_front();\n    }\n  }","      write_queue_.pop_front();\n    }\n    request.Clear();\n  }")]),
("traj-rclear",P,"bad",[(T,"    request.Clear();\n\n    // Item has been sent","    request.r.Clear();\n\n    // Item has been sent")]),
("traj-rclear2",P,"bad",[(T,"      // request and continue with the remaining references.\n      request->Clear();","      // request and continue with the remaining references.\n      request->r.Clear();")]),
("traj-dtor-none",P,"bad",[(H,"  ~ArenaOwnedRequest() {\n    Clear();\n  }","  ~ArenaOwnedRequest() {\n  }")]),
("traj-dtor-gone",P,"bad",[(H,"  ~ArenaOwnedRequest() {\n    Clear();\n  }\n","")]),
("traj-clear-item",P,"bad",[(H,"      r.mutable_item()->unsafe_arena_release_item();\n","")]),
("traj-clear-item-order",P,"bad",[(H,"      r.mutable_item()->unsafe_arena_release_item();\n      r.clear_item();","      r.clear_item();\n      r.mutable_item()->unsafe_arena_release_item();")]),
("traj-clear-chunks",P,"bad",[(H,"    while (!r.chunks().empty()) {\n      r.mutable_chunks()->UnsafeArenaReleaseLast();\n    }\n","    r.clear_chunks();\n")]),
("traj-clear-early",P,"bad",[(H,"    while (!r.chunks().empty()) {\n      r.mutable","    if (!r.has_item()) return;\n    while (!r.chunks().empty()) {\n      r.mutable")]),
("traj-clear-elif",P,"bad",[(H,"    if (r.has_item()) {\n      r.mutable_item()->unsafe","    if (r.chunks().empty() && r.item().send_confirmation()) {\n      r.mutable_item()->unsafe")]),
("traj-order-ok",P,"ok",[(H,"    while (!r.chunks().empty()) {\n      r.mutable_chunks()->UnsafeArenaReleaseLast();\n    }\n    if (r.has_item()) {\n      r.mutable_item()->unsafe_arena_release_item();\n      r.clear_item();\n    }","    if (r.has_item()) {\n      r.mutable_item()->unsafe_arena_release_item();\n      r.clear_item();\n    }\n    while (r.chunks_size() > 0) {\n      r.mutable_chunks()->UnsafeArenaReleaseLast();\n    }")]),
("traj-rclear-after-ok",P,"ok",[(H,"      r.clear_item();\n    }","      r.clear_item();\n    }\n    r.Clear();")]),
("traj-scope-ok",P,"ok",[(T,"  ArenaOwnedRequest request;\n  while (true) {\n    ItemAndRefs item_and_refs;\n","  while (true) {\n    ItemAndRefs item_and_refs;\n    ArenaOwnedRequest request;\n")] if False else [(T,"    request.Clear();\n\n    // Item has been sent","    ArenaOwnedRequest* sent = &request;\n    sent->Clear();\n\n    // Item has been sent")]),
("traj-copy-item-ok",P,"ok",[(T,"  request->r.mutable_item()->unsafe_arena_set_allocated_item(\n      const_cast<PrioritizedItem*>(&item));","  *request->r.mutable_item()->mutable_item() = item;")]),
("writer-dtor",P,"bad",[(W,"    ~ArenaOwnedRequest() {\n      Clear();\n    }\n","")]),
("writer-rclear",P,"bad",[(W,"        request.Clear();","        request.r.Clear();")]),
("writer-lend-item",P,"bad",[(W,"    *request.r.mutable_item()->mutable_item() = pending_items_.front();","    request.r.mutable_item()->unsafe_arena_set_allocated_item(\n        &pending_items_.front());")]),
("writer-raw",P,"bad",[(W,"  ArenaOwnedRequest request;\n  grpc","  struct { InsertStreamRequest r; void Clear() { r.Clear(); } } request;\n  grpc")]),
("dtor-index-from1",P,"bad",[(A,"      for (auto& entry : *payload.mutable_entries()) {","      for (int k = 1; k < payload.entries_size(); ++k) {\n        auto& entry = *payload.mutable_entries(k);")]),
("dtor-index-down-ok",P,"ok",[(A,"      for (auto& entry : *payload.mutable_entries()) {","      for (int k = payload.entries_size() - 1; k >= 0; --k) {\n        auto& entry = *payload.mutable_entries(k);")]),
("dtor-iter-ok",P,"ok",[(A,"      for (auto& entry : *payload.mutable_entries()) {","      for (auto it = payload.mutable_entries()->begin();\n           it != payload.mutable_entries()->end(); ++it) {\n        auto& entry = *it;")]),
("sync-raii-ok",P,"ok",[(S,"          bool ok = stream->Write(response, options);","          struct GiveBack {\n            SampleStreamResponse::SampleEntry* e;\n            ~GiveBack() { while (e->data_size() != 0) e->mutable_data()->UnsafeArenaReleaseLast(); }\n          };\n          bool ok;\n          {\n            GiveBack back{entry};\n            ok = stream->Write(response, options);\n          }"),(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArenaReleaseLast();\n          }\n","")]),
("sync-lambda-ok",P,"ok",[(S,"          while (entry->data_size() != 0) {\n            entry->mutable_data()->UnsafeArenaReleaseLast();\n          }\n","          auto give_back = [](SampleStreamResponse::SampleEntry* e) {\n            while (e->data_size() != 0) {\n              e->mutable_data()->UnsafeArenaReleaseLast();\n            }\n          };\n          give_back(entry);\n")]),
("sync-lend-helper-ok",P,"ok",[(S,"          entry->mutable_data()->UnsafeArenaAddAllocated(\n              const_cast<ChunkData*>(&sample.ref->chunks[chunk_idx]->data()));","          Lend(*sample.ref->chunks[chunk_idx], entry);"),(S,"grpc::Status ReverbServiceImpl::SampleStreamInternal(","static void Lend(const ChunkStore::Chunk& c, SampleStreamResponse::SampleEntry* e) {\n  e->mutable_data()->UnsafeArenaAddAllocated(const_cast<ChunkData*>(&c.data()));\n}\n\ngrpc::Status ReverbServiceImpl::SampleStreamInternal(")]),
("traj-loop-local-ok",P,"ok",[(T,"    request.Clear();\n\n    // Item has been sent","    {\n      ArenaOwnedRequest& done = request;\n      done.Clear();\n    }\n\n    // Item has been sent")]),
("async-helper-ok",P,"ok",[(A,"        entry->mutable_data()->UnsafeArenaAddAllocated(chunk);","        AttachChunk(entry, chunk);"),(A,"    // Used to lookup tables when inserting items.\n    const ReverbServiceAsyncImpl* server_;\n\n    // Context of the current sample","    static void AttachChunk(SampleStreamResponse::SampleEntry* entry, ChunkData* chunk) {\n      entry->mutable_data()->UnsafeArenaAddAllocated(chunk);\n    }\n\n    // Used to lookup tables when inserting items.\n    const ReverbServiceAsyncImpl* server_;\n\n    // Context of the current sample")]),
]
