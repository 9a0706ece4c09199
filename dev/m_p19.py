def b(n,*e): return (n,['P19'],'bad',list(e))
def k(n,*e): return (n,['P19'],'ok',list(e))
S='reverb_service_impl.cc'; A='reverb_service_async_impl.cc'; T='trajectory_writer.cc'; W='writer.cc'
CONF='''      if (request.item().send_confirmation()) {
        InsertStreamResponse response;
        response.add_keys(item_key);
        if (!stream->Write(response)) {
          return Internal(absl::StrCat(
              "Error when sending confirmation that item ", item_key,
              " has been successfully inserted/updated."));
        }
      }
'''
INS='''      if (auto status = table->InsertOrAssign(item); !status.ok()) {
        return ToGrpcStatus(status);
      }
'''
ACONF='''      if (send_confirmation) {
        // The first element is the one in flight, modify not yet in flight
        // response if possible.
        if (responses_to_send_.size() < 2) {
          responses_to_send_.emplace();
        }
        responses_to_send_.back().payload.add_keys(key);
        if (responses_to_send_.size() == 1) {
          MaybeSendNextResponse();
        }
      }
'''
AINS='''      if (auto status = table->InsertOrAssignAsync(std::move(item),
          &can_insert, continue_inserts_); !status.ok()) {
        return ToGrpcStatus(status);
      }
'''
M=[
 b('s-early',(S,CONF,''),(S,INS,CONF+INS)),
 b('s-ignored',(S,INS,'''      if (auto status = table->InsertOrAssign(item); !status.ok()) {
        REVERB_LOG(REVERB_ERROR) << status;
      }
''')),
 b('s-ignored2',(S,INS,'''      auto status = table->InsertOrAssign(item);
      if (absl::IsInvalidArgument(status)) return ToGrpcStatus(status);
''')),
 b('s-skip',(S,INS,'''      if (auto status = table->InsertOrAssign(item); !status.ok()) {
        continue;
      }
''')),
 b('s-failok',(S,INS,'''      if (auto status = table->InsertOrAssign(item); !status.ok()) {
        break;
      }
''')),
 b('s-key',(S,'response.add_keys(item_key);','response.add_keys(item.item.flat_trajectory().columns(0).chunk_slices(0).chunk_key());')),
 b('s-stalekey',(S,'      const auto item_key = request.item().item().key();\n',''),(S,'response.add_keys(item_key);','response.add_keys(request.item().item().key());'),(S,'"Error when sending confirmation that item ", item_key,','"Error when sending confirmation that item ", 0,')),
 b('s-always',(S,'      if (request.item().send_confirmation()) {','      if (true) {')),
 b('s-flip',(S,'      if (request.item().send_confirmation()) {','      if (!request.item().send_confirmation()) {')),
 b('s-never',(S,CONF,'')),
 b('s-cond',(S,'      if (request.item().send_confirmation()) {','      if (request.item().send_confirmation() && !chunks.empty()) {')),
 b('s-writeignored',(S,'''        if (!stream->Write(response)) {
          return Internal(absl::StrCat(
              "Error when sending confirmation that item ", item_key,
              " has been successfully inserted/updated."));
        }
''','''        stream->Write(response);
''')),
 b('s-nowrite',(S,'''        if (!stream->Write(response)) {
          return Internal(absl::StrCat(
              "Error when sending confirmation that item ", item_key,
              " has been successfully inserted/updated."));
        }
      }
''','''      }
''')),
 b('s-twice',(S,'response.add_keys(item_key);','response.add_keys(item_key);\n        if (chunks.empty()) response.add_keys(item_key);')),
 b('s-insert-cond',(S,INS,'''      if (table->size() >= 0) {
        if (auto status = table->InsertOrAssign(item); !status.ok()) {
          return ToGrpcStatus(status);
        }
      }
''')),
 b('a-early',(A,ACONF,''),(A,AINS,ACONF+AINS)),
 b('a-ignored',(A,AINS,'''      if (auto status = table->InsertOrAssignAsync(std::move(item),
          &can_insert, continue_inserts_); !status.ok()) {
        return grpc::Status::OK;
      }
''')),
 b('a-never',(A,ACONF,'')),
 b('a-only-if-can',(A,'      if (send_confirmation) {','      if (send_confirmation && can_insert) {')),
 b('a-stale',(A,'responses_to_send_.back().payload.add_keys(key);','responses_to_send_.back().payload.add_keys(item.item.key());')),
 b('a-always',(A,'      if (send_confirmation) {','      {')),
 b('a-twice',(A,'        if (responses_to_send_.size() == 1) {\n          MaybeSend','        if (can_insert) responses_to_send_.back().payload.add_keys(key);\n        if (responses_to_send_.size() == 1) {\n          MaybeSend')),
 b('t-clear',(T,'''          for (uint64_t key : response.keys()) {
            in_flight_items_.erase(key);
          }''','''          in_flight_items_.clear();''')),
 b('t-afterwrite',(T,'''      write_queue_.pop_front();
    }
  }
}''','''      write_queue_.pop_front();
      if (write_queue_.empty()) in_flight_items_.erase(item_and_refs.item.key());
    }
  }
}''')),
 b('t-dowhile',(T,'''        while (stream->Read(&response)) {
          absl::MutexLock lock(&mu_);
          for (uint64_t key : response.keys()) {
            in_flight_items_.erase(key);
          }
        }''','''        bool more;
        do {
          more = stream->Read(&response);
          absl::MutexLock lock(&mu_);
          for (uint64_t key : response.keys()) {
            in_flight_items_.erase(key);
          }
        } while (more);''')),
 b('t-finish',(T,'''    if (!GetNextPendingItem(&item_and_refs)) {
''','''    if (!GetNextPendingItem(&item_and_refs)) {
      { absl::MutexLock lock(&mu_); in_flight_items_.clear(); }
''')),
 b('t-failother',(T,'''        in_flight_items_.erase(item_and_refs.item.key());
      }
      return''','''        in_flight_items_.erase(in_flight_items_.begin(), in_flight_items_.end());
      }
      return''')),
 b('t-begin',(T,'''            in_flight_items_.erase(key);
''','''            in_flight_items_.erase(in_flight_items_.begin());
''')),
 b('w-one',(W,'num_items_in_flight_ -= response.keys_size();','--num_items_in_flight_;')),
 b('w-zero',(W,'num_items_in_flight_ -= response.keys_size();','num_items_in_flight_ = 0;')),
 b('w-nocheck',(W,'''  if (num_items_in_flight_ > 0) {
    return absl::DataLoss''','''  if (num_items_in_flight_ > 1) {
    return absl::DataLoss''')),
 b('w-dropall',(W,'''    if (!stream_->Read(&response)) break;
    absl::WriterMutexLock lock(&mu_);''','''    const bool got = stream_->Read(&response);
    absl::WriterMutexLock lock(&mu_);'''),(W,'''    num_items_in_flight_ -= response.keys_size();
''','''    num_items_in_flight_ -= response.keys_size();
    if (!got) break;
''')),
 b('w-retry',(W,'''    stream_ = nullptr;
    if (!absl::IsUnavailable(status)''','''    stream_ = nullptr;
    { absl::MutexLock lock(&mu_); num_items_in_flight_ = 0; }
    if (!absl::IsUnavailable(status)''')),
 # behaviour preserving
 k('s-key-item',(S,'response.add_keys(item_key);','response.add_keys(item.item.key());')),
 k('s-want-first',(S,'      const auto item_key = request.item().item().key();\n','      const auto item_key = request.item().item().key();\n      const bool want = request.item().send_confirmation();\n'),(S,'      if (request.item().send_confirmation()) {','      if (want) {')),
 k('s-status',(S,INS,'''      const absl::Status inserted = table->InsertOrAssign(item);
      if (!inserted.ok()) return ToGrpcStatus(inserted);
''')),
 k('s-written',(S,'''        if (!stream->Write(response)) {
          return''','''        const bool written = stream->Write(response);
        if (!written) {
          return''')),
 k('s-mutable',(S,'''        response.add_keys(item_key);
''','''        response.mutable_keys()->Add(item_key);
''')),
 k('s-skip-noconf',(S,CONF,''),(S,'''      // Only keep specified chunks.
''','''      // Only keep specified chunks.
      const bool confirm = request.item().send_confirmation();
'''),(S,'''          << "Kept less chunks than expected.";
''','''          << "Kept less chunks than expected.";
'''+CONF.replace('request.item().send_confirmation()','confirm'))),
 k('a-helper',(A,ACONF,'''      if (send_confirmation) Confirm(key);
'''),(A,'''   private:
    grpc::Status SaveChunks''','''   private:
    void Confirm(uint64_t key) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
      if (responses_to_send_.size() < 2) {
        responses_to_send_.emplace();
      }
      responses_to_send_.back().payload.add_keys(key);
      if (responses_to_send_.size() == 1) {
        MaybeSendNextResponse();
      }
    }

    grpc::Status SaveChunks''')),
 k('a-keyreq',(A,'const auto key = item.item.key();',''),(A,'''      Table::Item item;
      if (auto status = GetItemW''','''      const uint64_t key = request->item().item().key();
      Table::Item item;
      if (auto status = GetItemW''')),
 k('a-order',(A,'''      if (can_insert) {
        // Insert didn't exceed table's buffer, we can continue reading next
        // requests.
        StartRead(&request_);
      }
''',''),(A,'''          MaybeSendNextResponse();
        }
      }
      return grpc::Status::OK;''','''          MaybeSendNextResponse();
        }
      }
      if (can_insert) {
        StartRead(&request_);
      }
      return grpc::Status::OK;''')),
 k('t-helper',(T,'''          absl::MutexLock lock(&mu_);
          for (uint64_t key : response.keys()) {
            in_flight_items_.erase(key);
          }
''','''          const auto& keys = response.keys();
          absl::MutexLock lock(&mu_);
          for (int i = 0; i < keys.size(); i++) {
            in_flight_items_.erase(keys[i]);
          }
''')),
 k('t-idx',(T,'''          for (uint64_t key : response.keys()) {
            in_flight_items_.erase(key);
          }
''','''          for (int i = 0; i < response.keys_size(); i++) {
            in_flight_items_.erase(response.keys(i));
          }
''')),
 k('t-keyvar',(T,'''    {
      absl::WriterMutexLock lock(&mu_);
      // Check whether all''','''    const uint64_t item_key = item_and_refs.item.key();
    {
      absl::WriterMutexLock lock(&mu_);
      // Check whether all'''),(T,'in_flight_items_.insert(item_and_refs.item.key());','in_flight_items_.insert(item_key);'),(T,'''        in_flight_items_.erase(item_and_refs.item.key());
      }
      return''','''        in_flight_items_.erase(item_key);
      }
      return''')),
 k('t-sent',(T,'''    if (!SendItem(stream.get(), streamed_chunk_keys, item_and_refs.item,
                  &request)) {''','''    const bool sent = SendItem(stream.get(), streamed_chunk_keys,
                               item_and_refs.item, &request);
    if (!sent) {''')),
 k('w-each',(W,'num_items_in_flight_ -= response.keys_size();','''for (int i = 0; i < response.keys_size(); i++) {
      --num_items_in_flight_;
    }''')),
 k('w-sub',(W,'num_items_in_flight_ -= response.keys_size();','''const int confirmed = response.keys_size();
    num_items_in_flight_ = num_items_in_flight_ - confirmed;''')),
 k('w-plus',(W,'++num_items_in_flight_;','num_items_in_flight_ += 1;')),
 k('w-while',(W,'''    if (!stream_->Read(&response)) break;
    absl::WriterMutexLock lock(&mu_);
    num_items_in_flight_ -= response.keys_size();
  }''','''    if (stream_->Read(&response)) {
      absl::WriterMutexLock lock(&mu_);
      num_items_in_flight_ -= response.keys().size();
    } else {
      break;
    }
  }''')),
]
