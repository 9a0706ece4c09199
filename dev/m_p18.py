def b(n,*e): return (n,['P18'],'bad',list(e))
def k(n,*e): return (n,['P18'],'ok',list(e))
A='reverb_service_async_impl.cc'; T='reverb_server_table_reactor.h'
M=[
 b('cb-finish-unchecked',(A,'''                      if (!is_finished_) {
                        SetReactorAsFinished(ToGrpcStatus(status));
                      }
                      return;''','''                      SetReactorAsFinished(ToGrpcStatus(status));
                      return;''')),
 b('cb-sample-finish-unchecked',(A,'''                    if (!is_finished_) {
                      SetReactorAsFinished(ToGrpcStatus(sample->status));
                    }
                    return;''','''                    SetReactorAsFinished(ToGrpcStatus(sample->status));
                    return;''')),
 b('cb-error-noreport',(A,'''                    if (!is_finished_) {
                      SetReactorAsFinished(ToGrpcStatus(sample->status));
                    }
                    return;''','''                    return;''')),
 b('cb-read-anyway',(A,'''                      if (!is_finished_) {
                        SetReactorAsFinished(ToGrpcStatus(status));
                      }
                      return;
                    }''','''                      if (!is_finished_) {
                        SetReactorAsFinished(ToGrpcStatus(status));
                        return;
                      }
                    }'''),(T,'if (still_reading_ && !is_cancelled_ && !is_finished_) {','if (still_reading_ && !is_cancelled_) {')),
 b('read-twice',(A,'''      if (can_insert) {
        // Insert''','''      if (can_insert || send_confirmation) {
        // Insert''')),
 b('read-none',(A,'''      if (can_insert) {
        // Insert''','''      if (can_insert && send_confirmation) {
        // Insert''')),
 b('read-nochunk',(A,'''        // No item to add to the table - continue reading next requests.
        StartRead(&request_);
''','')),
 b('conf-size1',(A,'if (responses_to_send_.size() < 2) {','if (responses_to_send_.size() < 1) {')),
 b('conf-send-always',(A,'''        if (responses_to_send_.size() == 1) {
          MaybeSendNextResponse();
        }''','''        MaybeSendNextResponse();''')),
 b('conf-send-never',(A,'''        if (responses_to_send_.size() == 1) {
          MaybeSendNextResponse();
        }''','')),
 b('conf-after-read',(A,'const bool send_confirmation = request->item().send_confirmation();\n',''),(A,'if (send_confirmation) {','if (request->item().send_confirmation()) {')),
 b('dtor-nowait',(A,'''      continue_inserts_.reset();
      while (weak_ptr.lock()) {
        absl::SleepFor(kCallbackWaitTime);
      }''','''      continue_inserts_.reset();''')),
 b('dtor-noreset',(A,'''      sampling_done_.reset();
      while (weak_ptr.lock()) {
        absl::SleepFor(kCallbackWaitTime);
      }''','''      if (weak_ptr.use_count() > 1) absl::SleepFor(kCallbackWaitTime);''')),
 b('dtor-wait-once',(A,'''      sampling_done_.reset();
      while (weak_ptr.lock()) {''','''      sampling_done_.reset();
      if (weak_ptr.lock()) {''')),
 b('dtor-inverted',(A,'''      sampling_done_.reset();
      while (weak_ptr.lock()) {''','''      sampling_done_.reset();
      while (weak_ptr.expired()) {''')),
 b('sample-noguard',(A,'''      if (is_finished_) {
        // Nobody will receive the samples and the reactor may be destroyed as
        // soon as the callback returns.
        return;
      }
''','')),
 b('sample-nowaiting',(A,'''      if (waiting_for_enqueued_sample_) {
        // There is already an inflight sample request.
        return;
      }
''','')),
 b('sample-nowaitset',(A,'      waiting_for_enqueued_sample_ = true;\n','')),
 b('sample-nowaitclear',(A,'                  waiting_for_enqueued_sample_ = false;\n','')),
 b('sample-write-always',(A,'''                  if (!already_writing) {
                    MaybeSendNextResponse();
                  }''','''                  MaybeSendNextResponse();''')),
 b('sample-write-stale',(A,'''                  bool already_writing = !responses_to_send_.empty();
                  for (Table::SampledItem& sample : sample->samples) {
                    ProcessSample(&sample, already_writing);
                  }
                  if (!already_writing) {''','''                  bool already_writing = !responses_to_send_.empty();
                  for (Table::SampledItem& sample : sample->samples) {
                    ProcessSample(&sample, already_writing);
                  }
                  if (responses_to_send_.size() == 1) {''')),
 b('sample-inflight',(A,'''          (responses_to_send_.size() == 1 && write_in_flight) ||
''','')),
 b('sample-nowrite-resume',(A,'''      ReverbServerTableReactor::OnWriteDone(ok);
      absl::MutexLock lock(&mu_);
      MaybeStartSampling();''','''      ReverbServerTableReactor::OnWriteDone(ok);''')),
 b('sample-cb-noread',(A,'''                // Current request is finalized, ask for another one.
                MaybeStartRead();''','')),
 b('sample-cb-readboth',(A,'''                  if (next_batch_size != 0) {
                    MaybeStartSampling();
                    return;
                  }''','''                  if (next_batch_size != 0) {
                    MaybeStartSampling();
                  }''')),
 k('sample-nostart',(A,'''      task_info_.requested_samples = request->num_samples();
      MaybeStartSampling();''','''      task_info_.requested_samples = request->num_samples();
      if (responses_to_send_.empty()) MaybeStartSampling();''')),
 b('init-double',(A,'''        response_.set_address(0);
        StartWrite(&response_);
        return;''','''        response_.set_address(0);
        StartWrite(&response_);
        StartRead(&request_);
        return;''')),
 b('init-nofinish',(A,'''        if (table == nullptr) {
          Finish(TableNotFound(request_.table_name()));
          return;
        }''','''        if (table == nullptr) {
          return;
        }''')),
 b('init-noreturn',(A,'''        Finish(Internal("Received unexpected request"));
        return;''','''        Finish(Internal("Received unexpected request"));''')),
 b('init-ctor',(A,'''        Finish(grpc::Status::OK);
        return;
      }

      StartRead(&request_);
    }''','''        Finish(grpc::Status::OK);
      }

      StartRead(&request_);
    }''')),
 b('init-leak',(A,'''      if (table_ptr_ != nullptr) {
        delete table_ptr_;
      }
      delete this;''','''      delete this;''')),
 b('init-renew',(A,'      if (table_ptr_ == nullptr) {\n        auto table','      if (!request_.ownership_transferred()) {\n        auto table')),
 b('init-nodelete',(A,'''        delete table_ptr_;
      }
      delete this;''','''        delete table_ptr_;
      }''')),
 b('base-ondone-lock',(T,'''  {
    absl::MutexLock lock(&mu_);
    still_reading_ = false;
    REVERB_CHECK(is_finished_);
  }
  delete this;''','''  absl::MutexLock lock(&mu_);
  still_reading_ = false;
  REVERB_CHECK(is_finished_);
  delete this;''')),
 b('base-readdone-finished',(T,'if (!ok || is_finished_) {','if (!ok) {')),
 b('base-readdone-nofinish',(T,'''    if (ShouldFinish()) {
      SetReactorAsFinished(grpc::Status::OK);
    }
    return;
  }

  GRPC''','''    return;
  }

  GRPC''')),
 b('base-readdone-always',(T,'''    if (ShouldFinish()) {
      SetReactorAsFinished(grpc::Status::OK);
    }
    return;
  }

  GRPC''','''    if (!is_finished_) {
      SetReactorAsFinished(grpc::Status::OK);
    }
    return;
  }

  GRPC''')),
 b('base-readdone-still',(T,'''    still_reading_ = false;

    // Close''','''    still_reading_ = still_reading_ && ok;

    // Close'''),(T,'  return responses_to_send_.empty() && !still_reading_ && !is_finished_;','  return responses_to_send_.empty() && !is_finished_;')),
 b('base-writedone-finished',(T,'''  if (is_finished_) {
    REVERB_LOG(REVERB_ERROR)
        << "OnWriteDone was called after the reactor was finished";
    return;
  }
''','')),
 b('base-writedone-fail',(T,'''    SetReactorAsFinished(status);
    return;
  }
  // Message was''','''    return;
  }
  // Message was''')),
 b('base-writedone-nopop',(T,'  responses_to_send_.pop();\n','')),
 b('base-writedone-empty',(T,'  if (!still_reading_ && responses_to_send_.empty()) {','  if (!still_reading_) {')),
 b('base-writedone-noreading',(T,'  if (!still_reading_ && responses_to_send_.empty()) {','  if (responses_to_send_.empty()) {')),
 b('base-writedone-nofinish',(T,'''  if (!still_reading_ && responses_to_send_.empty()) {
    SetReactorAsFinished(grpc::Status::OK);
    return;
  }
''','')),
 b('base-writedone-nonext',(T,'''    return;
  }
  MaybeSendNextResponse();
}''','''    return;
  }
}''')),
 k('base-cancel-finish',(T,'''  still_reading_ = false;
  is_cancelled_ = true;
''','''  still_reading_ = false;
  is_cancelled_ = true;
  if (ShouldFinish()) SetReactorAsFinished(grpc::Status::OK);
''')),
 b('base-setfin-noflag',(T,'  is_finished_ = true;\n','  is_finished_ = !status.ok();\n')),
 b('base-start-nofin',(T,'if (still_reading_ && !is_cancelled_ && !is_finished_) {','if (still_reading_ && !is_cancelled_) {')),
 b('base-send-nofin',(T,'if (responses_to_send_.empty() || is_finished_) {','if (responses_to_send_.empty()) {'),(T,'''  if (is_finished_) {
    REVERB_LOG(REVERB_ERROR)
        << "OnWriteDone was called after the reactor was finished";
    return;
  }
''',''),(T,'  // Once the reactor is finished, we won\'t send any more responses.\n  std::queue<ResponseCtx>().swap(responses_to_send_);\n','')),
 b('base-send-back',(T,'&responses_to_send_.front().payload','&responses_to_send_.back().payload')),
 b('unary-twice',(A,'''    reactor->Finish(TableNotFound(request->table()));
    return reactor;
  }
  auto status = table->Reset();''','''    reactor->Finish(TableNotFound(request->table()));
  }
  auto status = table->Reset();''')),
 b('unary-never',(A,'''  auto status = table->Reset();
  reactor->Finish(ToGrpcStatus(status));''','''  auto status = table->Reset();
  if (!status.ok()) reactor->Finish(ToGrpcStatus(status));''')),
 b('unary-after',(A,'''  *response->mutable_tables_state_id() = Uint128ToMessage(tables_state_id_);
  reactor->Finish(grpc::Status::OK);''','''  reactor->Finish(grpc::Status::OK);
  *response->mutable_tables_state_id() = Uint128ToMessage(tables_state_id_);''')),
 # behaviour preserving
 k('k-cb-lock-first',(A,'''                    if (!status.ok()) {
                      absl::MutexLock lock(&mu_);
                      if (!is_finished_) {
                        SetReactorAsFinished(ToGrpcStatus(status));
                      }
                      return;
                    }
                    MaybeStartRead();''','''                    if (status.ok()) {
                      MaybeStartRead();
                    } else {
                      absl::MutexLock lock(&mu_);
                      if (is_finished_) return;
                      SetReactorAsFinished(ToGrpcStatus(status));
                    }''')),
 k('k-conf-order',(A,'''      if (can_insert) {
        // Insert didn't exceed table's buffer, we can continue reading next
        // requests.
        StartRead(&request_);
      }
''',''),(A,'''          MaybeSendNextResponse();
        }
      }
      return grpc::Status::OK;''','''          MaybeSendNextResponse();
        }
      }
      if (can_insert) {
        StartRead(&request_);
      }
      return grpc::Status::OK;''')),
 k('k-conf-helper',(A,'''      if (send_confirmation) {
        // The first element is the one in flight, modify not yet in flight
        // response if possible.
        if (responses_to_send_.size() < 2) {
          responses_to_send_.emplace();
        }
        responses_to_send_.back().payload.add_keys(key);
        if (responses_to_send_.size() == 1) {
          MaybeSendNextResponse();
        }
      }
      return grpc::Status::OK;
    }
''','''      if (send_confirmation) {
        Confirm(key);
      }
      return grpc::Status::OK;
    }

    void Confirm(uint64_t key) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
      const bool idle = responses_to_send_.empty();
      if (idle || responses_to_send_.size() == 1) responses_to_send_.emplace();
      responses_to_send_.back().payload.add_keys(key);
      if (idle) MaybeSendNextResponse();
    }
''')),
 k('k-dtor-expired',(A,'''      sampling_done_.reset();
      while (weak_ptr.lock()) {
        absl::SleepFor(kCallbackWaitTime);
      }''','''      sampling_done_ = nullptr;
      while (!weak_ptr.expired()) {
        absl::SleepFor(kCallbackWaitTime);
      }''')),
 k('k-dtor-loop',(A,'''      continue_inserts_.reset();
      while (weak_ptr.lock()) {
        absl::SleepFor(kCallbackWaitTime);
      }''','''      continue_inserts_.reset();
      for (;;) {
        if (weak_ptr.lock() == nullptr) break;
        absl::SleepFor(kCallbackWaitTime);
      }''')),
 k('k-dtor-helper',(A,'''      sampling_done_.reset();
      while (weak_ptr.lock()) {
        absl::SleepFor(kCallbackWaitTime);
      }
    }''','''      sampling_done_.reset();
      AwaitExpired(weak_ptr);
    }

    static void AwaitExpired(const std::weak_ptr<SamplingCallback>& weak_ptr) {
      while (weak_ptr.lock()) {
        absl::SleepFor(kCallbackWaitTime);
      }
    }''')),
 k('k-sample-merge',(A,'''      if (waiting_for_enqueued_sample_) {
        // There is already an inflight sample request.
        return;
      }
      if (responses_to_send_.size() >= kMaxQueuedResponses) {
        // There are too many pending responses to send to the client.
        return;
      }''','''      const bool full = responses_to_send_.size() >= kMaxQueuedResponses;
      if (waiting_for_enqueued_sample_ || full) return;''')),
 k('k-sample-reorder',(A,'''      if (is_finished_) {
        // Nobody will receive the samples and the reactor may be destroyed as
        // soon as the callback returns.
        return;
      }
      const int next_batch_size = task_info_.NextSampleSize();
      if (next_batch_size == 0) {
        // Current request has been fully processed.
        return;
      }''','''      const int next_batch_size = task_info_.NextSampleSize();
      if (next_batch_size <= 0 || is_finished_) {
        return;
      }''')),
 k('k-sample-cb-done',(A,'''                  const int next_batch_size = task_info_.NextSampleSize();
                  if (next_batch_size != 0) {
                    MaybeStartSampling();
                    return;
                  }''','''                  MaybeStartSampling();
                  if (task_info_.fetched_samples < task_info_.requested_samples) {
                    return;
                  }''')),
 k('k-writing-flag',(A,'''                  bool already_writing = !responses_to_send_.empty();''','''                  const bool already_writing = responses_to_send_.size() > 0;''')),
 k('k-setfin-order',(T,'''  std::queue<ResponseCtx>().swap(responses_to_send_);
  is_finished_ = true;
  grpc::ServerBidiReactor<Request, Response>::Finish(status);''','''  is_finished_ = true;
  grpc::ServerBidiReactor<Request, Response>::Finish(status);
  while (!responses_to_send_.empty()) responses_to_send_.pop();''')),
 k('k-setfin-assign',(T,'  std::queue<ResponseCtx>().swap(responses_to_send_);\n','  responses_to_send_ = std::queue<ResponseCtx>();\n')),
 k('k-readdone-split',(T,'''  if (!ok || is_finished_) {''','''  const bool finished = is_finished_;
  if (finished || !ok) {''')),
 k('k-readdone-inline',(T,'''  GRPC_CALL_AND_RETURN_IF_ERROR(ProcessIncomingRequest(&request_),
                                SetReactorAsFinished);''','''  grpc::Status status = ProcessIncomingRequest(&request_);
  if (!status.ok()) {
    SetReactorAsFinished(std::move(status));
  }''')),
 k('k-shouldfinish-ifs',(T,'  return responses_to_send_.empty() && !still_reading_ && !is_finished_;','  if (is_finished_ || still_reading_) return false;\n  return responses_to_send_.size() == 0;')),
 k('k-writedone-nest',(T,'''  if (!still_reading_ && responses_to_send_.empty()) {
    SetReactorAsFinished(grpc::Status::OK);
    return;
  }
  MaybeSendNextResponse();''','''  if (ShouldFinish()) {
    SetReactorAsFinished(grpc::Status::OK);
  } else {
    MaybeSendNextResponse();
  }''')),
 k('k-init-delete',(A,'''      if (table_ptr_ != nullptr) {
        delete table_ptr_;
      }
      delete this;''','''      delete table_ptr_;
      delete this;''')),
 k('k-init-helper',(A,'''      if (!ok) {
        Finish(Internal("Failed to write to stream"));
        return;
      }
''','''      if (!ok) return Fail("Failed to write to stream");
'''),(A,'''    void OnDone() override {
      if (table_ptr_''','''    void Fail(const char* what) { Finish(Internal(what)); }

    void OnDone() override {
      if (table_ptr_''')),
 k('k-unary-status',(A,'''  if (table == nullptr) {
    reactor->Finish(TableNotFound(request->table()));
    return reactor;
  }
  auto status = table->Reset();
  reactor->Finish(ToGrpcStatus(status));
  return reactor;''','''  reactor->Finish(table == nullptr ? TableNotFound(request->table())
                                   : ToGrpcStatus(table->Reset()));
  return reactor;''')),
 k('k-unary-helper',(A,'''  auto status = table->Reset();
  reactor->Finish(ToGrpcStatus(status));
  return reactor;''','''  auto reply = [reactor](const absl::Status& s) {
    reactor->Finish(ToGrpcStatus(s));
    return reactor;
  };
  return reply(table->Reset());''')),
 k('k-cb-member',(A,'''                    if (!status.ok()) {
                      absl::MutexLock lock(&mu_);
                      if (!is_finished_) {
                        SetReactorAsFinished(ToGrpcStatus(status));
                      }
                      return;
                    }
                    MaybeStartRead();''','''                    ContinueInserts(status);'''),(A,'''    ~WorkerlessInsertReactor() {''','''    void ContinueInserts(const absl::Status& status) {
      if (!status.ok()) {
        absl::MutexLock lock(&mu_);
        if (!is_finished_) {
          SetReactorAsFinished(ToGrpcStatus(status));
        }
        return;
      }
      MaybeStartRead();
    }

    ~WorkerlessInsertReactor() {''')),
]
