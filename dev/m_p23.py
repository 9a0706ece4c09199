def b(n,*e): return (n,['P23'],'bad',list(e))
def k(n,*e): return (n,['P23'],'ok',list(e))
T='trajectory_writer.cc'; H='trajectory_writer.h'
EE='''  REVERB_RETURN_IF_ERROR(unrecoverable_status_);

  REVERB_RETURN_IF_ERROR(FlushLocked(0, timeout));
'''
WL='''              if (!status.ok() && !absl::IsUnavailable(status)) {
                unrecoverable_status_ = status;
                return;
              }
'''
FR='''      if (!ref->IsReady()) {
        REVERB_RETURN_IF_ERROR(ref->chunker().lock()->Flush());
      }
'''
COND='''    int num_pending_items = write_queue_.size() + in_flight_items_.size();
    if (!write_queue_.empty() &&
        in_flight_items_.contains(write_queue_.front().item.key())) {
      num_pending_items--;
    }

    return num_pending_items <= ignore_last_num_items;
'''
END='''  REVERB_RETURN_IF_ERROR(unrecoverable_status_);
  return absl::OkStatus();
}

absl::Status TrajectoryWriter::EndEpisode('''
AP='''    absl::MutexLock lock(&mu_);
    REVERB_RETURN_IF_ERROR(unrecoverable_status_);
    episode_info = {episode_id_, episode_step_};
'''
CI='''  {
    absl::MutexLock lock(&mu_);
    REVERB_RETURN_IF_ERROR(unrecoverable_status_);
  }

  ItemAndRefs'''
M=[
 b('append-nocheck',(T,AP,AP.replace('    REVERB_RETURN_IF_ERROR(unrecoverable_status_);\n',''))),
 b('create-nocheck',(T,CI,'''
  ItemAndRefs''')),
 b('flush-nocheck',(T,END,END.replace('  REVERB_RETURN_IF_ERROR(unrecoverable_status_);\n',''))),
 b('end-overwrites',(T,EE,'''  REVERB_RETURN_IF_ERROR(unrecoverable_status_);

  absl::Status flushed = FlushLocked(0, timeout);
  if (absl::IsDeadlineExceeded(flushed)) return flushed;
''')),
 b('end-noflush',(T,EE,'''  REVERB_RETURN_IF_ERROR(unrecoverable_status_);
''')),
 b('end-clear-noflush',(T,EE,'''  REVERB_RETURN_IF_ERROR(unrecoverable_status_);

  if (!clear_buffers) REVERB_RETURN_IF_ERROR(FlushLocked(0, timeout));
''')),
 b('end-one',(T,'FlushLocked(0, timeout)','FlushLocked(1, timeout)')),
 b('cond-no-inflight',(T,'write_queue_.size() + in_flight_items_.size();','write_queue_.size();')),
 b('cond-no-dedup',(T,COND,'''    int num_pending_items = write_queue_.size() + in_flight_items_.size();
    return num_pending_items <= ignore_last_num_items;
''')),
 b('cond-dedup-always',(T,COND,COND.replace('''    if (!write_queue_.empty() &&
        in_flight_items_.contains(write_queue_.front().item.key())) {''','''    if (!write_queue_.empty() && !in_flight_items_.empty()) {'''))),
 b('cond-noerr',(T,'''    if (!unrecoverable_status_.ok()) {
      return true;
    }

    // Items are''','''    // Items are''')),
 b('cond-closed',(T,'''    if (!unrecoverable_status_.ok()) {
      return true;
    }

    // Items are''','''    if (!unrecoverable_status_.ok() || closed_) {
      return true;
    }

    // Items are''')),
 b('cond-lt',(T,'return num_pending_items <= ignore_last_num_items;','return num_pending_items < ignore_last_num_items;')),
 b('cond-plus',(T,'return num_pending_items <= ignore_last_num_items;','return num_pending_items <= ignore_last_num_items + 1;')),
 b('timeout-ok',(T,'''  if (!mu_.AwaitWithTimeout(absl::Condition(&cond), timeout)) {
    return absl''','''  if (!mu_.AwaitWithTimeout(absl::Condition(&cond), timeout) && !in_flight_items_.empty()) {
    return absl''')),
 b('no-force',(T,FR,'''      if (!ref->IsReady() && item.refs.size() > 1) {
        REVERB_RETURN_IF_ERROR(ref->chunker().lock()->Flush());
      }
''')),
 b('force-first',(T,FR,FR+'''      break;
''')),
 b('worker-cancel-silent',(T,'''                unrecoverable_status_ = absl::CancelledError(
                    "TrajectoryWriter::Close has been called.");
                return;''','''                return;''')),
 b('worker-only-internal',(T,'if (!status.ok() && !absl::IsUnavailable(status)) {','if (absl::IsInternal(status)) {')),
 b('worker-deadline-too',(T,'if (!status.ok() && !absl::IsUnavailable(status)) {','if (!status.ok() && !absl::IsUnavailable(status) && !absl::IsDataLoss(status)) {')),
 b('worker-noreturnstatus',(T,WL,WL.replace('                unrecoverable_status_ = status;\n',''))),
 b('worker-resets',(T,WL,WL+'''              unrecoverable_status_ = status;
''')),
 b('reconnect-clears',(T,'''  context_ = absl::make_unique<grpc::ClientContext>();
''','''  context_ = absl::make_unique<grpc::ClientContext>();
  in_flight_items_.clear();
''')),
 b('reader-any',(T,'''        while (stream->Read(&response)) {
          absl::MutexLock lock(&mu_);
          for''','''        while (stream->Read(&response)) {
          absl::MutexLock lock(&mu_);
          if (response.keys_size() > 1) in_flight_items_.clear();
          for''')),
 b('reader-end',(T,'''            in_flight_items_.erase(key);
          }
        }
      });''','''            in_flight_items_.erase(key);
          }
        }
        absl::MutexLock lock(&mu_);
        for (uint64_t key : response.keys()) {
          in_flight_items_.erase(key);
        }
      });''')),
 b('flying-late',(T,'''      in_flight_items_.insert(item_and_refs.item.key());

''',''),(T,'''      write_queue_.pop_front();
''','''      in_flight_items_.insert(item_and_refs.item.key());
      write_queue_.pop_front();
''')),
 b('pop-early',(T,'''      in_flight_items_.insert(item_and_refs.item.key());

''','''      in_flight_items_.insert(item_and_refs.item.key());
      write_queue_.pop_front();

'''),(T,'''      absl::MutexLock lock(&mu_);
      // TODO(b/178090185): Maybe keep the item and references around until the
      // item has been confirmed by the server.
      write_queue_.pop_front();
''','''      absl::MutexLock lock(&mu_);
''')),
 b('no-confirm',(T,'set_send_confirmation(true)','set_send_confirmation(item.priority() > 0)')),
 b('erase-after-write',(T,'''      write_queue_.pop_front();
''','''      write_queue_.pop_front();
      if (item_and_refs.refs.empty()) in_flight_items_.erase(item_and_refs.item.key());
''')),
 b('finish-ignored',(T,'''        in_flight_items_.erase(item_and_refs.item.key());
      }
      return FromGrpcStatus(stream->Finish());''','''        in_flight_items_.erase(item_and_refs.item.key());
      }
      stream->Finish();
      return absl::OkStatus();''')),
 b('finish-unavailable',(T,'''                                  item_and_refs.refs, &request)) {
      return FromGrpcStatus(stream->Finish());''','''                                  item_and_refs.refs, &request)) {
      stream->Finish();
      return absl::OkStatus();''')),
 b('create-drop',(T,'''    write_queue_.push_back(std::move(item_and_refs));
''','''    if (!closed_) write_queue_.push_back(std::move(item_and_refs));
''')),
 b('chunker-flush-direct',(T,'''  REVERB_RETURN_IF_ERROR(FlushLocked(0, timeout));

  for (auto& [_, chunker] : chunkers_) {
    if (clear_buffers) {
      chunker->Reset();
    } else {
      // This call should NEVER fail but if it does then we will not be able to
      // recover from it.
      unrecoverable_status_ = chunker->Flush();
      REVERB_RETURN_IF_ERROR(unrecoverable_status_);
    }
  }
''','''  REVERB_RETURN_IF_ERROR(FlushLocked(0, timeout));

  for (auto& [_, chunker] : chunkers_) {
    if (clear_buffers) {
      chunker->Reset();
    } else {
      unrecoverable_status_ = chunker->Flush();
    }
  }
  REVERB_RETURN_IF_ERROR(unrecoverable_status_);
''')),
 # ok
 k('cond-helper',(T,COND,'''    return NumPending() <= ignore_last_num_items;
'''),(T,'''absl::Status TrajectoryWriter::FlushLocked(int ignore''','''int TrajectoryWriter::NumPending() const {
  int n = write_queue_.size() + in_flight_items_.size();
  if (write_queue_.empty()) return n;
  const uint64_t key = write_queue_.front().item.key();
  return in_flight_items_.contains(key) ? n - 1 : n;
}

absl::Status TrajectoryWriter::FlushLocked(int ignore'''),(H,'''  // Helper for generating all the keys''' if False else '''  absl::Status FlushLocked(''','''  int NumPending() const ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
  absl::Status FlushLocked(''')),
 k('cond-not',(T,'return num_pending_items <= ignore_last_num_items;','return !(num_pending_items > ignore_last_num_items);')),
 k('cond-early',(T,'''    if (!unrecoverable_status_.ok()) {
      return true;
    }

    // Items are''','''    bool failed = !unrecoverable_status_.ok();
    if (failed) return true;

    // Items are''')),
 k('cond-arith',(T,COND,'''    bool front_in_flight = !write_queue_.empty() &&
        in_flight_items_.contains(write_queue_.front().item.key());
    int num_pending_items = write_queue_.size() + in_flight_items_.size() - (front_in_flight ? 1 : 0);
    return num_pending_items <= ignore_last_num_items;
''')),
 k('flush-plain-if',(T,END,END.replace('''  REVERB_RETURN_IF_ERROR(unrecoverable_status_);
  return absl::OkStatus();
''','''  return unrecoverable_status_;
'''))),
 k('end-local',(T,'''      unrecoverable_status_ = chunker->Flush();
      REVERB_RETURN_IF_ERROR(unrecoverable_status_);
''','''      if (absl::Status status = chunker->Flush(); !status.ok()) {
        unrecoverable_status_ = status;
        return status;
      }
''')),
 k('end-loops',(T,'''  for (auto& [_, chunker] : chunkers_) {
    if (clear_buffers) {
      chunker->Reset();
    } else {
      // This call should NEVER fail but if it does then we will not be able to
      // recover from it.
      unrecoverable_status_ = chunker->Flush();
      REVERB_RETURN_IF_ERROR(unrecoverable_status_);
    }
  }
''','''  if (clear_buffers) {
    for (auto& it : chunkers_) it.second->Reset();
  } else {
    for (auto& it : chunkers_) {
      unrecoverable_status_ = it.second->Flush();
      if (!unrecoverable_status_.ok()) return unrecoverable_status_;
    }
  }
''')),
 k('worker-rearranged',(T,'''              if (closed_) {
                unrecoverable_status_ = absl::CancelledError(
                    "TrajectoryWriter::Close has been called.");
                return;
              }

'''+WL,'''              if (closed_) {
                unrecoverable_status_ = absl::CancelledError(
                    "TrajectoryWriter::Close has been called.");
                break;
              }
              if (status.ok() || absl::IsUnavailable(status)) continue;
              unrecoverable_status_ = std::move(status);
              break;
''')),
 k('worker-transient-var',(T,WL,'''              const bool transient = status.ok() || status.code() == absl::StatusCode::kUnavailable;
              if (!transient) {
                unrecoverable_status_ = status;
                return;
              }
''')),
 k('append-plain',(T,AP,'''    absl::MutexLock lock(&mu_);
    if (!unrecoverable_status_.ok()) return unrecoverable_status_;
    episode_info = {episode_id_, episode_step_};
''')),
 k('create-helper',(T,CI,'''  REVERB_RETURN_IF_ERROR(CheckUsable());

  ItemAndRefs'''),(T,'''absl::Status TrajectoryWriter::FlushLocked(int ignore''','''absl::Status TrajectoryWriter::CheckUsable() {
  absl::MutexLock lock(&mu_);
  return unrecoverable_status_;
}

absl::Status TrajectoryWriter::FlushLocked(int ignore'''),(H,'''  absl::Status FlushLocked(''','''  absl::Status CheckUsable();
  absl::Status FlushLocked(''')),
 k('flush-range',(T,'''  int num_items_to_force_flush = write_queue_.size() - ignore_last_num_items;
  for (const ItemAndRefs& item : write_queue_) {
    if (num_items_to_force_flush-- <= 0) break;

''','''  const int num_items_to_force_flush = write_queue_.size() - ignore_last_num_items;
  for (int i = 0; i < num_items_to_force_flush; i++) {
    const ItemAndRefs& item = write_queue_[i];
''')),
 k('flush-helper',(T,FR,'''      REVERB_RETURN_IF_ERROR(FinishData(*ref));
'''),(T,'''absl::Status TrajectoryWriter::FlushLocked(int ignore''','''static absl::Status FinishData(const CellRef& ref) {
  if (ref.IsReady()) return absl::OkStatus();
  return ref.chunker().lock()->Flush();
}

absl::Status TrajectoryWriter::FlushLocked(int ignore''')),
 k('flush-continue',(T,FR,'''      if (ref->IsReady()) continue;
      absl::Status s = ref->chunker().lock()->Flush();
      if (!s.ok()) return s;
''')),
 k('await-var',(T,'''  if (!mu_.AwaitWithTimeout(absl::Condition(&cond), timeout)) {
    return absl''','''  const bool done = mu_.AwaitWithTimeout(absl::Condition(&cond), timeout);
  if (!done) {
    return absl''')),
 k('no-erase-on-failure',(T,'''      {
        absl::WriterMutexLock lock(&mu_);
        in_flight_items_.erase(item_and_refs.item.key());
      }
      return From''','''      return From''')),
]
