def b(n,*e): return (n,['P26'],'bad',list(e))
def k(n,*e): return (n,['P26'],'ok',list(e))
S='sampler.cc'
def s(a,c,n=None): return (S,a,c) if n is None else (S,a,c,n)
RET='''    if (++returned_ == max_samples_) samples_.Close();
  }
'''
R2='''  if (++returned_ == max_samples_) samples_.Close();
'''
OFF='''      column_length += column_slice.tensor.dim_size(0) - column_slice.offset;'''
M=[
# A
b('closed_ignored',s('return closed_ || returned_ == max_samples_ || !worker_status_.ok();','return returned_ == max_samples_ || !worker_status_.ok();')),
b('returned_ignored',s('return closed_ || returned_ == max_samples_ || !worker_status_.ok();','return closed_ || !worker_status_.ok();')),
b('status_ignored',s('return closed_ || returned_ == max_samples_ || !worker_status_.ok();','return closed_ || returned_ == max_samples_;')),
b('requested_stops',s('return closed_ || returned_ == max_samples_ ||','return closed_ || requested_ == max_samples_ ||')),
b('trigger_no_stop',s('return should_stop_workers() || requested_ < max_samples_;','return requested_ < max_samples_;')),
b('trigger_only_stop',s('return should_stop_workers() || requested_ < max_samples_;','return should_stop_workers();')),
b('trigger_le',s('return should_stop_workers() || requested_ < max_samples_;','return should_stop_workers() || requested_ <= max_samples_;')),
b('trigger_always',s('return should_stop_workers() || requested_ < max_samples_;','return true;')),
b('requested_total',s('''        std::min<int64_t>(max_samples_per_stream_, max_samples_ - requested_);''','''        std::min<int64_t>(max_samples_per_stream_, max_samples_);''')),
b('requested_max',s('''        std::min<int64_t>(max_samples_per_stream_, max_samples_ - requested_);''','''        max_samples_per_stream_;''')),
b('requested_returned',s('''        std::min<int64_t>(max_samples_per_stream_, max_samples_ - requested_);''','''        std::min<int64_t>(max_samples_per_stream_, max_samples_ - returned_);''')),
b('requested_not_counted',s('''    requested_ += samples_to_stream;
''','')),
b('requested_after',s('''    requested_ += samples_to_stream;
    mu_.Unlock();
''','''    mu_.Unlock();
'''),s('''      requested_ -= samples_to_stream - result.first;''','''      requested_ += result.first;''')),
b('not_given_back',s('''      requested_ -= samples_to_stream - result.first;
''','')),
b('all_given_back',s('''      requested_ -= samples_to_stream - result.first;
''','''      requested_ -= samples_to_stream;
''')),
b('given_back_on_error',s('''      requested_ -= samples_to_stream - result.first;
''','''      if (!result.second.ok()) requested_ -= samples_to_stream - result.first;
''')),
b('given_back_sign',s('''      requested_ -= samples_to_stream - result.first;
''','''      requested_ += samples_to_stream - result.first;
''')),
b('given_back_after_return',s('''      requested_ -= samples_to_stream - result.first;

      // Overwrite the final status only if it wasn't already an error.
''',''),s('''        return;
      }
    }
  }
}

Sample::Sample(''','''        return;
      }
      requested_ -= samples_to_stream - result.first;
    }
  }
}

Sample::Sample(''')),
b('stop_unchecked',s('''    if (should_stop_workers()) {
      mu_.Unlock();
      return;
    }

    int64_t samples''','''    int64_t samples''')),
b('overwritten',s('''      if (worker_status_.ok() && !result.second.ok() &&''','''      if (!result.second.ok() &&''')),
b('unavailable_kept',s(''' && !result.second.ok() &&
          !absl::IsUnavailable(result.second)) {''',''' && !result.second.ok()) {''')),
b('error_lost',s('''        worker_status_ = result.second;
''','')),
b('consumers_sleep',s('''        samples_.Close();  // Unblock any pending calls.
''','')),
b('deadline_dropped',s('''          !absl::IsUnavailable(result.second)) {''','''          !absl::IsUnavailable(result.second) &&
          !absl::IsDeadlineExceeded(result.second)) {''')),
b('cancelled_dropped_too',s('''          !absl::IsUnavailable(result.second)) {''','''          absl::IsDeadlineExceeded(result.second)) {''')),
b('dies_on_unavailable',s('''        samples_.Close();  // Unblock any pending calls.
        return;
      }
''','''        samples_.Close();  // Unblock any pending calls.
      }
      if (!result.second.ok()) return;
''')),
b('timeout_forever',s('''worker->FetchSamples(&samples_, samples_to_stream,
                                       rate_limiter_timeout_);''','''worker->FetchSamples(&samples_, samples_to_stream,
                                       absl::InfiniteDuration());''')),
b('fetch_all',s('''worker->FetchSamples(&samples_, samples_to_stream,
''','''worker->FetchSamples(&samples_, max_samples_per_stream_,
''')),
# B
b('max_first_lost',s('''  if (returned_ == max_samples_) {
    return absl::OutOfRangeError("`max_samples` already returned.");
  }
''','')),
b('requested_limit',s('''  if (returned_ == max_samples_) {
    return absl::OutOf''','''  if (requested_ == max_samples_) {
    return absl::OutOf''')),
b('closed_lost',s('''  if (closed_) {
    return absl::CancelledError("Sampler has been cancelled.");
  }
  return worker''','''  return worker''')),
b('pop_checks_after',s('''  if (samples_.Pop(sample)) return absl::OkStatus();

  absl::ReaderMutexLock lock(&mu_);
''','''  const bool popped = samples_.Pop(sample);

  absl::ReaderMutexLock lock(&mu_);
'''),s('''  return worker_status_;
}

void Sampler::Run''','''  if (popped) return absl::OkStatus();
  return worker_status_;
}

void Sampler::Run''')),
b('pop_ignored',s('''  if (samples_.Pop(sample)) return absl::OkStatus();
''','''  samples_.Pop(sample);
''')),
b('always_ok',s('''  return worker_status_;
}

void Sampler::Run''','''  return absl::OkStatus();
}

void Sampler::Run''')),
# C
b('ts_every_step',s('''  if (active_sample_->is_end_of_sample()) {
    absl::WriterMutexLock lock(&mu_);
''','''  {
    absl::WriterMutexLock lock(&mu_);
''')),
b('ts_not_counted',s('''    absl::WriterMutexLock lock(&mu_);
    if (++returned_ == max_samples_) samples_.Close();
  }
''','''    absl::WriterMutexLock lock(&mu_);
    if (returned_ == max_samples_) samples_.Close();
  }
''')),
b('ts_not_closed',s('''    if (++returned_ == max_samples_) samples_.Close();
  }
''','''    ++returned_;
  }
''')),
b('ts_post_inc',s('''    if (++returned_ == max_samples_) samples_.Close();
  }
''','''    if (returned_++ == max_samples_) samples_.Close();
  }
''')),
b('ts_end_before',s('''  *data = active_sample_->GetNextTimestep();
''','''  if (end_of_sequence != nullptr) {
    *end_of_sequence = active_sample_->is_end_of_sample();
  }
  *data = active_sample_->GetNextTimestep();
'''),s('''  if (end_of_sequence != nullptr) {
    *end_of_sequence = active_sample_->is_end_of_sample();
  }

  if (active''','''  if (active''')),
b('ts_end_inverted',s('''    *end_of_sequence = active_sample_->is_end_of_sample();''','''    *end_of_sequence = !active_sample_->is_end_of_sample();''')),
b('ts_composed',s('''  if (!active_sample_->is_composed_of_timesteps()) {
    return absl::InvalidArgumentError(
        "Sampled trajectory cannot be decomposed into timesteps.");
  }
''','')),
b('ts_counted_early',s('''  *data = active_sample_->GetNextTimestep();
  REVERB_RETURN_IF_ERROR(
      ValidateAgainstOutputSpec(*data, ValidationMode::kTimestep));
''','''  *data = active_sample_->GetNextTimestep();
'''),s('''    if (++returned_ == max_samples_) samples_.Close();
  }

  return absl::OkStatus();''','''    if (++returned_ == max_samples_) samples_.Close();
  }

  return ValidateAgainstOutputSpec(*data, ValidationMode::kTimestep);''')),
b('ts_rate_limited_lost',s('''  if (rate_limited != nullptr) {
    *rate_limited = active_sample_->rate_limited();
  }
''','')),
b('sample_not_counted',s(R2+'''  return absl::OkStatus();
}

absl::Status Sampler::GetNextTrajectory''','''  if (returned_ == max_samples_) samples_.Close();
  return absl::OkStatus();
}

absl::Status Sampler::GetNextTrajectory''')),
b('traj_not_closed',s(R2+'''  return absl::OkStatus();
}

absl::Status Sampler::Validate''','''  ++returned_;
  return absl::OkStatus();
}

absl::Status Sampler::Validate''')),
b('traj_counted_early',s('''  REVERB_RETURN_IF_ERROR(PopNextSample(&sample));
  REVERB_RETURN_IF_ERROR(sample->AsTrajectory(data));
''','''  REVERB_RETURN_IF_ERROR(PopNextSample(&sample));
  {
    absl::WriterMutexLock lock(&mu_);
    if (++returned_ == max_samples_) samples_.Close();
  }
  REVERB_RETURN_IF_ERROR(sample->AsTrajectory(data));
'''),s('''  absl::WriterMutexLock lock(&mu_);
  if (++returned_ == max_samples_) samples_.Close();
  return absl::OkStatus();
}

absl::Status Sampler::Validate''','''  return absl::OkStatus();
}

absl::Status Sampler::Validate''')),
b('sample_close_early',s(R2,'''  if (++returned_ >= max_samples_ - 1) samples_.Close();
''')),
b('traj_as_batched',s('''  REVERB_RETURN_IF_ERROR(sample->AsTrajectory(data));''','''  REVERB_RETURN_IF_ERROR(sample->AsBatchedTimesteps(data));''')),
b('traj_data_unchecked',s('''  REVERB_RETURN_IF_ERROR(sample->AsTrajectory(data));''','''  sample->AsTrajectory(data).IgnoreError();''')),
b('traj_rate_false',s('''  if (rate_limited != nullptr) {
    *rate_limited = sample->rate_limited();
  }

  absl::WriterMutexLock lock(&mu_);
  if (++returned_ == max_samples_) samples_.Close();
  return absl::OkStatus();
}

absl::Status Sampler::V''','''  if (rate_limited != nullptr) {
    *rate_limited = false;
  }

  absl::WriterMutexLock lock(&mu_);
  if (++returned_ == max_samples_) samples_.Close();
  return absl::OkStatus();
}

absl::Status Sampler::V''')),
b('maybe_always',s('''  if (active_sample_ != nullptr && !active_sample_->is_end_of_sample()) {
    return absl::OkStatus();
  }
''','')),
b('maybe_never',s('''  if (active_sample_ != nullptr && !active_sample_->is_end_of_sample()) {''','''  if (active_sample_ != nullptr) {''')),
# D grpc
b('g_count_request',s('''        ++num_samples_returned;
          ++sampled;'''[0:0]+'''          ++num_samples_returned;
''',''),s('''      if (!parts_of_next_sample.empty()) {''','''      num_samples_returned += request.num_samples();
      if (!parts_of_next_sample.empty()) {''')),
b('g_count_before_push',s('''          if (!queue->Push(std::move(sample))) {''','''          ++num_samples_returned;
          if (!queue->Push(std::move(sample))) {'''),s('''          ++num_samples_returned;
          ++sampled;''','''          ++sampled;''')),
b('g_push_unchecked',s('''          if (!queue->Push(std::move(sample))) {
            return {num_samples_returned,
                    absl::CancelledError("`Close` called on Sampler")};
          }
''','''          queue->Push(std::move(sample));
''')),
b('g_partial',s('''          if (!parts_of_next_sample.back().end_of_sequence()) {
            continue;
          }
''','')),
b('g_not_cleared',s('''          parts_of_next_sample.clear();
''','')),
b('g_status',s('''          if (!status.ok()) {
            return {num_samples_returned, status};
          }
          if (!queue''','''          if (!queue''')),
b('g_skip_bad',s('''          if (!status.ok()) {
            return {num_samples_returned, status};
          }
          if (!queue''','''          if (!status.ok()) {
            ++sampled;
            ++num_samples_returned;
            continue;
          }
          if (!queue''')),
b('g_ask_all',s('''          std::min(samples_per_request_, num_samples - num_samples_returned));''','''          samples_per_request_);''')),
b('g_ask_total',s('''          std::min(samples_per_request_, num_samples - num_samples_returned));''','''          std::min(samples_per_request_, num_samples));''')),
b('g_left_ignored',s('''      if (!parts_of_next_sample.empty()) {
        return {num_samples_returned,
                absl::InternalError(
                    "Streamed responses included unattributed SampleEntry.")};
      }
''','')),
b('g_read_zero',s('''            return {num_samples_returned, status};
          }
        }
        for (auto& entry''','''            return {0, status};
          }
        }
        for (auto& entry''')),
b('g_read_ok',s('''            return {num_samples_returned, status};
          }
        }
        for (auto& entry''','''            return {num_samples_returned, absl::OkStatus()};
          }
        }
        for (auto& entry''')),
b('g_idle_always',s('''          if (errors::IsRateLimiterTimeout(status) &&
              queue->num_waiting_to_pop() < 1) {''','''          if (errors::IsRateLimiterTimeout(status)) {''')),
b('g_idle_any',s('''          if (errors::IsRateLimiterTimeout(status) &&
              queue->num_waiting_to_pop() < 1) {''','''          if (queue->num_waiting_to_pop() < 1) {''')),
b('g_idle_inv',s('''              queue->num_waiting_to_pop() < 1) {
            // The''','''              queue->num_waiting_to_pop() >= 1) {
            // The''')),
b('g_closed_ignored',s('''      if (closed_) {
        return {0, absl::CancelledError("`Close` called on Sampler.")};
      }
      context_''','''      context_''')),
b('g_stream_unlocked',s('''      stream = stub_->SampleStream(context_.get());
    }
''','''    }
    stream = stub_->SampleStream(context_.get());
''')),
b('g_short_ok',s('''    if (num_samples_returned != num_samples) {
      return {num_samples_returned,
              absl::InternalError(''','''    if (num_samples_returned > num_samples) {
      return {num_samples_returned,
              absl::InternalError('''),s('''      if (!stream->Write(request)) {
        return {num_samples_returned, FromGrpcStatus(stream->Finish())};
      }''','''      if (!stream->Write(request)) break;''')),
b('g_count_twice',s('''          ++num_samples_returned;
          ++sampled;''','''          num_samples_returned += 2;
          ++sampled;''')),
b('g_entries_reverse',s('''        for (auto& entry : response.entries()) {
          parts''','''        for (int e = 1; e < response.entries_size(); ++e) {
          auto& entry = response.entries(e);
          parts''')),
# D local
b('l_count_missing',s('''        ++num_samples_returned;
      }
    }
''','''      }
      num_samples_returned += batch_size;
    }
''')),
b('l_push_unchecked',s('''        if (!queue->Push(std::move(sample))) {
          return {num_samples_returned,
                  absl::CancelledError("`Close` called on Sampler")};
        }
        ++num''','''        queue->Push(std::move(sample));
        ++num''')),
b('l_sample_unchecked',s('''        if (status = AsSample(item, &sample); !status.ok()) {
          return {num_samples_returned, status};
        }
''','''        AsSample(item, &sample).IgnoreError();
''')),
b('l_sample_skipped',s('''        if (status = AsSample(item, &sample); !status.ok()) {
          return {num_samples_returned, status};
        }
''','''        if (status = AsSample(item, &sample); !status.ok()) {
          continue;
        }
''')),
b('l_error_zero',s('''        if (status = AsSample(item, &sample); !status.ok()) {
          return {num_samples_returned, status};
        }
''','''        if (status = AsSample(item, &sample); !status.ok()) {
          return {0, status};
        }
''')),
b('l_batch_big',s('''std::min<int>(flexible_batch_size_,
                                      num_samples - num_samples_returned);''','''flexible_batch_size_;''')),
b('l_batch_total',s('''std::min<int>(flexible_batch_size_,
                                      num_samples - num_samples_returned);''','''std::min<int>(flexible_batch_size_, num_samples);''')),
b('l_only_first',s('''      for (const auto& item : items) {
        std::unique''','''      for (int i = 0; i < 1; ++i) {
        const auto& item = items[i];
        std::unique''')),
b('l_closed',s('''        if (closed_) {
          return {0, absl::CancelledError("`Close` called on Sampler.")};
        }
      }

      // If the''','''      }

      // If the''')),
b('l_closed_once',s('''    while (num_samples_returned < num_samples) {
      {
        absl::MutexLock lock(&mu_);
        if (closed_) {
          return {0, absl::CancelledError("`Close` called on Sampler.")};
        }
      }
''','''    {
      absl::MutexLock lock(&mu_);
      if (closed_) {
        return {0, absl::CancelledError("`Close` called on Sampler.")};
      }
    }
    while (num_samples_returned < num_samples) {
''')),
b('l_no_wake',s('''          std::min(final_deadline, absl::Now() + kWakeupTimeout) - absl::Now();''','''          final_deadline - absl::Now();''')),
b('l_wake_long',s('''static const auto kWakeupTimeout = absl::Seconds(3);''','''static const auto kWakeupTimeout = absl::Seconds(3000);''')),
b('l_wake_max',s('''          std::min(final_deadline, absl::Now() + kWakeupTimeout) - absl::Now();''','''          std::max(final_deadline, absl::Now() + kWakeupTimeout) - absl::Now();''')),
b('l_timeout_early',s('''        if (absl::Now() < final_deadline) {
          continue;
        }
''','')),
b('l_timeout_idle',s('''        if (queue->num_waiting_to_pop() < 1) {
          // While no items requested, we reset the final_deadline and restart.
          final_deadline = absl::Now() + rate_limiter_timeout;
          continue;
        }
''','')),
# F
b('close_no_cancel',s('''  for (auto& worker : workers_) {
    worker->Cancel();
  }

  samples''','''  samples''')),
b('close_first_only',s('''  for (auto& worker : workers_) {
    worker->Cancel();
  }
''','''  if (!workers_.empty()) workers_.front()->Cancel();
''')),
b('close_queue_late',s('''  samples_.Close();
  worker_threads_.clear();  // Joins worker threads.''','''  worker_threads_.clear();  // Joins worker threads.
  samples_.Close();''')),
b('close_flag_late',s('''    if (closed_) return;
    closed_ = true;
  }

  for''','''    if (closed_) return;
  }

  for'''),s('''  samples_.Close();
  worker_threads_.clear();  // Joins worker threads.''','''  samples_.Close();
  worker_threads_.clear();  // Joins worker threads.
  absl::WriterMutexLock lock(&mu_);
  closed_ = true;''')),
b('close_locked',s('''  {
    absl::WriterMutexLock lock(&mu_);
    if (closed_) return;
    closed_ = true;
  }
''','''  absl::WriterMutexLock lock(&mu_);
  if (closed_) return;
  closed_ = true;
''')),
b('close_no_join',s('''  worker_threads_.clear();  // Joins worker threads.
''','')),
b('dtor',s('Sampler::~Sampler() { Close(); }','Sampler::~Sampler() {}')),
b('cancel_g_flag',s('''    closed_ = true;
    if (context_ != nullptr) context_->TryCancel();''','''    if (context_ != nullptr) context_->TryCancel();''')),
b('cancel_g_stream',s('''    if (context_ != nullptr) context_->TryCancel();
''','')),
b('cancel_g_inv',s('''    if (context_ != nullptr) context_->TryCancel();
''','''    if (context_ == nullptr) return;
''')),
b('cancel_l_flag',s('''    closed_ = true;
  }

  // Fetches''','''  }

  // Fetches''') if False else s('''  void Cancel() override {
    absl::MutexLock lock(&mu_);
    closed_ = true;
  }''','''  void Cancel() override {
    absl::MutexLock lock(&mu_);
    closed_ = false;
  }''')),
# G
b('length_no_offset',s(OFF,'''      column_length += column_slice.tensor.dim_size(0);''')),
b('length_first_col',s('''    if (prev_column_length != -1 && prev_column_length != column_length) {
      return false;
    }
''','''    if (prev_column_length != -1 && prev_column_length > column_length) {
      return false;
    }
''')),
b('length_prev_lost',s('''    prev_column_length = column_length;
''','')),
b('step_no_advance',s('''SubSlice(col.front().offset++)''','''SubSlice(col.front().offset)''')),
b('step_pre',s('''SubSlice(col.front().offset++)''','''SubSlice(++col.front().offset)''')),
b('step_back',s('''    auto slice = col.front().tensor.SubSlice(col.front().offset++);''','''    auto slice = col.back().tensor.SubSlice(col.back().offset++);''')),
b('step_no_pop',s('''    if (col.front().offset == col.front().tensor.dim_size(0)) {
      col.pop_front();
    }
''','')),
b('step_pop_back',s('''      col.pop_front();
''','''      col.pop_back();
''')),
b('step_pop_early',s('''    if (col.front().offset == col.front().tensor.dim_size(0)) {''','''    if (col.front().offset + 1 >= col.front().tensor.dim_size(0)) {''')),
b('step_flag',s('''  next_timestep_called_ = true;
''','')),
b('step_info',s('''  result.push_back(ScalarTensor(key_));
  result.push_back(ScalarTensor(probability_));''','''  result.push_back(ScalarTensor(probability_));
  result.push_back(ScalarTensor(key_));''')),
b('end_any',s('''  return std::all_of(columns_.begin(), columns_.end(),''','''  return std::any_of(columns_.begin(), columns_.end(),''')),
b('end_inv',s('''                     [](const auto& c) { return c.empty(); });''','''                     [](const auto& c) { return !c.empty(); });''')),
b('batch_called',s('''  if (next_timestep_called_) {
    return absl::DataLossError(
        "Sample::AsBatchedTimesteps: Some time steps have been lost.");
  }
  if (!is''','''  if (!is''')),
b('traj_called',s('''absl::Status Sample::AsTrajectory(std::vector<tensorflow::Tensor>* data) {
  if (next_timestep_called_) {
    return absl::DataLossError(
        "Sample::AsBatchedTimesteps: Some time steps have been lost.");
  }
''','''absl::Status Sample::AsTrajectory(std::vector<tensorflow::Tensor>* data) {
''')),
b('batch_composed',s('''  if (!is_composed_of_timesteps()) {
    return absl::FailedPreconditionError(
        "Sample::AsBatchedTimesteps when trajectory cannot be decomposed into "
        "timesteps.");
  }
''','')),
b('batch_info_swap',s('''  sequences[2] = InitializeTensor(table_size_, num_timesteps_);
  sequences[3] = InitializeTensor(priority_, num_timesteps_);''','''  sequences[3] = InitializeTensor(table_size_, num_timesteps_);
  sequences[2] = InitializeTensor(priority_, num_timesteps_);''')),
b('traj_info_missing',s('''  sequences[3] = ScalarTensor(priority_);
''','')),
b('squeeze_all',s('''    if (!squeeze_columns_[i]) continue;
''','')),
b('squeeze_inv',s('''    if (!squeeze_columns_[i]) continue;
''','''    if (squeeze_columns_[i]) continue;
''')),
b('squeeze_many',s('''    if (int batch_dim = sequences[i + 4].shape().dim_size(0); batch_dim != 1) {''','''    if (int batch_dim = sequences[i + 4].shape().dim_size(0); batch_dim < 1) {''')),
b('squeeze_from_1',s('''  for (int i = 0; i < squeeze_columns_.size(); i++) {''','''  for (int i = 1; i < squeeze_columns_.size(); i++) {''')),
b('squeeze_last_left',s('''  for (int i = 0; i < squeeze_columns_.size(); i++) {''','''  for (int i = 0; i + 1 < squeeze_columns_.size(); i++) {''')),
b('squeeze_wrong',s('''    sequences[i + 4] = sequences[i + 4].SubSlice(0);''','''    sequences[i + 4] = sequences[i + 3].SubSlice(0);''')),
b('unpack_single_only',s('''    if (column.size() == 1) {''','''    if (column.size() >= 1) {''')),
b('unpack_reverse',s('''      for (auto& slice : column) {
        column_tensors.push_back(std::move(slice.tensor));
      }''','''      for (auto& slice : column) {
        column_tensors.insert(column_tensors.begin(), std::move(slice.tensor));
      }''')),
b('unpack_concat_status',s('''      REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
          tensorflow::tensor::Concat(column_tensors, &data->at(i++))));''','''      tensorflow::tensor::Concat(column_tensors, &data->at(i++)).IgnoreError();''')),
b('unpack_ignored',s('''  REVERB_RETURN_IF_ERROR(UnpackColumns(&sequences));

  // Remove''','''  UnpackColumns(&sequences).IgnoreError();

  // Remove''')),
b('make_probability',s('''      info.item().key(), info.probability(), info.table_size(),
      info.item().priority(),''','''      info.item().key(), info.item().priority(), info.table_size(),
      info.probability(),''')),
b('make_local_rl',s('''sampled_item.table_size, sampled_item.priority, sampled_item.rate_limited,''','''sampled_item.table_size, sampled_item.priority, false,''')),
b('make_unpack_status',s('''      REVERB_RETURN_IF_ERROR(internal::UnpackChunkColumnAndSlice(
          *it->second, slice, &column_chunks[i].back()));''','''      internal::UnpackChunkColumnAndSlice(
          *it->second, slice, &column_chunks[i].back()).IgnoreError();''')),
b('make_missing_chunk',s('''      if (it == chunks.end()) {
        return absl::InternalError(
            absl::StrCat("Chunk ", slice.chunk_key(),
                         " could not be found when unpacking item ",
                         info.item().key(), "."));
      }
''','''      if (it == chunks.end()) continue;
''')),
b('make_refcount',s('''      if (--chunk_ref_count[slice.chunk_key()] == 0) {
        chunks.erase(it);
      }
''','''      chunks.erase(it);
''')),
b('make_squeeze',s('''    squeeze_columns[i] = columns[i].squeeze();
''','')),
b('make_squeeze_local',s('''    squeeze_columns.push_back(col.squeeze());''','''    squeeze_columns.push_back(!col.squeeze());''')),
b('make_column_lost',s('''    column_chunks.push_back(std::move(unpacked_chunks));
''','''    if (!unpacked_chunks.empty() && !column.squeeze()) column_chunks.push_back(std::move(unpacked_chunks));
''')),
# ok
k('stop_helper',s('''bool Sampler::should_stop_workers() const {
  return closed_ || returned_ == max_samples_ || !worker_status_.ok();
}''','''bool Sampler::should_stop_workers() const {
  if (closed_) return true;
  if (!worker_status_.ok()) return true;
  return returned_ >= max_samples_;
}''')),
k('trigger_order',s('return should_stop_workers() || requested_ < max_samples_;','return max_samples_ > requested_ || should_stop_workers();')),
k('trigger_if',s('return should_stop_workers() || requested_ < max_samples_;','''if (requested_ < max_samples_) return true;
    return should_stop_workers();''')),
k('await',s('''    mu_.LockWhen(absl::Condition(&trigger));
''','''    mu_.Lock();
    mu_.Await(absl::Condition(&trigger));
''')),
k('request_if',s('''    int64_t samples_to_stream =
        std::min<int64_t>(max_samples_per_stream_, max_samples_ - requested_);''','''    int64_t samples_to_stream = max_samples_ - requested_;
    if (samples_to_stream > max_samples_per_stream_) {
      samples_to_stream = max_samples_per_stream_;
    }''')),
k('give_back_named',s('''      requested_ -= samples_to_stream - result.first;''','''      const int64_t missing = samples_to_stream - result.first;
      requested_ = requested_ - missing;''')),
k('give_back_if',s('''      requested_ -= samples_to_stream - result.first;''','''      requested_ -= samples_to_stream;
      requested_ += result.first;''')),
k('structured',s('''    auto result = worker->FetchSamples(''','''    const auto result = worker->FetchSamples(''')),
k('binding',s('''    auto result = worker->FetchSamples(''','''    auto [fetched, status] = worker->FetchSamples('''),s('''samples_to_stream - result.first;''','''samples_to_stream - fetched;'''),s('''      if (worker_status_.ok() && !result.second.ok() &&
          !absl::IsUnavailable(result.second)) {
        worker_status_ = result.second;''','''      if (worker_status_.ok() && !status.ok() &&
          !absl::IsUnavailable(status)) {
        worker_status_ = status;''')),
k('error_nested',s('''      if (worker_status_.ok() && !result.second.ok() &&
          !absl::IsUnavailable(result.second)) {
        worker_status_ = result.second;
        samples_.Close();  // Unblock any pending calls.
        return;
      }
''','''      if (result.second.ok() || absl::IsUnavailable(result.second)) continue;
      if (worker_status_.ok()) {
        worker_status_ = result.second;
        samples_.Close();  // Unblock any pending calls.
        return;
      }
''')),
k('pop_inverted',s('''  if (samples_.Pop(sample)) return absl::OkStatus();

  absl::ReaderMutexLock lock(&mu_);
''','''  const bool popped = samples_.Pop(sample);
  if (popped) {
    return absl::OkStatus();
  }

  absl::ReaderMutexLock lock(&mu_);
''')),
k('count_split',s(RET,'''    ++returned_;
    if (returned_ == max_samples_) samples_.Close();
  }
''')),
k('count_helper_bool',s(R2,'''  returned_ += 1;
  if (returned_ >= max_samples_) {
    samples_.Close();
  }
''')),
k('end_named',s('''  if (end_of_sequence != nullptr) {
    *end_of_sequence = active_sample_->is_end_of_sample();
  }

  if (active_sample_->is_end_of_sample()) {''','''  const bool end = active_sample_->is_end_of_sample();
  if (end_of_sequence != nullptr) {
    *end_of_sequence = end;
  }

  if (end) {''')),
k('rl_late',s('''  if (rate_limited != nullptr) {
    *rate_limited = sample->rate_limited();
  }

  absl::WriterMutexLock lock(&mu_);
  if (++returned_ == max_samples_) samples_.Close();
  return''','''  {
    absl::WriterMutexLock lock(&mu_);
    if (++returned_ == max_samples_) samples_.Close();
  }
  if (rate_limited != nullptr) {
    *rate_limited = sample->rate_limited();
  }
  return''')),
k('maybe_nested',s('''  if (active_sample_ != nullptr && !active_sample_->is_end_of_sample()) {
    return absl::OkStatus();
  }

  return PopNextSample(&active_sample_);''','''  if (active_sample_ == nullptr || active_sample_->is_end_of_sample()) {
    return PopNextSample(&active_sample_);
  }
  return absl::OkStatus();''')),
k('g_eos_if',s('''          if (!parts_of_next_sample.back().end_of_sequence()) {
            continue;
          }
''','''          const bool complete = parts_of_next_sample.back().end_of_sequence();
          if (!complete) continue;
''')),
k('g_for_index',s('''        for (auto& entry : response.entries()) {
          parts_of_next_sample.push_back(std::move(entry));''','''        for (int e = 0; e < response.entries_size(); ++e) {
          parts_of_next_sample.push_back(std::move(*response.mutable_entries(e)));''')),
k('g_emplace',s('''          parts_of_next_sample.push_back(std::move(entry));''','''          parts_of_next_sample.emplace_back(std::move(entry));''')),
k('g_count_order',s('''          ++num_samples_returned;
          ++sampled;''','''          sampled++;
          num_samples_returned += 1;''')),
k('g_status_nested',s('''          if (errors::IsRateLimiterTimeout(status) &&
              queue->num_waiting_to_pop() < 1) {
            // The rate limiter timed out but no one is waiting for new data,
            // so we can exit with an OkStatus and get restarted with a new
            // stream.
            return {num_samples_returned, absl::OkStatus()};
          } else {
            return {num_samples_returned, status};
          }''','''          if (errors::IsRateLimiterTimeout(status)) {
            if (queue->num_waiting_to_pop() == 0) {
              return {num_samples_returned, absl::OkStatus()};
            }
          }
          return {num_samples_returned, status};''')),
k('g_ask_named',s('''      request.set_num_samples(
          std::min(samples_per_request_, num_samples - num_samples_returned));''','''      const int64_t remaining = num_samples - num_samples_returned;
      request.set_num_samples(
          remaining < samples_per_request_ ? remaining : samples_per_request_);''')),
k('g_final',s('''    if (num_samples_returned != num_samples) {''','''    if (num_samples_returned < num_samples || num_samples_returned > num_samples) {''')),
k('g_ok_first',s('''    if (num_samples_returned != num_samples) {
      return {num_samples_returned,
              absl::InternalError(
                  absl::StrCat("num_samples_returned != num_samples (",
                               num_samples_returned, " vs. ", num_samples))};
    }
    return {num_samples_returned, absl::OkStatus()};
  }

 private:
  // Stub''','''    if (num_samples_returned == num_samples) {
      return {num_samples_returned, absl::OkStatus()};
    }
    return {num_samples_returned,
            absl::InternalError(
                absl::StrCat("num_samples_returned != num_samples (",
                             num_samples_returned, " vs. ", num_samples))};
  }

 private:
  // Stub''')),
k('l_status_named',s('''        if (status = AsSample(item, &sample); !status.ok()) {
          return {num_samples_returned, status};
        }
''','''        auto unpacked = AsSample(item, &sample);
        if (!unpacked.ok()) return {num_samples_returned, unpacked};
''')),
k('l_pair',s('''          return {num_samples_returned,
                  absl::CancelledError("`Close` called on Sampler")};
        }
        ++num''','''          return std::make_pair(
              num_samples_returned,
              absl::CancelledError("`Close` called on Sampler"));
        }
        ++num''')),
k('l_deadline_split',s('''        if (absl::Now() < final_deadline) {
          continue;
        }
        if (queue''','''        const bool expired = absl::Now() >= final_deadline;
        if (!expired) continue;
        if (queue''')),
k('l_timeout_if',s('''      auto timeout =
          std::min(final_deadline, absl::Now() + kWakeupTimeout) - absl::Now();''','''      const auto now = absl::Now();
      auto timeout = std::min(final_deadline - now, kWakeupTimeout);''')),
k('l_index',s('''      for (const auto& item : items) {
        std::unique''','''      for (size_t i = 0; i < items.size(); ++i) {
        const auto& item = items[i];
        std::unique''')),
k('l_count_post',s('''        ++num_samples_returned;
      }
    }
''','''        num_samples_returned++;
      }
    }
''')),
k('close_exchange',s('''    if (closed_) return;
    closed_ = true;
  }

  for (auto& worker : workers_) {
    worker->Cancel();
  }
''','''    if (std::exchange(closed_, true)) return;
  }

  for (size_t i = 0; i < workers_.size(); ++i) {
    workers_[i]->Cancel();
  }
''')),
k('close_order',s('''  for (auto& worker : workers_) {
    worker->Cancel();
  }

  samples_.Close();
''','''  samples_.Close();
  for (auto& worker : workers_) {
    worker->Cancel();
  }

''')),
k('cancel_if',s('''    if (context_ != nullptr) context_->TryCancel();''','''    if (context_ == nullptr) return;
    context_->TryCancel();''')),
k('cancel_truth',s('''    if (context_ != nullptr) context_->TryCancel();''','''    if (context_) {
      context_->TryCancel();
    }''')),
k('length_named',s(OFF,'''      const int left = column_slice.tensor.dim_size(0) - column_slice.offset;
      column_length += left;''')),
k('length_diff',s('''    if (prev_column_length != -1 && prev_column_length != column_length) {
      return false;
    }
    prev_column_length = column_length;''','''    if (prev_column_length == -1) {
      prev_column_length = column_length;
    } else if (prev_column_length != column_length) {
      return false;
    }''')),
k('step_named',s('''    auto slice = col.front().tensor.SubSlice(col.front().offset++);
''','''    auto& chunk = col.front();
    auto slice = chunk.tensor.SubSlice(chunk.offset);
    ++chunk.offset;
''')),
k('step_pop_ge',s('''    if (col.front().offset == col.front().tensor.dim_size(0)) {''','''    if (col.front().offset >= col.front().tensor.dim_size(0)) {''')),
k('step_index',s('''  for (auto& col : columns_) {
    auto slice''','''  for (size_t c = 0; c < columns_.size(); ++c) {
    auto& col = columns_[c];
    auto slice''')),
k('end_loop',s('''  return std::all_of(columns_.begin(), columns_.end(),
                     [](const auto& c) { return c.empty(); });''','''  for (const auto& c : columns_) {
    if (!c.empty()) return false;
  }
  return true;''')),
k('batch_move',s('''  std::swap(sequences, *data);

  return absl::OkStatus();
}

absl::Status Sample::AsTraj''','''  *data = std::move(sequences);

  return absl::OkStatus();
}

absl::Status Sample::AsTraj''')),
k('squeeze_if',s('''    if (!squeeze_columns_[i]) continue;
    if (int''','''    const bool squeeze = squeeze_columns_[i];
    if (!squeeze) continue;
    if (int''')),
k('squeeze_ref',s('''    sequences[i + 4] = sequences[i + 4].SubSlice(0);
    if (!sequences[i + 4].IsAligned()) {
      sequences[i + 4] = tensorflow::tensor::DeepCopy(sequences[i + 4]);
    }''','''    auto& sequence = sequences[i + 4];
    sequence = sequence.SubSlice(0);
    if (!sequence.IsAligned()) {
      sequence = tensorflow::tensor::DeepCopy(sequence);
    }''')),
k('unpack_ne',s('''    if (column.size() == 1) {
      data->at(i++) = std::move(column.front().tensor);
    } else {
      std::vector''','''    if (column.size() == 1) {
      data->at(i) = std::move(column.front().tensor);
      ++i;
    } else {
      std::vector''')),
k('unpack_index',s('''  int64_t i = 4;
  for (const auto& column : columns_) {''','''  int64_t i = 4;
  for (size_t c = 0; c < columns_.size(); ++c) {
    const auto& column = columns_[c];''')),
k('make_named',s('''      info.item().key(), info.probability(), info.table_size(),''','''      /*key=*/info.item().key(), info.probability(), info.table_size(),''')),
k('make_item_ref',s('''  std::vector<bool> squeeze_columns;
  for (const auto& col : sampled_item.ref->item.flat_trajectory().columns()) {''','''  const auto& item = sampled_item.ref->item;
  std::vector<bool> squeeze_columns;
  for (const auto& col : item.flat_trajectory().columns()) {''')),
k('noop',s('''  *data = active_sample_->GetNextTimestep();
''','''  int unused = 0;
  (void)unused;
  *data = active_sample_->GetNextTimestep();
''')),
]
