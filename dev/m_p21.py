def b(n,*e): return (n,['P21'],'bad',list(e))
def k(n,*e): return (n,['P21'],'ok',list(e))
T='table.cc'; S='sampler.cc'; W='writer.cc'; TW='trajectory_writer.cc'; CH='chunker.cc'; CL='client.cc'; SI='reverb_service_impl.cc'; SA='reverb_service_async_impl.cc'; OC='ops/client.cc'; DS='ops/dataset.cc'
M=[
 b('drop-delete',(T,'      REVERB_RETURN_IF_ERROR(DeleteItem(remover_->Sample().key, &deleted_item));','      DeleteItem(remover_->Sample().key, &deleted_item).IgnoreError();')),
 b('drop-delete-void',(T,'    REVERB_RETURN_IF_ERROR(DeleteItem(item->item.key()));','    (void)DeleteItem(item->item.key());')),
 b('drop-remover-delete',(T,'  REVERB_RETURN_IF_ERROR(remover_->Delete(key));','  auto ignored = remover_->Delete(key);')),
 b('warn-only',(T,'  REVERB_RETURN_IF_ERROR(sampler_->Update(key, priority));','  if (auto s = sampler_->Update(key, priority); !s.ok()) {\n    REVERB_LOG(REVERB_WARNING) << s;\n  }')),
 b('mutate-overwrite',(T,'for (int i = 0; status.ok() && i < deletes.size(); i++) {','for (int i = 0; i < deletes.size(); i++) {')),
 b('mutate-overwrite2',(T,'for (int i = 0; status.ok() && i < updates.size(); i++) {','for (int i = 0; i < updates.size(); i++) {')),
 b('mutate-ok',(T,'''    if (worker_state_ != TableWorkerState::kRunning) {
      wakeup_worker_.Signal();
    }
  }
  return status;
}''','''    if (worker_state_ != TableWorkerState::kRunning) {
      wakeup_worker_.Signal();
    }
  }
  return absl::OkStatus();
}''')),
 b('svc-mutate',(SI,'''  if (!status.ok()) return ToGrpcStatus(status);
  return grpc::Status::OK;
}

grpc::Status ReverbServiceImpl::Reset(''','''  return grpc::Status::OK;
}

grpc::Status ReverbServiceImpl::Reset(''')),
 b('svc-insert-log',(SI,'if (auto status = table->InsertOrAssign(item); !status.ok()) {\n','if (auto status = table->InsertOrAssign(item); !status.ok() && false) {\n')),
 b('svc-push-or',(SI,'        auto status = push_or(key);\n        if (!status.ok()) return status;\n','        push_or(key);\n')),
 b('async-save-chunks',(SA,'''      if (auto status = SaveChunks(request); !status.ok()) {
        return status;
      }''','''      if (auto status = SaveChunks(request); !status.ok()) {
        REVERB_LOG(REVERB_ERROR) << FormatGrpcStatus(status);
      }''')),
 b('async-insert',(SA,'          &can_insert, continue_inserts_); !status.ok()) {\n        return ToGrpcStatus(status);','          &can_insert, continue_inserts_); !status.ok()) {\n        return grpc::Status::OK;')),
 b('sampler-as-sample',(S,'        if (status = AsSample(item, &sample); !status.ok()) {\n          return {num_samples_returned, status};\n        }','        if (status = AsSample(item, &sample); !status.ok()) {\n          continue;\n        }')),
 b('sampler-as-sample-remote',(S,'          if (!status.ok()) {\n            return {num_samples_returned, status};\n          }\n          if (!queue','          if (!status.ok()) {\n            return {num_samples_returned, absl::OkStatus()};\n          }\n          if (!queue')),
 b('sampler-unpack',(S,'      REVERB_RETURN_IF_ERROR(internal::UnpackChunkColumnAndSlice(','      (void)(internal::UnpackChunkColumnAndSlice(',1)),
 b('worker-status-lost',(S,'        worker_status_ = result.second;\n','')),
 b('worker-only-cancelled',(S,'''      if (worker_status_.ok() && !result.second.ok() &&
          !absl::IsUnavailable(result.second)) {''','''      if (worker_status_.ok() && absl::IsCancelled(result.second)) {''')),
 b('tw-run-status',(TW,'''              if (!status.ok() && !absl::IsUnavailable(status)) {
                unrecoverable_status_ = status;
                return;''','''              if (!status.ok() && !absl::IsUnavailable(status)) {
                return;''')),
 b('tw-flush-drop',(TW,'        REVERB_RETURN_IF_ERROR(ref->chunker().lock()->Flush());','        ref->chunker().lock()->Flush().IgnoreError();')),
 b('tw-endepisode',(TW,'  REVERB_RETURN_IF_ERROR(FlushLocked(0, timeout));','  auto flushed = FlushLocked(0, timeout);\n  REVERB_LOG_IF(REVERB_ERROR, !flushed.ok()) << flushed;')),
 b('tw-validate',(TW,'  REVERB_RETURN_IF_ERROR(Validate(item_and_refs));','  if (absl::IsInternal(Validate(item_and_refs))) return absl::InternalError("x");')),
 b('ch-append',(CH,'    REVERB_RETURN_IF_ERROR(FlushLocked());','    FlushLocked().IgnoreError();')),
 b('w-stop',(W,'    REVERB_RETURN_IF_ERROR(StopItemConfirmationWorker());\n    auto status = FromGrpcStatus(stream_->Finish());\n    stream_ = nullptr;\n    if (!absl::IsUnavailable(status) || !retry_on_unavailable) {\n      return status;','    REVERB_RETURN_IF_ERROR(StopItemConfirmationWorker());\n    auto status = FromGrpcStatus(stream_->Finish());\n    stream_ = nullptr;\n    if (!absl::IsUnavailable(status) || !retry_on_unavailable) {\n      return absl::OkStatus();')),
 b('w-append-seq',(W,'    REVERB_RETURN_IF_ERROR(Append(std::move(step)));','    (void)Append(std::move(step));')),
 b('w-append-finish',(W,'''              inserted_dtypes_and_shapes_[insert_dtypes_and_shapes_location_]);
  }
  return status;''','''              inserted_dtypes_and_shapes_[insert_dtypes_and_shapes_location_]);
  }
  return absl::OkStatus();''')),
 b('w-concat',(W,'    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(\n        tensorflow::tensor::Concat(tensors, &batched_tensors.back())));','    auto concat = FromTensorflowStatus(\n        tensorflow::tensor::Concat(tensors, &batched_tensors.back()));\n    REVERB_LOG_IF(REVERB_ERROR, !concat.ok()) << concat;')),
 b('cl-cache',(CL,'    REVERB_RETURN_IF_ERROR(LockedUpdateServerInfoCache(local_info));','    (void)LockedUpdateServerInfoCache(local_info);')),
 b('op-update',(OC,'    OP_REQUIRES_OK(context, ToTensorflowStatus(status));','    if (!status.ok()) REVERB_LOG(REVERB_ERROR) << status;')),
 # ---- behaviour preserving
 k('k-expand-macro',(T,'  REVERB_RETURN_IF_ERROR(sampler_->Delete(key));','  absl::Status from_sampler = sampler_->Delete(key);\n  if (!from_sampler.ok()) {\n    return from_sampler;\n  }')),
 k('k-if-init',(T,'  REVERB_RETURN_IF_ERROR(remover_->Delete(key));','  if (auto s = remover_->Delete(key); !s.ok()) return s;')),
 k('k-helper',(T,'''absl::Status Table::InsertIntoSelectors(Key key, double priority) {
  REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));''','''namespace {
absl::Status InsertInto(ItemSelector* selector, Table::Key key, double priority) {
  return selector->Insert(key, priority);
}
}  // namespace

absl::Status Table::InsertIntoSelectors(Key key, double priority) {
  REVERB_RETURN_IF_ERROR(InsertInto(sampler_.get(), key, priority));''')),
 k('k-break',(T,'''    for (int i = 0; status.ok() && i < deletes.size(); i++) {
      AwaitExtensionBufferSpace();
      status = DeleteItem(deletes[i], &deleted_items[i]);
    }''','''    for (int i = 0; i < deletes.size(); i++) {
      AwaitExtensionBufferSpace();
      status = DeleteItem(deletes[i], &deleted_items[i]);
      if (!status.ok()) break;
    }''')),
 k('k-range',(T,'''    for (int i = 0; status.ok() && i < updates.size(); i++) {
      AwaitExtensionBufferSpace();
      status = UpdateItem(updates[i].key(), updates[i].priority());
    }''','''    for (const auto& update : updates) {
      if (!status.ok()) break;
      AwaitExtensionBufferSpace();
      status = UpdateItem(update.key(), update.priority());
    }''')),
 k('k-svc-return',(SI,'''  if (!status.ok()) return ToGrpcStatus(status);
  return grpc::Status::OK;
}

grpc::Status ReverbServiceImpl::Reset(''','''  return ToGrpcStatus(status);
}

grpc::Status ReverbServiceImpl::Reset(''')),
 k('k-log-and-return',(S,'        if (status = AsSample(item, &sample); !status.ok()) {\n','        if (status = AsSample(item, &sample); !status.ok()) {\n          REVERB_LOG(REVERB_ERROR) << status;\n')),
 k('k-move',(S,'        worker_status_ = result.second;\n','        worker_status_ = std::move(result.second);\n')),
 k('k-ternary',(W,'    if (!absl::IsUnavailable(status) || !retry_on_unavailable) {\n      return status;\n    }','    const bool retry = retry_on_unavailable && absl::IsUnavailable(status);\n    if (!retry) {\n      return status;\n    }')),
 k('k-annotate',(CH,'    REVERB_RETURN_IF_ERROR(FlushLocked());','    if (auto s = FlushLocked(); !s.ok()) {\n      return absl::Status(s.code(), absl::StrCat("flush: ", s.message()));\n    }')),
 k('k-update',(T,'  REVERB_RETURN_IF_ERROR(sampler_->Delete(key));\n  REVERB_RETURN_IF_ERROR(remover_->Delete(key));','  absl::Status both = sampler_->Delete(key);\n  both.Update(remover_->Delete(key));\n  REVERB_RETURN_IF_ERROR(both);')),
]
