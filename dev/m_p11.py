def b(n,*e): return (n,['P11'],'bad',list(e))
def k(n,*e): return (n,['P11'],'ok',list(e))
C='platform/tfrecord_checkpointer.cc'
S='reverb_service_impl.cc'; A='reverb_service_async_impl.cc'
DONE="  REVERB_RETURN_IF_ERROR(WriteDone(dir_path));\n"
LOOP='''  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    if (history_counter < keep_latest) {
      if (HasDone(*it)) ++history_counter;
    } else {
'''
CH='''  for (const auto& chunk : chunks) {
    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
        chunk_writer->WriteRecord(chunk->data().SerializeAsString())));
  }
'''
CC="  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(chunk_writer->Close()));\n"
TL='''  for (Table* table : tables) {
    auto checkpoint = table->Checkpoint();
    chunks.merge(checkpoint.chunks);
    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
        table_writer->WriteRecord(checkpoint.checkpoint.SerializeAsString())));
  }
'''
M=[
b('done-early',(C,DONE,""),(C,CH,DONE+CH)),
b('done-before-close',(C,DONE,""),(C,CC,DONE+CC)),
b('no-close-chunks',(C,CC,"")),
b('no-close-tables',(C,"  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(table_writer->Close()));\n","")),
b('close-ignored',(C,CC,"  chunk_writer->Close().IgnoreError();\n")),
b('write-ignored',(C,CH,'''  for (const auto& chunk : chunks) {
    auto s = FromTensorflowStatus(
        chunk_writer->WriteRecord(chunk->data().SerializeAsString()));
    if (!s.ok()) REVERB_LOG(REVERB_ERROR) << s;
  }
''')),
b('write-break',(C,CH,'''  for (const auto& chunk : chunks) {
    auto s = FromTensorflowStatus(
        chunk_writer->WriteRecord(chunk->data().SerializeAsString()));
    if (!s.ok()) break;
  }
''')),
b('chunk-skip',(C,CH,'''  for (const auto& chunk : chunks) {
    if (chunk->data().data().tensors().empty()) continue;
    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
        chunk_writer->WriteRecord(chunk->data().SerializeAsString())));
  }
''')),
b('table-skip',(C,"    chunks.merge(checkpoint.chunks);\n","    if (checkpoint.chunks.empty()) continue;\n    chunks.merge(checkpoint.chunks);\n")),
b('no-merge',(C,"    chunks.merge(checkpoint.chunks);\n","")),
b('merge-first-only',(C,"    chunks.merge(checkpoint.chunks);\n","    if (chunks.empty()) chunks.merge(checkpoint.chunks);\n")),
b('last-write-wins',(C,CH+CC,'''  absl::Status status;
  for (const auto& chunk : chunks) {
    status = FromTensorflowStatus(
        chunk_writer->WriteRecord(chunk->data().SerializeAsString()));
  }
  REVERB_RETURN_IF_ERROR(status);
'''+CC)),
b('done-unchecked',(C,DONE,"  WriteDone(dir_path).IgnoreError();\n")),
b('done-noclose',(C,"  return FromTensorflowStatus(file->Close());","  file->Close().IgnoreError();\n  return absl::OkStatus();")),
b('delete-first',(C,DONE,""),(C,"  *path = std::move(dir_path);",DONE+"  *path = std::move(dir_path);")),
b('keep-ge',(C,LOOP,'''  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    if (++history_counter < keep_latest) {
    } else {
''')),
b('keep-off',(C,"if (history_counter < keep_latest) {","if (history_counter + 1 < keep_latest) {")),
b('old-defect',(C,LOOP,'''  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    if (++history_counter > keep_latest) {
''')),
b('forward',(C,"auto it = filenames.rbegin(); it != filenames.rend(); it++","auto it = filenames.begin(); it != filenames.end(); it++")),
b('nosort',(C,'''          tensorflow::io::JoinPath(root_dir_, "*"), &filenames)));
  std::sort(filenames.begin(), filenames.end());
  // Only''','''          tensorflow::io::JoinPath(root_dir_, "*"), &filenames)));
  // Only''') ),
b('keep-unchecked',(C,"  if (keep_latest <= 0) {","  if (keep_latest < 0) {")),
b('path-root',(C,"  *path = std::move(dir_path);","  *path = root_dir_;")),
b('nopath',(C,"  *path = std::move(dir_path);\n","")),
b('chunks-elsewhere',(C,"tensorflow::io::JoinPath(dir_path, kChunksFileName), &chunk_writer","tensorflow::io::JoinPath(root_dir_, kChunksFileName), &chunk_writer")),
b('done-elsewhere',(C,DONE,"  REVERB_RETURN_IF_ERROR(WriteDone(root_dir_));\n")),
b('rpc-sync-ok',(S,"  if (!status.ok()) return ToGrpcStatus(status);\n","  if (!status.ok()) REVERB_LOG(REVERB_ERROR) << status;\n")),
b('rpc-async-ok',(A,"  reactor->Finish(ToGrpcStatus(status));\n  REVERB_LOG_IF(REVERB_INFO, status.ok())","  reactor->Finish(grpc::Status::OK);\n  REVERB_LOG_IF(REVERB_INFO, status.ok())")),
b('rpc-null',(S,'''  if (checkpointer_ == nullptr) {
    return grpc::Status(grpc::StatusCode::INVALID_ARGUMENT,
                        "no Checkpointer configured for the replay service.");
  }
''',"")),
b('open-swallow',(C,"  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(\n      tensorflow::Env::Default()->NewWritableFile(path, &file)));","  tensorflow::Env::Default()->NewWritableFile(path, &file).IgnoreError();")),
k('helper',(C,"absl::Status TFRecordCheckpointer::Save(",'''template <typename W>
absl::Status WriteProto(W& writer, const google::protobuf::MessageLite& m) {
  return FromTensorflowStatus(writer->WriteRecord(m.SerializeAsString()));
}

absl::Status TFRecordCheckpointer::Save('''),(C,'''    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
        chunk_writer->WriteRecord(chunk->data().SerializeAsString())));''','''    REVERB_RETURN_IF_ERROR(WriteProto(chunk_writer, chunk->data()));''')),
k('explicit-if',(C,CC,'''  if (auto s = FromTensorflowStatus(chunk_writer->Close()); !s.ok()) {
    return s;
  }
''')),
k('insert-range',(C,"    chunks.merge(checkpoint.chunks);\n","    chunks.insert(checkpoint.chunks.begin(), checkpoint.chunks.end());\n")),
k('index-loop',(C,TL,'''  for (size_t i = 0; i < tables.size(); ++i) {
    auto checkpoint = tables[i]->Checkpoint();
    chunks.merge(checkpoint.chunks);
    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
        table_writer->WriteRecord(checkpoint.checkpoint.SerializeAsString())));
  }
''')),
k('iter-loop',(C,CH,'''  for (auto it = chunks.begin(); it != chunks.end(); ++it) {
    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
        chunk_writer->WriteRecord((*it)->data().SerializeAsString())));
  }
''')),
k('countdown',(C,"  int history_counter = 0;\n","  int remaining = keep_latest;\n"),(C,"if (history_counter < keep_latest) {\n      if (HasDone(*it)) ++history_counter;","if (remaining > 0) {\n      if (HasDone(*it)) --remaining;")),
k('continue',(C,LOOP,'''  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    if (history_counter < keep_latest) {
      if (HasDone(*it)) ++history_counter;
      continue;
    }
    {
''')),
k('postinc',(C,"++history_counter;","history_counter++;")),
k('preinc-loop',(C,"filenames.rend(); it++","filenames.rend(); ++it")),
k('swap-order',(C,LOOP,'''  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    if (!(history_counter >= keep_latest)) {
      if (HasDone(*it)) history_counter += 1;
    } else {
''')),
k('sort-desc',(C,"auto it = filenames.rbegin(); it != filenames.rend(); it++","auto it = filenames.begin(); it != filenames.end(); it++"),(C,'''  std::sort(filenames.begin(), filenames.end());
  // Only''','''  std::sort(filenames.begin(), filenames.end(), std::greater<std::string>());
  // Only''')),
k('path-early',(C,"  *path = std::move(dir_path);\n",""),(C,"  // Delete the older checkpoints.\n","  *path = dir_path;\n  // Delete the older checkpoints.\n")),
k('cleanup-own',(C,DONE,'''  if (auto s = WriteDone(dir_path); !s.ok()) {
    tensorflow::int64 undeleted_files;
    tensorflow::int64 undeleted_dirs;
    tensorflow::Env::Default()->DeleteRecursively(dir_path, &undeleted_files, &undeleted_dirs).IgnoreError();
    return s;
  }
''')),
k('rpc-sync-tern',(S,"  if (!status.ok()) return ToGrpcStatus(status);\n","  if (!status.ok()) {\n    REVERB_LOG(REVERB_ERROR) << status;\n    return ToGrpcStatus(status);\n  }\n")),
k('cleanup-helper',(C,"inline bool HasDone(",'''inline absl::Status RemoveDir(const std::string& dir) {
  tensorflow::int64 undeleted_files;
  tensorflow::int64 undeleted_dirs;
  return FromTensorflowStatus(tensorflow::Env::Default()->DeleteRecursively(
      dir, &undeleted_files, &undeleted_dirs));
}

inline bool HasDone('''),(C,'''      tensorflow::int64 undeleted_files;
      tensorflow::int64 undeleted_dirs;
      REVERB_RETURN_IF_ERROR(
          FromTensorflowStatus(tensorflow::Env::Default()->DeleteRecursively(
              *it, &undeleted_files, &undeleted_dirs)));''','''      REVERB_RETURN_IF_ERROR(RemoveDir(*it));''')),
]
