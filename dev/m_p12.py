def b(n,*e): return (n,['P12'],'bad',list(e))
def k(n,*e): return (n,['P12'],'ok',list(e))
C='platform/tfrecord_checkpointer.cc'
S='reverb_service_impl.cc'; A='reverb_service_async_impl.cc'
HD='''  if (!HasDone(std::string(path))) {
    return absl::InvalidArgumentError(absl::StrCat(
        "Load called with invalid checkpoint path: ", std::string(path)));
  }
'''
OOR='''    if (!absl::IsOutOfRange(chunk_status)) {
      return chunk_status;
    }
'''
TOOR='''  if (!absl::IsOutOfRange(table_status)) {
    return table_status;
  }
  return absl::OkStatus();
}

absl::Status TFRecordCheckpointer::LoadLatest('''
PARSE='''      if (!chunk_data.ParseFromArray(chunk_record.data(),
                                     chunk_record.size())) {
        return absl::DataLossError(
            absl::StrCat("Could not parse TFRecord as ChunkData: '",
                         absl::string_view(chunk_record), "'"));
      }
'''
LL='''  std::sort(filenames.begin(), filenames.end());
  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    if (HasDone(*it)) {
      return Load(
          tensorflow::io::JoinPath(root_dir_, tensorflow::io::Basename(*it)),
          chunk_store, tables);
    }
  }
'''
M=[
b('nodone',(C,HD,"")),
b('done-log',(C,HD,'  if (!HasDone(std::string(path))) {\n    REVERB_LOG(REVERB_WARNING) << "incomplete";\n  }\n')),
b('no-oor',(C,OOR,"")),
b('oor-dataloss',(C,OOR,'''    if (!absl::IsOutOfRange(chunk_status) && !absl::IsDataLoss(chunk_status)) {
      return chunk_status;
    }
''')),
b('table-no-oor',(C,TOOR,"  return absl::OkStatus();\n}\n\nabsl::Status TFRecordCheckpointer::LoadLatest(")),
b('parse-continue',(C,PARSE,'''      if (!chunk_data.ParseFromArray(chunk_record.data(),
                                     chunk_record.size())) {
        continue;
      }
''')),
b('parse-unchecked',(C,PARSE,"      chunk_data.ParseFromArray(chunk_record.data(), chunk_record.size());\n")),
b('parse-break',(C,PARSE,'''      if (!chunk_data.ParseFromArray(chunk_record.data(),
                                     chunk_record.size())) {
        break;
      }
''')),
b('open-swallow',(C,"  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(\n      tensorflow::Env::Default()->NewRandomAccessFile(path, &file)));","  if (!tensorflow::Env::Default()->NewRandomAccessFile(path, &file).ok()) return absl::OkStatus();")),
b('first-only',(C,"      chunk_by_key[chunk_data.chunk_key()] = chunk_store->Insert(chunk_data);\n    } while (chunk_status.ok());","      chunk_by_key[chunk_data.chunk_key()] = chunk_store->Insert(chunk_data);\n    } while (false);")),
b('swap-files',(C,'constexpr char kDoneFileName[] = "DONE";','constexpr char kDoneFileName[] = "DONE";\nconstexpr char kOther[] = "chunks.tfrecord2";'),(C,"tensorflow::io::JoinPath(std::string(path), kChunksFileName)","tensorflow::io::JoinPath(std::string(path), kOther)")),
b('latest-nodone',(C,LL,'''  std::sort(filenames.begin(), filenames.end());
  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    {
      return Load(
          tensorflow::io::JoinPath(root_dir_, tensorflow::io::Basename(*it)),
          chunk_store, tables);
    }
  }
''')),
b('latest-oldest',(C,LL,LL.replace("filenames.rbegin(); it != filenames.rend()","filenames.begin(); it != filenames.end()"))),
b('latest-nosort',(C,LL,LL.replace("  std::sort(filenames.begin(), filenames.end());\n",""))),
b('latest-retry',(C,LL,'''  std::sort(filenames.begin(), filenames.end());
  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    if (HasDone(*it) && Load(
          tensorflow::io::JoinPath(root_dir_, tensorflow::io::Basename(*it)),
          chunk_store, tables).ok()) {
      return absl::OkStatus();
    }
  }
''')),
b('latest-ok',(C,'''  return absl::NotFoundError(
      absl::StrCat("No checkpoint found in ", root_dir_));''','''  return absl::OkStatus();''')),
b('latest-last',(C,LL,'''  std::sort(filenames.begin(), filenames.end());
  if (!filenames.empty() && HasDone(filenames.back())) {
    return Load(filenames.front(), chunk_store, tables);
  }
''')),
b('fallback-nodone',(C,"  if (HasDone(fallback_checkpoint_path_.value())) {","  {")),
b('fallback-any',(S,"    if (absl::IsNotFound(status)) {","    if (!status.ok()) {")),
b('fallback-any-async',(A,"    if (absl::IsNotFound(status)) {","    if (!status.ok()) {")),
b('fallback-never',(S,"      status = checkpointer_->LoadFallbackCheckpoint(&chunk_store_, &tables);\n","")),
b('ignore-err',(S,"    if (!status.ok() && !absl::IsNotFound(status)) {\n      return status;\n    }\n","    if (!status.ok() && !absl::IsNotFound(status)) {\n      REVERB_LOG(REVERB_ERROR) << status;\n    }\n")),
b('ignore-dataloss',(A,"    if (!status.ok() && !absl::IsNotFound(status)) {","    if (!status.ok() && !absl::IsNotFound(status) && !absl::IsDataLoss(status)) {")),
b('fallback-swallow',(A,"      status = checkpointer_->LoadFallbackCheckpoint(&chunk_store_, &tables);","      checkpointer_->LoadFallbackCheckpoint(&chunk_store_, &tables).IgnoreError();")),
b('fallback-alt',(S,"      status = checkpointer_->LoadFallbackCheckpoint(&chunk_store_, &tables);","      auto s = checkpointer_->LoadFallbackCheckpoint(&chunk_store_, &tables);\n      if (s.ok()) status = s;")),
k('latest-path',(C,LL,'''  std::sort(filenames.begin(), filenames.end());
  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
    if (!HasDone(*it)) continue;
    return Load(*it, chunk_store, tables);
  }
''')),
k('latest-local',(C,LL,'''  std::sort(filenames.begin(), filenames.end(), std::greater<std::string>());
  for (const auto& name : filenames) {
    const bool complete = HasDone(name);
    if (complete) {
      absl::Status status = Load(name, chunk_store, tables);
      return status;
    }
  }
''')),
k('latest-helper',(C,"absl::Status TFRecordCheckpointer::LoadLatest(",'''std::string FindComplete(const std::vector<std::string>& sorted) {
  for (auto it = sorted.rbegin(); it != sorted.rend(); it++) {
    if (HasDone(*it)) return *it;
  }
  return "";
}

absl::Status TFRecordCheckpointer::LoadLatest('''),) if 0 else k('while-loop',(C,'''    do {
      chunk_status = FromTensorflowStatus(
          chunk_reader->ReadRecord(&chunk_offset, &chunk_record));
      if (!chunk_status.ok()) break;
''','''    while (true) {
      chunk_status = FromTensorflowStatus(
          chunk_reader->ReadRecord(&chunk_offset, &chunk_record));
      if (!chunk_status.ok()) break;
'''),(C,"    } while (chunk_status.ok());\n","    }\n")),
k('init-else',(S,'''    if (!status.ok() && !absl::IsNotFound(status)) {
      return status;
    }
''','''    if (!status.ok()) {
      if (!absl::IsNotFound(status)) return status;
    }
''')),
k('init-code',(A,"    if (absl::IsNotFound(status)) {","    if (status.code() == absl::StatusCode::kNotFound) {")),
k('init-helper',(S,'''    auto status = checkpointer_->LoadLatest(&chunk_store_, &tables);
    if (absl::IsNotFound(status)) {''','''    auto load = [&] { return checkpointer_->LoadLatest(&chunk_store_, &tables); };
    auto status = load();
    if (absl::IsNotFound(status)) {''')),
k('done-local',(C,HD,'''  const std::string dir(path);
  const bool has_done = HasDone(dir);
  if (!has_done) {
    return absl::InvalidArgumentError(absl::StrCat(
        "Load called with invalid checkpoint path: ", dir));
  }
''')),
k('parse-string',(C,PARSE,'''      const bool parsed = chunk_data.ParseFromArray(chunk_record.data(), chunk_record.size());
      if (!parsed) {
        return absl::DataLossError("Could not parse TFRecord as ChunkData");
      }
''')),
k('read-helper',(C,"absl::Status TFRecordCheckpointer::Load(",'''absl::Status ReadOne(tensorflow::io::RecordReader* reader,
                     tensorflow::uint64* offset, tensorflow::tstring* record) {
  return FromTensorflowStatus(reader->ReadRecord(offset, record));
}

absl::Status TFRecordCheckpointer::Load('''),(C,'''      chunk_status = FromTensorflowStatus(
          chunk_reader->ReadRecord(&chunk_offset, &chunk_record));''','''      chunk_status = ReadOne(chunk_reader.get(), &chunk_offset, &chunk_record);''')),
k('fb-local',(C,'''  if (HasDone(fallback_checkpoint_path_.value())) {
    return Load(fallback_checkpoint_path_.value(), chunk_store, tables);
  }
''','''  const std::string& fallback = fallback_checkpoint_path_.value();
  if (HasDone(fallback)) {
    return Load(fallback, chunk_store, tables);
  }
''')),
]
