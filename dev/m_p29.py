P = ["P29"]
T = "reverb/cc/tensor_compression.cc"
C = "reverb/cc/chunker.cc"
W = "reverb/cc/writer.cc"
U = "reverb/cc/support/trajectory_util.cc"
ROW = "      dst(i, j) = src(i, j) + (encode ? -src(i - 1, j) : dst(i - 1, j));\n"
LOOPS = """  for (int j = 0; j < src.dimension(1); j++) {
    dst(0, j) = src(0, j);
  }
  for (int i = 1; i < src.dimension(0); i++) {
    for (int j = 0; j < src.dimension(1); j++) {
      dst(i, j) = src(i, j) + (encode ? -src(i - 1, j) : dst(i - 1, j));
    }
  }
"""
ENC = """  if (options_->GetDeltaEncode()) {
    batched = DeltaEncode(batched, /*encode=*/true);
    chunk->set_delta_encoded(true);
  }
"""
WENC = """  if (delta_encoded_) {
    batched_tensors = DeltaEncodeList(batched_tensors, true);
    chunk_data.set_delta_encoded(true);
  }
"""
DEC = """  if (chunk_data.delta_encoded()) {
    *out = DeltaEncode(*out, /*encode=*/false);
  }
"""
CHK = """  if (offset < 0 || length < 0 ||
      offset > out->shape().dim_size(0) - length) {
"""
M = [
 ("row-wrong-src", P, "bad", [(T, ROW, ROW.replace("dst(i - 1, j)", "src(i - 1, j)"))]),
 ("row-enc-dst", P, "bad", [(T, ROW, ROW.replace("-src(i - 1, j)", "-dst(i - 1, j)"))]),
 ("row-sign", P, "bad", [(T, ROW, ROW.replace("-src(i - 1, j)", "src(i - 1, j)"))]),
 ("row-col", P, "bad", [(T, ROW, ROW.replace("dst(i - 1, j)", "dst(i, j - 1)"))]),
 ("row-zero", P, "bad", [(T, ROW, ROW.replace("dst(i - 1, j)", "dst(0, j)"))]),
 ("loop-start", P, "bad", [(T, "for (int i = 1;", "for (int i = 2;")]),
 ("loop-start-j", P, "bad", [(T, "    for (int j = 0;", "    for (int j = 1;")]),
 ("loop-end", P, "bad", [(T, "i < src.dimension(0);", "i < src.dimension(0) - 1;")]),
 ("loop-dim", P, "bad", [(T, "    for (int j = 0; j < src.dimension(1);", "    for (int j = 0; j < src.dimension(0);")]),
 ("no-first", P, "bad", [(T, "    dst(0, j) = src(0, j);\n", "")]),
 ("return-reinterpret", P, "bad", [(T, "  return output;\n", "  return tensor_reinterpret;\n")]),
 ("inner", P, "bad", [(T, "  auto dst = output_reinterpret.flat_outer_dims<T>();", "  auto dst = output_reinterpret.flat_inner_dims<T>();")]),
 ("onesided", P, "bad", [(T, "  if (tensor.dims() < 2) return tensor;", "  if (tensor.dims() < 2 || (!encode && tensor.dim_size(0) < 3)) return tensor;")]),
 ("swap-dir", P, "bad", [(T, "return DeltaEncode<UnsignedType<T>::Type>(tensor, encode);", "return DeltaEncode<UnsignedType<T>::Type>(tensor, true);")]),
 ("list-dir", P, "bad", [(T, "outputs.push_back(DeltaEncode(tensor, encode));", "outputs.push_back(DeltaEncode(tensor, true));")]),
 ("list-some", P, "bad", [(T, "    outputs.push_back(DeltaEncode(tensor, encode));", "    if (tensor.dims() > 1) outputs.push_back(DeltaEncode(tensor, encode));")]),
 ("enc-noflag", P, "bad", [(C, "    chunk->set_delta_encoded(true);\n", "")]),
 ("enc-flagonly", P, "bad", [(C, "    batched = DeltaEncode(batched, /*encode=*/true);\n", "")]),
 ("enc-dims", P, "bad", [(C, "    batched = DeltaEncode(batched, /*encode=*/true);\n", "    if (buffer_.size() > 1) batched = DeltaEncode(batched, /*encode=*/true);\n")]),
 ("enc-never", P, "bad", [(C, ENC, "")]),
 ("enc-false", P, "bad", [(C, "DeltaEncode(batched, /*encode=*/true)", "DeltaEncode(batched, /*encode=*/false)")]),
 ("enc-flag-late", P, "bad", [(C, ENC, ENC.replace("    chunk->set_delta_encoded(true);\n", "    if (next_chunk_key_ % 2) chunk->set_delta_encoded(true);\n"))]),
 ("w-noflag", P, "bad", [(W, "    chunk_data.set_delta_encoded(true);\n", "")]),
 ("w-always", P, "bad", [(W, WENC, "  chunk_data.set_delta_encoded(true);\n  if (delta_encoded_) batched_tensors = DeltaEncodeList(batched_tensors, true);\n")]),
 ("w-some", P, "bad", [(W, "    CompressTensorAsProto(tensor, chunk_data.mutable_data()->add_tensors());", "    CompressTensorAsProto(delta_encoded_ ? DeltaEncode(tensor, true) : tensor, chunk_data.mutable_data()->add_tensors());")]),
 ("dec-never", P, "bad", [(U, DEC, "")]),
 ("dec-always", P, "bad", [(U, DEC, "  *out = DeltaEncode(*out, false);\n")]),
 ("dec-neg", P, "bad", [(U, "if (chunk_data.delta_encoded())", "if (!chunk_data.delta_encoded())")]),
 ("dec-true", P, "bad", [(U, "DeltaEncode(*out, /*encode=*/false)", "DeltaEncode(*out, /*encode=*/true)")]),
 ("dec-first", P, "bad", [(U, "tensors(column)", "tensors(0)"), (U, "column >= chunk_data.data().tensors_size() || column < 0", "column < 0")]),
 ("dec-len", P, "bad", [(U, "if (chunk_data.delta_encoded())", "if (chunk_data.delta_encoded() && out->dim_size(0) > 2)")]),
 ("col-check", P, "bad", [(U, "column >= chunk_data.data().tensors_size() || column < 0", "column > chunk_data.data().tensors_size() || column < 0")]),
 ("col-neg", P, "bad", [(U, "column >= chunk_data.data().tensors_size() || column < 0", "column >= chunk_data.data().tensors_size()")]),
 ("sl-neg", P, "bad", [(U, CHK, CHK.replace("offset < 0 || ", ""))]),
 ("sl-len", P, "bad", [(U, CHK, CHK.replace("length < 0 ||", ""))]),
 ("sl-over", P, "bad", [(U, "offset > out->shape().dim_size(0) - length", "offset > out->shape().dim_size(0)")]),
 ("sl-end", P, "bad", [(U, "out->Slice(offset, offset + length)", "out->Slice(offset, length)")]),
 ("sl-one", P, "bad", [(U, "out->Slice(offset, offset + length)", "out->Slice(offset, std::max(offset + 1, offset + length))")]),
 ("sl-skip", P, "bad", [(U, "  *out = out->Slice(offset, offset + length);", "  if (offset > 0) *out = out->Slice(offset, offset + length);")]),
 ("sl-swap", P, "bad", [(U, "slice.index(), slice.offset(),\n                                   slice.length()", "slice.index(), slice.length(),\n                                   slice.offset()")]),
 ("cmp-cond", P, "bad", [(T, "  if (tensor.dtype() == tensorflow::DT_STRING) {\n    tensor.As", "  if (tensor.dtype() == tensorflow::DT_STRING || tensor.NumElements() == 0) {\n    tensor.As")]),
 ("cmp-dtype", P, "bad", [(T, "    proto->set_dtype(tensor.dtype());\n", "")]),
 ("dec-cond", P, "bad", [(T, "  if (proto.dtype() == tensorflow::DT_STRING) {", "  if (proto.dtype() != tensorflow::DT_STRING) {")]),
 ("clone-delta", P, "bad", [(C, "      num_keep_alive_refs_, throughput_weight_, delta_encode_);", "      num_keep_alive_refs_, throughput_weight_);")]),
 ("clone-swap", P, "bad", [(C, "      max_chunk_length_, num_keep_alive_refs_, delta_encode_);", "      num_keep_alive_refs_, max_chunk_length_, delta_encode_);")]),

 ("ok-row-branch", P, "ok", [(T, ROW, "      if (encode) {\n        dst(i, j) = src(i, j) - src(i - 1, j);\n      } else {\n        dst(i, j) = src(i, j) + dst(i - 1, j);\n      }\n")]),
 ("ok-row-prev", P, "ok", [(T, ROW, "      const T prev = encode ? -src(i - 1, j) : dst(i - 1, j);\n      dst(i, j) = prev + src(i, j);\n")]),
 ("ok-loops-cached", P, "ok", [(T, LOOPS, """  const int rows = src.dimension(0);
  const int cols = src.dimension(1);
  for (int j = 0; j < cols; ++j) dst(0, j) = src(0, j);
  int i = 1;
  while (i < rows) {
    for (int j = 0; j != cols; ++j) {
      dst(i, j) = src(i, j) + (encode ? -src(i - 1, j) : dst(i - 1, j));
    }
    ++i;
  }
""")]),
 ("ok-loops-merged", P, "ok", [(T, LOOPS, """  for (int i = 0; i < src.dimension(0); i++) {
    for (int j = 0; j < src.dimension(1); j++) {
      if (i == 0) {
        dst(i, j) = src(i, j);
      } else {
        dst(i, j) = src(i, j) + (encode ? -src(i - 1, j) : dst(i - 1, j));
      }
    }
  }
""")]),
 ("ok-loops-colmajor", P, "ok", [(T, LOOPS, """  for (int j = 0; j < src.dimension(1); j++) {
    dst(0, j) = src(0, j);
    for (int i = 1; i < src.dimension(0); i++) {
      dst(i, j) = src(i, j) + (encode ? -src(i - 1, j) : dst(i - 1, j));
    }
  }
""")]),
 ("ok-split", P, "ok", [(T, LOOPS, """  for (int j = 0; j < src.dimension(1); j++) dst(0, j) = src(0, j);
  if (encode) {
    for (int i = 1; i <= src.dimension(0) - 1; i++)
      for (int j = 0; j < src.dimension(1); j++) dst(i, j) = src(i, j) - src(i - 1, j);
  } else {
    for (int i = 1; i < src.dimension(0); i++)
      for (int j = 0; j < src.dimension(1); j++) dst(i, j) = dst(i - 1, j) + src(i, j);
  }
""")]),
 ("ok-enc-local", P, "ok", [(C, ENC, "  const bool delta = options_->GetDeltaEncode();\n  if (delta) batched = DeltaEncode(batched, true);\n  chunk->set_delta_encoded(delta);\n")]),
 ("ok-enc-else", P, "ok", [(C, ENC, "  tensorflow::Tensor encoded = batched;\n  if (options_->GetDeltaEncode()) {\n    chunk->set_delta_encoded(true);\n    encoded = DeltaEncode(batched, true);\n  }\n"), (C, "CompressTensorAsProto(batched,", "CompressTensorAsProto(encoded,")]),
 ("ok-w-each", P, "ok", [(W, WENC, "  chunk_data.set_delta_encoded(delta_encoded_);\n"), (W, "    CompressTensorAsProto(tensor, chunk_data.mutable_data()->add_tensors());", "    CompressTensorAsProto(delta_encoded_ ? DeltaEncode(tensor, true) : tensor, chunk_data.mutable_data()->add_tensors());")]),
 ("ok-w-index", P, "ok", [(W, "  for (const auto& tensor : batched_tensors) {\n    CompressTensorAsProto(tensor, ", "  for (size_t k = 0; k < batched_tensors.size(); ++k) {\n    CompressTensorAsProto(batched_tensors[k], ")]),
 ("ok-dec-cond", P, "ok", [(U, "  *out = DecompressTensorFromProto(chunk_data.data().tensors(column));\n" + DEC, "  tensorflow::Tensor tensor = DecompressTensorFromProto(chunk_data.data().tensors(column));\n  if (chunk_data.delta_encoded()) tensor = DeltaEncode(tensor, false);\n  *out = std::move(tensor);\n")]),
 ("ok-dec-tern", P, "ok", [(U, "  *out = DecompressTensorFromProto(chunk_data.data().tensors(column));\n" + DEC, "  auto tensor = DecompressTensorFromProto(chunk_data.data().tensors(column));\n  *out = chunk_data.delta_encoded() ? DeltaEncode(tensor, false) : tensor;\n")]),
 ("ok-dec-neg", P, "ok", [(U, DEC, "  if (!chunk_data.delta_encoded()) return absl::OkStatus();\n  *out = DeltaEncode(*out, false);\n")]),
 ("ok-col", P, "ok", [(U, "column >= chunk_data.data().tensors_size() || column < 0", "!(0 <= column && column < chunk_data.data().tensors_size())")]),
 ("ok-sl", P, "ok", [(U, CHK, "  const int rows = out->dim_size(0);\n  if (length < 0 || offset < 0 || length > rows - offset) {\n")]),
 ("ok-sl-end", P, "ok", [(U, "  *out = out->Slice(offset, offset + length);", "  const int end = length + offset;\n  *out = out->Slice(offset, end);")]),
 ("ok-sl-full", P, "ok", [(U, "  *out = out->Slice(offset, offset + length);", "  if (offset != 0 || length != out->dim_size(0)) {\n    *out = out->Slice(offset, offset + length);\n  }")]),
 ("ok-fwd", P, "ok", [(U, "  return UnpackChunkColumnAndSlice(chunk_data, slice.index(), slice.offset(),\n                                   slice.length(), out);", "  const int offset = slice.offset();\n  const int length = slice.length();\n  return UnpackChunkColumnAndSlice(chunk_data, slice.index(), offset, length, out);")]),
 ("ok-list", P, "ok", [(T, "  std::vector<tensorflow::Tensor> outputs;\n  outputs.reserve(tensors.size());\n  for (const tensorflow::Tensor& tensor : tensors) {\n    outputs.push_back(DeltaEncode(tensor, encode));\n  }\n", "  std::vector<tensorflow::Tensor> outputs;\n  for (size_t i = 0; i < tensors.size(); ++i) {\n    outputs.emplace_back(DeltaEncode(tensors[i], encode));\n  }\n")]),
 ("ok-cmp-inv", P, "ok", [(T, """  if (tensor.dtype() == tensorflow::DT_STRING) {
    tensor.AsProtoTensorContent(proto);
  } else {
    proto->set_dtype(tensor.dtype());
    tensor.shape().AsProto(proto->mutable_tensor_shape());
    SnappyCompressFromString(tensor.tensor_data(),
                             proto->mutable_tensor_content());
  }
""", """  if (tensor.dtype() != tensorflow::DT_STRING) {
    tensor.shape().AsProto(proto->mutable_tensor_shape());
    proto->set_dtype(tensor.dtype());
    SnappyCompressFromString(tensor.tensor_data(),
                             proto->mutable_tensor_content());
    return;
  }
  tensor.AsProtoTensorContent(proto);
""")]),
 ("ok-dec-local", P, "ok", [(T, "    REVERB_CHECK(SnappyUncompressToString(\n        tensor_content, tensor.tensor_data().size(),\n        const_cast<char*>(tensor.tensor_data().data())));", "    auto data = tensor.tensor_data();\n    char* begin = const_cast<char*>(data.data());\n    const bool ok = SnappyUncompressToString(tensor_content, data.size(), begin);\n    REVERB_CHECK(ok);")]),
 ("ok-clone", P, "ok", [(C, "      num_keep_alive_refs_, throughput_weight_, delta_encode_);", "      GetNumKeepAliveRefs(), throughput_weight_, GetDeltaEncode());")]),
 ("ok-w-helper", P, "ok", [(W, WENC, "  chunk_data.set_delta_encoded(delta_encoded_);\n  auto maybe_encode = [this](std::vector<tensorflow::Tensor> tensors) {\n    return delta_encoded_ ? DeltaEncodeList(tensors, true) : tensors;\n  };\n  batched_tensors = maybe_encode(std::move(batched_tensors));\n")]),
]
