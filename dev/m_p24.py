def b(n,*e): return (n,['P24'],'bad',list(e))
def k(n,*e): return (n,['P24'],'ok',list(e))
T='trajectory_writer.cc'; H='trajectory_writer.h'; W='writer.cc'; C='client.cc'
NF='''  if (it == signature_map.end()) {
    return absl::InvalidArgumentError('''
CMP='''    if (want.dtype != got.dtype || !want.shape.IsCompatibleWith(got.shape)) {'''
VAL='''    if (absl::Status status = trajectory[col_idx].Validate(); !status.ok()) {
      return absl::InvalidArgumentError(
          absl::StrCat("Error in column ", col_idx, ": ", status.message()));
    }
'''
LOCK='''    if (!trajectory[col_idx].LockReferences(&item_and_refs.refs)) {
      return absl::InternalError("CellRef unexpectedly expired in CreateItem.");
    }
'''
CV='''  REVERB_RETURN_IF_ERROR(Validate(item_and_refs));

  {
    absl::MutexLock lock(&mu_);
    write_queue_.push_back(std::move(item_and_refs));
  }
'''
SZ='''  if (table_signature.size() != trajectory_signature.size()) {'''
INS='''    if (!col.squeeze()) {
      spec.shape.InsertDim(0, internal::ColumnLength(trajectory, col_idx));
    }
'''
WCMP='''        if (seen_dtype_and_shape.dtype != signature_dtype_and_shape.dtype ||
            !signature_dtype_and_shape.shape.IsCompatibleWith(
                seen_dtype_and_shape.shape)) {'''
M=[
 b('t-novalidate',(T,'''  REVERB_RETURN_IF_ERROR(Validate(item_and_refs));

''','')),
 b('t-after',(T,CV,'''  {
    absl::MutexLock lock(&mu_);
    write_queue_.push_back(item_and_refs);
  }
  REVERB_RETURN_IF_ERROR(Validate(item_and_refs));
''')),
 b('t-notfound-ok',(T,NF,'''  if (it == signature_map.end()) return absl::OkStatus();
'''+NF)),
 b('t-dtype-only',(T,CMP,'''    if (want.dtype != got.dtype) {''')),
 b('t-shape-only',(T,CMP,'''    if (!want.shape.IsCompatibleWith(got.shape)) {''')),
 b('t-and',(T,CMP,'''    if (want.dtype != got.dtype && !want.shape.IsCompatibleWith(got.shape)) {''')),
 b('t-size-less',(T,SZ,'''  if (table_signature.size() < trajectory_signature.size()) {''')),
 b('t-nosize',(T,SZ,'''  if (trajectory_signature.empty()) {''')),
 b('t-from1',(T,'''  for (int i = 0; i < table_signature.size(); i++) {''','''  for (int i = 1; i < table_signature.size(); i++) {''')),
 b('t-wrongidx',(T,'''got = trajectory_signature[i];''','''got = trajectory_signature[0];''')),
 b('t-nocolvalidate',(T,VAL,'')),
 b('t-colvalidate-first',(T,VAL,VAL.replace('if (absl','if (col_idx == 0) if (absl'))),
 b('t-nolock',(T,'''    if (!trajectory[col_idx].LockReferences(&item_and_refs.refs)) {''','''    if (col_idx > 0 && !trajectory[col_idx].LockReferences(&item_and_refs.refs)) {''')),
 b('t-col-from1',(T,'for (int col_idx = 0; col_idx < trajectory.size(); ++col_idx) {','for (int col_idx = 1; col_idx < trajectory.size(); ++col_idx) {')),
 b('t-squeeze-inv',(T,INS,INS.replace('!col.squeeze()','col.squeeze()'))),
 b('t-always-ins',(T,INS,'''    spec.shape.InsertDim(0, internal::ColumnLength(trajectory, col_idx));
''')),
 b('t-ins-end',(T,'InsertDim(0, internal::ColumnLength(trajectory, col_idx))','InsertDim(spec.shape.dims(), internal::ColumnLength(trajectory, col_idx))')),
 b('t-ins-col0',(T,'ColumnLength(trajectory, col_idx));','ColumnLength(trajectory, 0));')),
 b('t-spec-col0',(T,'get_spec(col.chunk_slices(0).chunk_key())','get_spec(trajectory.columns(0).chunk_slices(0).chunk_key())')),
 b('t-refany',(T,'''      if (ref->chunk_key() == chunk_key) {
        return ref->chunker().lock()->spec();
      }
''','''      return ref->chunker().lock()->spec();
''')),
 b('t-break',(T,CMP,'''    if (want.shape.unknown_rank()) break;
'''+CMP)),
 b('t-skip',(T,CMP,'''    if (want.shape.unknown_rank()) continue;
'''+CMP)),
 b('c-nosqueeze',(T,'''  if (squeeze_ && locked_refs.size() != 1) {''','''  if (squeeze_ && locked_refs.size() > 2) {''')),
 b('c-from2',(T,'''for (int i = 1; i < locked_refs.size(); ++i) {''','''for (int i = 2; i < locked_refs.size(); ++i) {''')),
 b('c-nodtype',(T,'''    if (spec.dtype != col_spec.dtype) {''','''    if (spec.dtype != col_spec.dtype && !squeeze_) {''')),
 b('c-lock-any',(T,'''    if (!locked_refs->back()) return false;
''','''    if (!locked_refs->back()) return locked_refs->size() > 1;
''')),
 b('c-lock-skip',(T,'''    locked_refs->push_back(ref.lock());
    if (!locked_refs->back()) return false;
''','''    if (ref.expired()) continue;
    locked_refs->push_back(ref.lock());
    if (!locked_refs->back()) return false;
''')),
 b('c-onlyself',(T,'''      locked_refs[0]->chunker().lock()->spec();''','''      locked_refs[locked_refs.size() - 1]->chunker().lock()->spec();''') ) if False else
 b('c-self',(T,'''    const internal::TensorSpec& spec = locked_refs[i]->chunker().lock()->spec();''','''    const internal::TensorSpec& spec = locked_refs[0]->chunker().lock()->spec();''')),
 b('w-nosize',(W,'''      if (dtypes_and_shapes_t->size() != (*dtypes_and_shapes)->size()) {''','''      if (dtypes_and_shapes_t->size() > (*dtypes_and_shapes)->size()) {''')),
 b('w-nodtype',(W,WCMP,'''        if (!signature_dtype_and_shape.shape.IsCompatibleWith(
                seen_dtype_and_shape.shape)) {''')),
 b('w-t1',(W,'for (int t = 0; t < num_timesteps; ++t) {','for (int t = 1; t < num_timesteps; ++t) {')),
 b('w-offset',(W,'insert_dtypes_and_shapes_location_ - 1 - t, max','insert_dtypes_and_shapes_location_ - t, max')),
 b('w-offset-const',(W,'insert_dtypes_and_shapes_location_ - 1 - t, max','insert_dtypes_and_shapes_location_ - 1, max')),
 b('w-c1',(W,'for (int c = 0; c < dtypes_and_shapes_t->size(); ++c) {','for (int c = 1; c < dtypes_and_shapes_t->size(); ++c) {')),
 b('w-notfound',(W,'''  if (iter == signatures_->end()) {
''','''  if (iter == signatures_->end()) {
    *dtypes_and_shapes = empty_dtypes_and_shapes;
    return absl::OkStatus();
''')),
 b('w-break',(W,'''      if (dtypes_and_shapes_t->size() != (*dtypes_and_shapes)->size()) {''','''      if (t >= chunk_length_) break;
      if (dtypes_and_shapes_t->size() != (*dtypes_and_shapes)->size()) {''')),
 b('cl-nosig',(C,'''  updated_options.flat_signature_map = *cached_flat_signatures;
''','''  if (!cached_flat_signatures->empty()) return NewTrajectoryWriter(updated_options, writer);
  updated_options.flat_signature_map = *cached_flat_signatures;
''')),
 b('cl-opts',(C,'''  return NewTrajectoryWriter(updated_options, writer);
}''','''  return NewTrajectoryWriter(options, writer);
}''')),
 b('cl-writer',(C,'''      std::move(cached_flat_signatures), std::move(max_in_flight_items));''','''      nullptr, std::move(max_in_flight_items));''')),
 # ok
 k('t-inline-not',(T,CMP,'''    const bool compatible = want.dtype == got.dtype && want.shape.IsCompatibleWith(got.shape);
    if (!compatible) {''')),
 k('t-swap',(T,CMP,'''    if (got.dtype != want.dtype || !got.shape.IsCompatibleWith(want.shape)) {''')),
 k('t-helper',(T,CMP,'''    if (!Matches(want, got)) {'''),(T,'''absl::Status TrajectoryWriter::Validate(''','''static bool Matches(const internal::TensorSpec& want, const internal::TensorSpec& got) {
  if (want.dtype != got.dtype) return false;
  return want.shape.IsCompatibleWith(got.shape);
}

absl::Status TrajectoryWriter::Validate(''')),
 k('t-early-if',(T,CV,'''  if (absl::Status status = Validate(item_and_refs); !status.ok()) return status;

  absl::MutexLock lock(&mu_);
  write_queue_.push_back(std::move(item_and_refs));
''')),
 k('t-contains',(T,NF,'''  if (!signature_map.contains(table)) {
    return absl::InvalidArgumentError(''')),
 k('t-range-cols',(T,'''  for (int col_idx = 0; col_idx < trajectory.size(); ++col_idx) {''','''  for (int col_idx = 0; col_idx != trajectory.size(); col_idx++) {''')),
 k('t-one-loop',(T,'''  for (const TrajectoryColumn& column : trajectory) {
    column.ToProto(item_and_refs.item.mutable_flat_trajectory()->add_columns());
  }
''','''  for (int i = 0; i < trajectory.size(); i++) {
    trajectory[i].ToProto(item_and_refs.item.mutable_flat_trajectory()->add_columns());
  }
''')),
 k('t-two-loops',(T,VAL+LOCK,VAL+'''  }
  for (const TrajectoryColumn& c : trajectory) {
    if (!c.LockReferences(&item_and_refs.refs)) {
      return absl::InternalError("CellRef unexpectedly expired in CreateItem.");
    }
''')),
 k('t-helper-cols',(T,VAL+LOCK,'''    REVERB_RETURN_IF_ERROR(CheckColumn(trajectory[col_idx], col_idx, &item_and_refs.refs));
'''),(T,'''absl::Status TrajectoryWriter::CreateItem(''','''static absl::Status CheckColumn(const TrajectoryColumn& c, int col_idx, std::vector<std::shared_ptr<CellRef>>* refs) {
  absl::Status status = c.Validate();
  if (!status.ok()) {
    return absl::InvalidArgumentError(
        absl::StrCat("Error in column ", col_idx, ": ", status.message()));
  }
  if (!c.LockReferences(refs)) {
    return absl::InternalError("CellRef unexpectedly expired in CreateItem.");
  }
  return absl::OkStatus();
}

absl::Status TrajectoryWriter::CreateItem(''')),
 k('t-squeeze-var',(T,INS,'''    const bool batched = !col.squeeze();
    if (batched) spec.shape.InsertDim(0, internal::ColumnLength(trajectory, col_idx));
''')),
 k('t-spec-else',(T,INS,'''    if (col.squeeze()) {
      specs.push_back(std::move(spec));
      continue;
    }
    spec.shape.InsertDim(0, internal::ColumnLength(trajectory, col_idx));
''')),
 k('c-early',(T,'''  if (squeeze_ && locked_refs.size() != 1) {''','''  const bool single = locked_refs.size() == 1;
  if (squeeze_ && !single) {''')),
 k('c-from0',(T,'''for (int i = 1; i < locked_refs.size(); ++i) {''','''for (int i = 0; i < locked_refs.size(); ++i) {''')),
 k('c-range',(T,'''  for (int i = 1; i < locked_refs.size(); ++i) {
    const internal::TensorSpec& spec = locked_refs[i]->chunker().lock()->spec();''','''  int i = -1;
  for (const auto& locked_ref : locked_refs) {
    i++;
    const internal::TensorSpec& spec = locked_ref->chunker().lock()->spec();''')),
 k('c-lock-var',(T,'''    locked_refs->push_back(ref.lock());
    if (!locked_refs->back()) return false;
''','''    std::shared_ptr<CellRef> locked = ref.lock();
    if (locked == nullptr) return false;
    locked_refs->push_back(std::move(locked));
''')),
 k('w-loc',(W,'insert_dtypes_and_shapes_location_ - 1 - t, max','insert_dtypes_and_shapes_location_ - (t + 1), max')),
 k('w-c-sig',(W,'for (int c = 0; c < dtypes_and_shapes_t->size(); ++c) {','for (int c = 0; c < (*dtypes_and_shapes)->size(); ++c) {')),
 k('w-split',(W,WCMP,'''        const bool same_type = seen_dtype_and_shape.dtype == signature_dtype_and_shape.dtype;
        if (!same_type || !signature_dtype_and_shape.shape.IsCompatibleWith(seen_dtype_and_shape.shape)) {''')),
 k('w-early',(W,'''  if (dtypes_and_shapes->has_value()) {
    for''','''  const bool known = dtypes_and_shapes->has_value();
  if (known) {
    for''')),
 k('cl-auto',(C,'''  updated_options.flat_signature_map = *cached_flat_signatures;
''','''  const internal::FlatSignatureMap& m = *cached_flat_signatures;
  updated_options.flat_signature_map = m;
''')),
]
