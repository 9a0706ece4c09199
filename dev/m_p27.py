def b(n,*e): return (n,['P27'],'bad',list(e))
def k(n,*e): return (n,['P27'],'ok',list(e))
def s(a,c): return ('sampler.cc',a,c)
def c(a,x): return ('client.cc',a,x)
VT='''  REVERB_RETURN_IF_ERROR(
      ValidateAgainstOutputSpec(*data, ValidationMode::kTimestep));
'''
VS=VT.replace('kTimestep','kBatchedTimestep')
VR=VT.replace('kTimestep','kTrajectory')
CMP='''    if (data[i].dtype() != dtypes_and_shapes_->at(i).dtype ||
        !dtypes_and_shapes_->at(i).shape.IsCompatibleWith(*shape_ptr)) {'''
PTR='''    auto* shape_ptr =
        mode == ValidationMode::kTimestep || mode == ValidationMode::kTrajectory
            ? &(data[i].shape())
            : &elem_shape;
'''
CC='''      if (dtypes_and_shapes->at(i).dtype != validation_dtypes[i] ||
          !dtypes_and_shapes->at(i).shape.IsCompatibleWith(
              validation_shapes[i])) {'''
M=[
b('ts_none',s(VT,'')),b('sample_none',s(VS,'')),b('traj_none',s(VR,'')),
b('ts_mode',s('*data, ValidationMode::kTimestep','*data, ValidationMode::kBatchedTimestep')),
b('sample_mode',s('*data, ValidationMode::kBatchedTimestep','*data, ValidationMode::kTrajectory')),
b('traj_mode',s('*data, ValidationMode::kTrajectory','*data, ValidationMode::kBatchedTimestep')),
b('traj_ignored',s(VR,'''  ValidateAgainstOutputSpec(*data, ValidationMode::kTrajectory).IgnoreError();
''')),
b('sample_before',s('''  REVERB_RETURN_IF_ERROR(sample->AsBatchedTimesteps(data));
'''+VS,VS+'''  REVERB_RETURN_IF_ERROR(sample->AsBatchedTimesteps(data));
''')),
b('ts_first_only',s(VT,'''  if (end_of_sequence != nullptr) {
    REVERB_RETURN_IF_ERROR(
        ValidateAgainstOutputSpec(*data, ValidationMode::kTimestep));
  }
''')),
b('traj_rate_limited',s(VR,'''  if (!sample->rate_limited()) {
    REVERB_RETURN_IF_ERROR(
        ValidateAgainstOutputSpec(*data, ValidationMode::kTrajectory));
  }
''')),
b('size_unchecked',s('''  if (data.size() != dtypes_and_shapes_->size()) {''','''  if (data.size() > dtypes_and_shapes_->size()) {''')),
b('size_other',s('''  if (data.size() != dtypes_and_shapes_->size()) {''','''  if (data.size() < dtypes_and_shapes_->size()) {''')),
b('from_5',s('for (int i = 4; i < data.size(); ++i) {','for (int i = 5; i < data.size(); ++i) {')),
b('to_last',s('for (int i = 4; i < data.size(); ++i) {','for (int i = 4; i + 1 < data.size(); ++i) {')),
b('dtype_and',s(CMP,CMP.replace('||','&&'))),
b('dtype_only',s(CMP,'''    if (data[i].dtype() != dtypes_and_shapes_->at(i).dtype) {''')),
b('shape_only',s(CMP,'''    if (!dtypes_and_shapes_->at(i).shape.IsCompatibleWith(*shape_ptr)) {''')),
b('dtype_index',s(CMP,CMP.replace('data[i]','data[4]'))),
b('shape_index',s(CMP,CMP.replace('at(i).shape','at(i - 4).shape'))),
b('shape_inverted',s(CMP,CMP.replace('!dtypes','dtypes'))),
b('shape_first',s(PTR,PTR.replace('data[i]','data[4]'))),
b('ptr_traj',s(PTR,PTR.replace(' || mode == ValidationMode::kTrajectory',''))),
b('ptr_batched',s(PTR,PTR.replace('kTrajectory','kBatchedTimestep'))),
b('remove_last',s('elem_shape.RemoveDim(0);','elem_shape.RemoveDim(elem_shape.dims() - 1);')),
b('remove_missing',s('''      elem_shape.RemoveDim(0);
''','')),
b('remove_twice',s('''      elem_shape.RemoveDim(0);
''','''      elem_shape.RemoveDim(0);
      if (elem_shape.dims() > 0) elem_shape.RemoveDim(0);
''')),
b('remove_mode',s('if (mode == ValidationMode::kBatchedTimestep) {','if (mode == ValidationMode::kTrajectory) {')),
b('scalar_accepted',s('''      if (elem_shape.dims() == 0) {''','''      if (elem_shape.dims() == 0) return absl::OkStatus();
      if (elem_shape.dims() == 0) {''')),
b('return_in_loop',s('''          internal::DtypesShapesString(*dtypes_and_shapes_)));
    }
  }
  return absl::OkStatus();''','''          internal::DtypesShapesString(*dtypes_and_shapes_)));
    }
    return absl::OkStatus();
  }
  return absl::OkStatus();''')),
b('no_spec_error',s('''  if (!dtypes_and_shapes_) {
    return absl::OkStatus();
  }
''','''  if (!dtypes_and_shapes_) {
    return absl::FailedPreconditionError("No signature.");
  }
''')),
b('ctor_drops',s('''      dtypes_and_shapes_(std::move(dtypes_and_shapes)) {
  REVERB_CHECK_GT''','''      dtypes_and_shapes_(absl::nullopt) {
  REVERB_CHECK_GT''')),
b('ctor_local_drops',s('''    : Sampler(MakeLocalWorkers(table, options), table->name(), options,
              std::move(dtypes_and_shapes)) {}''','''    : Sampler(MakeLocalWorkers(table, options), table->name(), options,
              absl::nullopt) {}''')),
b('ctor_grpc_drops',s('''    : Sampler(MakeGrpcWorkers(std::move(stub), table_name, options), table_name,
              options, std::move(dtypes_and_shapes)) {}''','''    : Sampler(MakeGrpcWorkers(std::move(stub), table_name, options), table_name,
              options, absl::nullopt) {}''')),
b('local_drops',c('''std::move(table_ptr), options,
                                          std::move(dtypes_and_shapes));''','''std::move(table_ptr), options,
                                          absl::nullopt);''')),
b('remote_drops',c('''stub_, table, options,
                                          std::move(dtypes_and_shapes));''','''stub_, table, options,
                                          absl::nullopt);''')),
b('options_unchecked',c('''  REVERB_RETURN_IF_ERROR(options.Validate());
''','')),
b('timeout_any',c('''  if (absl::IsDeadlineExceeded(status)) {''','''  if (!status.ok()) {''')),
b('timeout_drops',c('''  return NewSampler(table, options, std::move(dtypes_and_shapes), sampler);
}

absl::Status Client::GetD''','''  return NewSampler(table, options, absl::nullopt, sampler);
}

absl::Status Client::GetD''')),
b('validate_drops',c('''  return NewSampler(table, options, std::move(dtypes_and_shapes), sampler);
}

absl::Status Client::NewSamplerWithout''','''  return NewSampler(table, options, absl::nullopt, sampler);
}

absl::Status Client::NewSamplerWithout''')),
b('spec_cache_ignored',c('''  REVERB_RETURN_IF_ERROR(
      MaybeUpdateServerInfoCache(validation_timeout, &cached_flat_signatures));

  const''','''  if (!MaybeUpdateServerInfoCache(validation_timeout, &cached_flat_signatures).ok()) {
    dtypes_and_shapes->reset();
    return absl::OkStatus();
  }

  const''')),
b('spec_no_info',c('''    // Fourth element of sampled signature is the priority value.
    dtypes_and_shapes_vec.push_back({"priority", tensorflow::DT_DOUBLE,
                                     tensorflow::PartialTensorShape({})});
''','')),
b('spec_info_order',c('''{"table_size", tensorflow::DT_INT64,''','''{"table_size", tensorflow::DT_DOUBLE,''')),
b('spec_first_column',c('''    for (const auto& dtype_and_shape : *old_dtypes_and_shapes) {
      dtypes_and_shapes_vec.push_back(dtype_and_shape);
    }
''','''    for (int i = 1; i < old_dtypes_and_shapes->size(); i++) {
      dtypes_and_shapes_vec.push_back(old_dtypes_and_shapes->at(i));
    }
''')),
b('spec_no_columns',c('''    for (const auto& dtype_and_shape : *old_dtypes_and_shapes) {
      dtypes_and_shapes_vec.push_back(dtype_and_shape);
    }
''','')),
b('spec_some_columns',c('''      dtypes_and_shapes_vec.push_back(dtype_and_shape);
    }

    dtypes''','''      if (dtype_and_shape.dtype != tensorflow::DT_STRING) {
        dtypes_and_shapes_vec.push_back(dtype_and_shape);
      }
    }

    dtypes''')),
b('spec_dropped',c('''    dtypes_and_shapes->emplace(std::move(dtypes_and_shapes_vec));
  }
  return absl::OkStatus();
}
''','''    dtypes_and_shapes->reset();
  }
  return absl::OkStatus();
}
''')),
b('req_pairs',c('''  if (validation_dtypes.size() != validation_shapes.size()) {''','''  if (validation_dtypes.size() < validation_shapes.size()) {''')),
b('req_size',c('''    if (dtypes_and_shapes->size() != validation_shapes.size()) {''','''    if (dtypes_and_shapes->size() > validation_shapes.size()) {''')),
b('req_from_4',c('''    for (int i = 0; i < dtypes_and_shapes->size(); ++i) {''','''    for (int i = 4; i < dtypes_and_shapes->size(); ++i) {''')),
b('req_dtype',c(CC,'''      if (!dtypes_and_shapes->at(i).shape.IsCompatibleWith(
              validation_shapes[i])) {''')),
b('req_shape',c(CC,'''      if (dtypes_and_shapes->at(i).dtype != validation_dtypes[i]) {''')),
b('req_and',c(CC,CC.replace('||','&&'))),
b('req_index',c(CC,CC.replace('validation_shapes[i]','validation_shapes[0]'))),
b('req_built_shape',c('''{/*name=*/"?", validation_dtypes[i], validation_shapes[i]}''','''{/*name=*/"?", validation_dtypes[i], validation_shapes[0]}''')),
b('req_built_dropped',c('''    dtypes_and_shapes.emplace(std::move(dtypes_and_shapes_vec));
  }

  return''','''  }

  return''')),
b('req_built_from_1',c('''    for (int i = 0; i < validation_shapes.size(); ++i) {''','''    for (int i = 1; i < validation_shapes.size(); ++i) {''')),
# ok
k('ts_named',s(VT,'''  const auto valid =
      ValidateAgainstOutputSpec(*data, ValidationMode::kTimestep);
  if (!valid.ok()) return valid;
''')),
k('ts_local',s('''  *data = active_sample_->GetNextTimestep();
'''+VT,'''  std::vector<tensorflow::Tensor> step = active_sample_->GetNextTimestep();
  REVERB_RETURN_IF_ERROR(
      ValidateAgainstOutputSpec(step, ValidationMode::kTimestep));
  *data = std::move(step);
''')),
k('ptr_mode',s(PTR,'''    auto* shape_ptr = mode == ValidationMode::kBatchedTimestep
                          ? &elem_shape
                          : &(data[i].shape());
''')),
k('ptr_ref',s(PTR,'''    const tensorflow::TensorShape* shape_ptr = &elem_shape;
    if (mode != ValidationMode::kBatchedTimestep) {
      shape_ptr = &data[i].shape();
    }
''')),
k('shape_copied',s(PTR,'''    if (mode != ValidationMode::kBatchedTimestep) elem_shape = data[i].shape();
    const auto* shape_ptr = &elem_shape;
''')),
k('cmp_split',s(CMP,'''    const bool same_dtype =
        data[i].dtype() == dtypes_and_shapes_->at(i).dtype;
    const bool same_shape =
        dtypes_and_shapes_->at(i).shape.IsCompatibleWith(*shape_ptr);
    if (!same_dtype || !same_shape) {''')),
k('cmp_ref',s(CMP,'''    const auto& expected = dtypes_and_shapes_->at(i);
    if (expected.dtype != data[i].dtype() ||
        !expected.shape.IsCompatibleWith(*shape_ptr)) {''')),
k('cmp_subscript',s(CMP,CMP.replace('dtypes_and_shapes_->at(i)','(*dtypes_and_shapes_)[i]'))),
k('spec_ptr',s('''  if (!dtypes_and_shapes_) {
    return''','''  if (!dtypes_and_shapes_.has_value()) {
    return''')),
k('size_flip',s('''  if (data.size() != dtypes_and_shapes_->size()) {''','''  const size_t expected_size = dtypes_and_shapes_->size();
  if (expected_size != data.size()) {''')),
k('loop_spec',s('for (int i = 4; i < data.size(); ++i) {','for (int i = 4; i < dtypes_and_shapes_->size(); ++i) {')),
k('loop_while',s('for (int i = 4; i < data.size(); ++i) {','for (size_t i = 4; i != data.size(); ++i) {')),
k('dims_lt',s('''      if (elem_shape.dims() == 0) {''','''      if (elem_shape.dims() < 1) {''')),
k('mode_switch',s('if (mode == ValidationMode::kBatchedTimestep) {','const bool batched = mode == ValidationMode::kBatchedTimestep;\n    if (batched) {')),
k('new_branch',c('''  if (GetLocalTablePtr(table, &table_ptr).ok()) {''','''  const bool local = GetLocalTablePtr(table, &table_ptr).ok();
  if (local) {''')),
k('new_negated',c('''  if (absl::IsDeadlineExceeded(status)) {''','''  if (!status.ok() && !absl::IsDeadlineExceeded(status)) return status;
  if (absl::IsDeadlineExceeded(status)) {''')),
k('spec_insert',c('''    for (const auto& dtype_and_shape : *old_dtypes_and_shapes) {
      dtypes_and_shapes_vec.push_back(dtype_and_shape);
    }
''','''    dtypes_and_shapes_vec.insert(dtypes_and_shapes_vec.end(),
                                 old_dtypes_and_shapes->begin(),
                                 old_dtypes_and_shapes->end());
''')),
k('spec_index',c('''    for (const auto& dtype_and_shape : *old_dtypes_and_shapes) {
      dtypes_and_shapes_vec.push_back(dtype_and_shape);
    }
''','''    for (size_t i = 0; i < old_dtypes_and_shapes->size(); ++i) {
      dtypes_and_shapes_vec.push_back(old_dtypes_and_shapes->at(i));
    }
''')),
k('spec_assign',c('''    dtypes_and_shapes->emplace(std::move(dtypes_and_shapes_vec));
  }
  return absl::OkStatus();
}
''','''    *dtypes_and_shapes = std::move(dtypes_and_shapes_vec);
  }
  return absl::OkStatus();
}
''')),
k('spec_nullopt',c('''    // Found the table, but signature is empty.
    dtypes_and_shapes->reset();''','''    // Found the table, but signature is empty.
    *dtypes_and_shapes = absl::nullopt;''')),
k('spec_value_ref',c('''    const auto& old_dtypes_and_shapes = iter->second;''','''    const internal::DtypesAndShapes old_dtypes_and_shapes = iter->second;''')),
k('req_ref',c(CC,'''      const auto& spec = dtypes_and_shapes->at(i);
      if (spec.dtype != validation_dtypes[i] ||
          !spec.shape.IsCompatibleWith(validation_shapes[i])) {''')),
k('req_built',c('''      dtypes_and_shapes_vec.push_back(
          {/*name=*/"?", validation_dtypes[i], validation_shapes[i]});''','''      const auto& dtype = validation_dtypes[i];
      dtypes_and_shapes_vec.push_back(
          internal::TensorSpec{/*name=*/"?", dtype, validation_shapes[i]});''')),
k('req_flip',c('''  if (dtypes_and_shapes) {
    if (dtypes''','''  if (dtypes_and_shapes.has_value()) {
    if (dtypes''')),
k('noop',s('''  for (int i = 4; i < data.size(); ++i) {''','''  int unused = 0;
  (void)unused;
  for (int i = 4; i < data.size(); ++i) {''')),
]
