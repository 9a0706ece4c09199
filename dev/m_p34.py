def b(n,*e): return (n,['P34'],'bad',list(e))
def k(n,*e): return (n,['P34'],'ok',list(e))
T='trajectory_writer.cc'; H='chunker.h'; C='chunker.cc'
COND='''    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key() ||
        slices.back().offset() + slices.back().length() != ref_sp->offset()) {'''
BODY='''      FlatTrajectory::ChunkSlice slice;
      slice.set_chunk_key(ref_sp->chunk_key());
      slice.set_offset(ref_sp->offset());
      slice.set_length(1);
      slices.push_back(std::move(slice));
    } else {
      slices.back().set_length(slices.back().length() + 1);
    }
'''
FOR='''  for (const std::weak_ptr<CellRef>& ref : refs) {
    // Caller'''
PROTO='''  for (FlatTrajectory::ChunkSlice& slice : MergeAdjacent(refs_)) {
    *proto->add_chunk_slices() = std::move(slice);
  }
  proto->set_squeeze(squeeze_);
'''
MS='''  active_refs_.push_back(
      std::make_shared<CellRef>(std::weak_ptr<Chunker>(shared_from_this()),
                                next_chunk_key_, offset_++, episode_info));
'''
FL='''  if (buffer_.size() >= options_->GetMaxChunkLength()) {
    REVERB_RETURN_IF_ERROR(FlushLocked());
  }
'''
END='''  buffer_.clear();
  next_chunk_key_ = key_generator_->Generate();
  offset_ = 0;

  return absl::OkStatus();
}
'''
RESET='''  buffer_.clear();
  buffer_.reserve(options_->GetMaxChunkLength());
  offset_ = 0;
  next_chunk_key_ = key_generator_->Generate();
  active_refs_.clear();
'''
SET='''    if (ref->chunk_key() == chunk_container->chunk->chunk_key()) {
      ref->SetChunk(chunk_container);
    }
'''
SP='''      if (ref->episode_step() != range->end() + 1) {
        range->set_sparse(true);
      }
      range->set_end(ref->episode_step());
'''
R1='''      range->set_episode_id(ref->episode_id());
      range->set_start(ref->episode_step());
      range->set_end(ref->episode_step());
'''
NEG='''    if (it->get() == ref) break;
    negative_offset++;
'''
IDX='''  int buffer_index = buffer_.size() - negative_offset - 1;
'''
REF='''  *ref = active_refs_.back();
'''
AGE='''  while (active_refs_.size() > options_->GetNumKeepAliveRefs()) {
    active_refs_.pop_front();
  }

  *ref'''
EP='''  if (!buffer_.empty() &&
      active_refs_.back()->episode_id() != episode_info.episode_id) {'''
ST='''      active_refs_.back()->episode_step() >= episode_info.step) {'''
AP='''    std::weak_ptr<CellRef> ref;
    absl::Status status =
        chunkers_[i]->Append(std::move(data[i].value()), episode_info, &ref);
'''
NONE='''      refs->push_back(absl::nullopt);
      continue;
'''
M=[
# A
b('a-gap',(T,COND,COND.replace(''' ||
        slices.back().offset() + slices.back().length() != ref_sp->offset()''',''))),
b('a-key',(T,COND,COND.replace(''' slices.back().chunk_key() != ref_sp->chunk_key() ||
       ''',''))),
b('a-off1',(T,COND,COND.replace('length() != ref_sp','length() - 1 != ref_sp'))),
b('a-less',(T,COND,COND.replace('length() != ref_sp','length() > ref_sp'))),
b('a-gt',(T,COND,COND.replace('length() != ref_sp','length() < ref_sp'))),
b('a-noff',(T,COND,COND.replace('slices.back().offset() + slices.back().length() != ref_sp->offset()','slices.back().length() != ref_sp->offset()'))),
b('a-len2',(T,BODY,BODY.replace('length() + 1','length() + 2'))),
b('a-len0',(T,BODY,BODY.replace('set_length(1)','set_length(0)'))),
b('a-nolen',(T,BODY,BODY.replace('      slice.set_length(1);\n',''))),
b('a-nooff',(T,BODY,BODY.replace('      slice.set_offset(ref_sp->offset());\n',''))),
b('a-off0',(T,BODY,BODY.replace('set_offset(ref_sp->offset())','set_offset(0)'))),
b('a-offlen',(T,BODY,BODY.replace('set_offset(ref_sp->offset())','set_offset(slices.size())'))),
b('a-keyep',(T,BODY,BODY.replace('set_chunk_key(ref_sp->chunk_key())','set_chunk_key(ref_sp->episode_id())'))),
b('a-skip',(T,BODY,BODY.replace('''    } else {
      slices.back().set_length(slices.back().length() + 1);
    }''','''    }'''))),
b('a-break',(T,COND,'    if (slices.size() > 8) break;\n'+COND)),
b('a-rev',(T,FOR,'''  for (auto rit = refs.rbegin(); rit != refs.rend(); ++rit) {
    const std::weak_ptr<CellRef>& ref = *rit;
    // Caller''')),
b('a-front',(T,BODY,BODY.replace('slices.push_back(std::move(slice))','slices.insert(slices.begin(), std::move(slice))'))),
b('a-sq',(T,PROTO,PROTO.replace('squeeze(squeeze_)','squeeze(true)'))),
b('a-nosq',(T,PROTO,PROTO.replace('  proto->set_squeeze(squeeze_);\n',''))),
b('a-condout',(T,PROTO,PROTO.replace('''    *proto->add''','''    if (slice.length() > 1)
      *proto->add'''))),
b('a-dead',(T,'''    std::shared_ptr<CellRef> ref_sp = ref.lock();
    REVERB_CHECK(ref_sp);
''','''    std::shared_ptr<CellRef> ref_sp = ref.lock();
    if (!ref_sp) continue;
''')),
k('a-last',(T,COND,'''    const bool first = slices.empty();
    if (first || slices.back().chunk_key() != ref_sp->chunk_key() ||
        ref_sp->offset() != slices.back().offset() + slices.back().length()) {''')),
k('a-pos',(T,COND+'\n'+BODY,'''    if (!slices.empty()) {
      FlatTrajectory::ChunkSlice& tail = slices.back();
      if (tail.chunk_key() == ref_sp->chunk_key() &&
          ref_sp->offset() - tail.offset() == tail.length()) {
        tail.set_length(tail.length() + 1);
        continue;
      }
    }
    FlatTrajectory::ChunkSlice slice;
    slice.set_length(1);
    slice.set_offset(ref_sp->offset());
    slice.set_chunk_key(ref_sp->chunk_key());
    slices.push_back(std::move(slice));
''')),
k('a-emplace',(T,BODY,'''      slices.emplace_back();
      slices.back().set_chunk_key(ref_sp->chunk_key());
      slices.back().set_offset(ref_sp->offset());
      slices.back().set_length(1);
    } else {
      slices.back().set_length(slices.back().length() + 1);
    }
''')),
k('a-emplace2',(T,BODY,'''      FlatTrajectory::ChunkSlice& slice = slices.emplace_back();
      slice.set_chunk_key(ref_sp->chunk_key());
      slice.set_offset(ref_sp->offset());
      slice.set_length(1);
    } else {
      slices.back().set_length(slices.back().length() + 1);
    }
''')),
k('a-idx',(T,FOR,'''  for (size_t n = 0; n < refs.size(); ++n) {
    const std::weak_ptr<CellRef>& ref = refs[n];
    // Caller''')),
k('a-helper',(T,'''std::vector<FlatTrajectory::ChunkSlice> MergeAdjacent(''','''bool Continues(const FlatTrajectory::ChunkSlice& slice, const CellRef& ref) {
  return slice.chunk_key() == ref.chunk_key() &&
         slice.offset() + slice.length() == ref.offset();
}

std::vector<FlatTrajectory::ChunkSlice> MergeAdjacent('''),(T,COND,'''    if (slices.empty() || !Continues(slices.back(), *ref_sp)) {''')),
k('a-out',(T,PROTO,'''  proto->set_squeeze(squeeze_);
  auto slices = MergeAdjacent(refs_);
  for (int i = 0; i < slices.size(); i++) {
    proto->add_chunk_slices()->CopyFrom(slices[i]);
  }
''')),
# B
b('b-off',(C,MS,MS.replace('offset_++','++offset_'))),
b('b-noinc',(C,MS,MS.replace('offset_++','offset_'))),
b('b-inc2',(C,MS,MS.replace('  active_refs_','  offset_++;\n  active_refs_',1))),
b('b-key',(C,MS,MS.replace('next_chunk_key_','key_generator_->Generate()'))),
b('b-size',(C,MS,MS.replace('offset_++','active_refs_.size()'))),
b('b-nozero',(C,END,END.replace('  offset_ = 0;\n',''))),
b('b-one',(C,END,END.replace('  offset_ = 0;\n','  offset_ = 1;\n'))),
b('b-nokey',(C,END,END.replace('  next_chunk_key_ = key_generator_->Generate();\n',''))),
b('b-inckey',(C,END,END.replace('  next_chunk_key_ = key_generator_->Generate();\n','  next_chunk_key_ = 17;\n'))),
b('b-noclear',(C,END,END.replace('  buffer_.clear();\n',''))),
b('b-rkey',(C,RESET,RESET.replace('  next_chunk_key_ = key_generator_->Generate();\n',''))),
b('b-roff',(C,RESET,RESET.replace('  offset_ = 0;\n',''))),
b('b-rrefs',(C,RESET,RESET.replace('  active_refs_.clear();\n',''))),
b('b-rbuf',(C,RESET,RESET.replace('  buffer_.clear();\n',''))),
b('b-push',(C,MS,''),(C,'''  // Create the chunk if max buffer size reached.
'''+FL,'''  // Create the chunk if max buffer size reached.
'''+FL+MS)),
b('b-keyearly',(C,'''  tensorflow::Tensor batched;
  REVERB_RETURN''','''  next_chunk_key_ = key_generator_->Generate();
  tensorflow::Tensor batched;
  REVERB_RETURN''')),
b('b-ckey',(C,'  chunk->set_chunk_key(next_chunk_key_);','  chunk->set_chunk_key(key_generator_->Generate());')),
b('b-setkey',(C,'''  chunk->set_chunk_key(next_chunk_key_);
''','''  next_chunk_key_ = key_generator_->Generate();
  chunk->set_chunk_key(next_chunk_key_);
''')),
b('b-clearearly',(C,'''  if (options_->GetDeltaEncode()) {
    batched =''','''  offset_ = 0;
  if (options_->GetDeltaEncode()) {
    batched ='''),(C,'''  tensorflow::Tensor batched;
  REVERB_RETURN''','''  tensorflow::Tensor batched;
  buffer_.pop_back();
  REVERB_RETURN''')),
b('b-errclear',(C,'''  REVERB_RETURN_IF_ERROR(
      FromTensorflowStatus(tensorflow::tensor::Concat(buffer_, &batched)));
''','''  absl::Status concat_status =
      FromTensorflowStatus(tensorflow::tensor::Concat(buffer_, &batched));
  if (!concat_status.ok()) {
    buffer_.clear();
    return concat_status;
  }
''')),
b('b-setall',(C,SET,'''    ref->SetChunk(chunk_container);
''')),
b('b-setready',(C,SET,SET.replace('->chunk_key())','->chunk_key() && !ref->IsReady() && ref->offset() > 0)'))),
b('b-setbreak',(C,SET,SET.replace('container);\n','container);\n      break;\n'))),
b('b-setneq',(C,SET,SET.replace('==','!='))),
b('b-setnone',(C,SET,'')),
b('b-sparse0',(C,SP,SP.replace('range->end() + 1','range->end()'))),
b('b-sparseno',(C,SP,SP.replace('''      if (ref->episode_step() != range->end() + 1) {
        range->set_sparse(true);
      }
''',''))),
b('b-sparselate',(C,SP,'''      range->set_end(ref->episode_step());
      if (ref->episode_step() != range->end() + 1) {
        range->set_sparse(true);
      }
''')),
b('b-noend',(C,SP,SP.replace('      range->set_end(ref->episode_step());\n',''))),
b('b-start0',(C,R1,R1.replace('set_start(ref->episode_step())','set_start(ref->offset())'))),
b('b-nostart',(C,R1,R1.replace('      range->set_start(ref->episode_step());\n',''))),
b('b-noid',(C,R1,R1.replace('      range->set_episode_id(ref->episode_id());\n',''))),
b('b-front',(C,REF,'  *ref = active_refs_.front();\n')),
b('b-ref0',(C,REF,'')),
b('b-early',(C,'\n'+REF,'\n'),(C,MS,REF+MS)),
b('b-popback',(C,AGE,AGE.replace('pop_front','pop_back'))),
b('b-epi',(C,EP,EP.replace('!buffer_.empty() &&','buffer_.size() > 1 &&'))),
b('b-epi0',(C,EP,EP.replace('!buffer_.empty() &&','false &&'))),
b('b-step',(C,ST,ST.replace('>=','>'))),
b('b-data',(C,'  REVERB_CHECK(batched_tensor.CopyFrom(tensor, shape));\n','')),
b('b-getter',(C,'uint64_t CellRef::chunk_key() const { return chunk_key_; }','uint64_t CellRef::chunk_key() const { return episode_info_.episode_id; }')),
b('b-getoff',(C,'int CellRef::offset() const { return offset_; }','int CellRef::offset() const { return episode_info_.step; }')),
b('b-tens',(C,'''  chunk->set_data_tensors_len(''','''  CompressTensorAsProto(batched, chunk->mutable_data()->add_tensors());
  chunk->set_data_tensors_len(''')),
b('b-flushfirst',(C,'''  active_refs_.push_back(
      std::make''','''  const uint64_t key = next_chunk_key_;
  if (buffer_.size() + 1 > options_->GetMaxChunkLength()) {
    REVERB_RETURN_IF_ERROR(FlushLocked());
  }
  active_refs_.push_back(
      std::make'''),(C,'next_chunk_key_, offset_++','key, offset_++')),
k('b-split',(C,MS,'''  const int offset = offset_;
  auto cell = std::make_shared<CellRef>(
      std::weak_ptr<Chunker>(shared_from_this()), next_chunk_key_, offset,
      episode_info);
  offset_ += 1;
  active_refs_.push_back(cell);
''')),
k('b-after',(C,MS,''),(C,'  buffer_.push_back(std::move(batched_tensor));\n','  buffer_.push_back(std::move(batched_tensor));\n'+MS)),
k('b-bsize',(C,MS,MS.replace('offset_++','buffer_.size()').replace('));\n','));\n  offset_++;\n'))),
k('b-fin',(C,END,'''  offset_ = 0;
  buffer_.clear();
  next_chunk_key_ = key_generator_->Generate();

  return absl::OkStatus();
}
''')),
k('b-resetref',(C,RESET,'''  active_refs_.clear();
  next_chunk_key_ = key_generator_->Generate();
  offset_ = 0;
  buffer_.clear();
  buffer_.reserve(options_->GetMaxChunkLength());
''')),
k('b-setcont',(C,SET,'''    if (ref->chunk_key() != next_chunk_key_) continue;
    ref->SetChunk(chunk_container);
''')),
k('b-spalt',(C,SP,'''      const bool hole = range->end() + 1 != ref->episode_step();
      if (hole) range->set_sparse(true);
      range->set_end(ref->episode_step());
''')),
k('b-spgt',(C,SP,'''      if (ref->episode_step() > range->end() + 1) {
        range->set_sparse(true);
      }
      range->set_end(ref->episode_step());
''')),
k('b-hand',(C,REF,'''  const std::shared_ptr<CellRef>& newest = active_refs_.back();
  *ref = newest;
''')),
k('b-flushif',(C,FL,'''  const bool full = buffer_.size() >= options_->GetMaxChunkLength();
  if (full) {
    auto status = FlushLocked();
    if (!status.ok()) return status;
  }
''')),
k('b-nest',(C,EP,'''  if (!buffer_.empty() &&
      episode_info.episode_id != active_refs_.back()->episode_id()) {''')),
# C
b('c-idx',(C,IDX,'  int buffer_index = buffer_.size() - negative_offset;\n')),
b('c-idx2',(C,IDX,'  int buffer_index = negative_offset;\n')),
b('c-fwd',(C,'for (auto it = active_refs_.crbegin(); it != active_refs_.crend(); it++) {','for (auto it = active_refs_.cbegin(); it != active_refs_.cend(); it++) {')),
b('c-neg',(C,NEG,'    negative_offset++;\n    if (it->get() == ref) break;\n')),
b('c-skip',(C,NEG,'''    if (it->get() == ref) break;
    if ((*it)->IsReady()) continue;
    negative_offset++;
''')),
b('c-bound',(C,'  if (buffer_index < 0) {','  if (buffer_index < -1) {')),
b('c-row',(C,'*out = column.SubSlice(ref->offset());','*out = column.SubSlice(ref->episode_step());')),
b('c-row0',(C,'*out = column.SubSlice(ref->offset());','*out = column.SubSlice(0);')),
b('c-col',(C,'UnpackChunkColumn(*ref->GetChunk()->get(), 0, &column)','UnpackChunkColumn(*ref->GetChunk()->get(), 1, &column)')),
k('c-name',(C,IDX,'''  const int num_buffered = buffer_.size();
  int buffer_index = num_buffered - 1 - negative_offset;
''')),
k('c-inv',(C,NEG,'''    if (it->get() != ref) {
      ++negative_offset;
    } else {
      break;
    }
''')),
# D
b('d-idx',(T,AP,AP.replace('chunkers_[i]->','chunkers_[0]->'))),
b('d-none',(T,NONE,'      continue;\n')),
b('d-nocont',(T,NONE+'    }\n','      continue;\n    }\n')),
b('d-step',(T,'    episode_step_++;','    episode_step_ += 2;')),
b('d-always',(T,'  if (increment_episode_step) {\n    episode_step_++;\n  }','  episode_step_++;')),
b('d-refs',(T,'    REVERB_RETURN_IF_ERROR(status);\n    refs->push_back(std::move(ref));','    refs->push_back(std::move(ref));\n    REVERB_RETURN_IF_ERROR(status);')),
b('d-lateref',(T,'    refs->push_back(std::move(ref));','    refs->push_back(std::move(ref));\n    refs->push_back(absl::nullopt);')),
b('d-id',(T,'  episode_id_ = key_generator_->Generate();\n  episode_step_ = 0;\n  return','  episode_step_ = 0;\n  return')),
b('d-st',(T,'  episode_id_ = key_generator_->Generate();\n  episode_step_ = 0;\n  return','  episode_id_ = key_generator_->Generate();\n  return')),
b('d-qfront',(T,'write_queue_.push_back(std::move(item_and_refs));','write_queue_.push_front(std::move(item_and_refs));')),
b('d-prio',(T,'  item_and_refs.item.set_priority(priority);\n','')),
k('d-ref',(T,AP,AP.replace('chunkers_[i]->Append','chunkers_.at(i)->Append'))),
k('d-else',(T,NONE+'    }\n',NONE.replace('      continue;\n','')+'''      continue;
    }
''')),
k('d-plus',(T,'    episode_step_++;','    episode_step_ = episode_step_ + 1;')),
]
