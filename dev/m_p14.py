def b(n,*e): return (n,['P14'],'bad',list(e))
def k(n,*e): return (n,['P14'],'ok',list(e))
F,L,U,H,P='selectors/fifo.cc','selectors/lifo.cc','selectors/uniform.cc','selectors/heap.cc','selectors/prioritized.cc'
C='platform/tfrecord_checkpointer.cc'
SW='''  switch (options.distribution_case()) {
    case KeyDistributionOptions::kFifo:
      return absl::make_unique<FifoSelector>();
    case KeyDistributionOptions::kLifo:
      return absl::make_unique<LifoSelector>();
    case KeyDistributionOptions::kUniform:
      return absl::make_unique<UniformSelector>();
    case KeyDistributionOptions::kPrioritized:
      return absl::make_unique<PrioritizedSelector>(
          options.prioritized().priority_exponent());
    case KeyDistributionOptions::kHeap:
      return absl::make_unique<HeapSelector>(options.heap().min_heap());
    case KeyDistributionOptions::DISTRIBUTION_NOT_SET:
      REVERB_LOG(REVERB_FATAL) << "Selector not set";
    default:
      REVERB_LOG(REVERB_FATAL) << "Selector not supported";
  }
'''
M=[
b('lifo-as-fifo',(C,"make_unique<LifoSelector>()","make_unique<FifoSelector>()")),
b('heap-noparam',(C,"HeapSelector>(options.heap().min_heap())","HeapSelector>()")),
b('heap-neg',(C,"HeapSelector>(options.heap().min_heap())","HeapSelector>(!options.heap().min_heap())")),
b('pri-const',(C,"          options.prioritized().priority_exponent());","          1.0);")),
b('heap-fall',(C,"    case KeyDistributionOptions::kUniform:\n      return absl::make_unique<UniformSelector>();","    case KeyDistributionOptions::kUniform:")),
b('heap-dropped',(C,"    case KeyDistributionOptions::kHeap:\n      return absl::make_unique<HeapSelector>(options.heap().min_heap());\n","")),
b('heap-opt-neg',(H,"set_min_heap(sign_ == 1)","set_min_heap(sign_ == -1)")),
b('heap-opt-omit',(H,"options.mutable_heap()->set_min_heap(sign_ == 1)","options.mutable_heap()")),
b('heap-ctor',(H,"sign_(min_heap ? 1 : -1)","sign_(min_heap ? -1 : 1)")),
b('heap-true',(H,"set_min_heap(sign_ == 1)","set_min_heap(true)")),
b('heap-sign0',(H,"set_min_heap(sign_ == 1)","set_min_heap(sign_ != 0)")),
b('fifo-lifo',(F,"options.set_fifo(true)","options.set_lifo(true)")),
b('uni-det',(U,"set_is_deterministic(false)","set_is_deterministic(true)")),
b('fifo-det',(F,"set_is_deterministic(true)","set_is_deterministic(false)")),
b('fifo-nodet',(F,"  options.set_is_deterministic(true);\n","")),
b('pri-exp-sq',(P,"set_priority_exponent(priority_exponent_)","set_priority_exponent(priority_exponent_ * 2)")),
b('pri-exp-none',(P,"options.mutable_prioritized()->set_priority_exponent(priority_exponent_)","options.mutable_prioritized()")),
b('uni-both',(U,"  options.set_uniform(true);\n","")),
b('factory-cross',(C,"make_unique<UniformSelector>()","make_unique<PrioritizedSelector>(1.0)")),
k('ifchain',(C,SW,'''  if (options.distribution_case() == KeyDistributionOptions::kFifo) {
    return absl::make_unique<FifoSelector>();
  }
  if (options.distribution_case() == KeyDistributionOptions::kLifo) {
    return absl::make_unique<LifoSelector>();
  }
  if (options.distribution_case() == KeyDistributionOptions::kUniform) {
    return absl::make_unique<UniformSelector>();
  }
  if (options.distribution_case() == KeyDistributionOptions::kPrioritized) {
    const double e = options.prioritized().priority_exponent();
    return absl::make_unique<PrioritizedSelector>(e);
  }
  if (options.distribution_case() == KeyDistributionOptions::kHeap) {
    return absl::make_unique<HeapSelector>(options.heap().min_heap());
  }
  REVERB_LOG(REVERB_FATAL) << "Selector not supported";
''')),
k('hasfn',(C,SW,'''  if (options.has_fifo()) return absl::make_unique<FifoSelector>();
  if (options.has_lifo()) return absl::make_unique<LifoSelector>();
  if (options.has_uniform()) return absl::make_unique<UniformSelector>();
  if (options.has_prioritized()) {
    return absl::make_unique<PrioritizedSelector>(options.prioritized().priority_exponent());
  }
  if (options.has_heap()) return absl::make_unique<HeapSelector>(options.heap().min_heap());
  REVERB_LOG(REVERB_FATAL) << "Selector not supported";
''')),
k('local-result',(C,SW,'''  std::unique_ptr<ItemSelector> result;
  switch (options.distribution_case()) {
    case KeyDistributionOptions::kFifo:
      result = absl::make_unique<FifoSelector>();
      break;
    case KeyDistributionOptions::kLifo:
      result = absl::make_unique<LifoSelector>();
      break;
    case KeyDistributionOptions::kUniform:
      result.reset(new UniformSelector());
      break;
    case KeyDistributionOptions::kPrioritized:
      result = absl::make_unique<PrioritizedSelector>(
          options.prioritized().priority_exponent());
      break;
    case KeyDistributionOptions::kHeap:
      result = absl::make_unique<HeapSelector>(options.heap().min_heap());
      break;
    default:
      REVERB_LOG(REVERB_FATAL) << "Selector not supported";
  }
  return result;
''')),
k('case-local',(C,"  switch (options.distribution_case()) {","  const auto which = options.distribution_case();\n  switch (which) {")),
k('heap-pos',(H,"set_min_heap(sign_ == 1)","set_min_heap(sign_ > 0)")),
k('heap-if',(H,"  options.mutable_heap()->set_min_heap(sign_ == 1);","  auto* heap = options.mutable_heap();\n  if (sign_ == 1) {\n    heap->set_min_heap(true);\n  } else {\n    heap->set_min_heap(false);\n  }")),
k('heap-order',(H,"  options.mutable_heap()->set_min_heap(sign_ == 1);\n  options.set_is_deterministic(true);","  options.set_is_deterministic(true);\n  options.mutable_heap()->set_min_heap(sign_ == 1);")),
k('pri-local',(P,"  options.mutable_prioritized()->set_priority_exponent(priority_exponent_);","  PrioritizedDistributionOptions* p = options.mutable_prioritized();\n  p->set_priority_exponent(priority_exponent_);") if 0 else (P,"  options.mutable_prioritized()->set_priority_exponent(priority_exponent_);","  auto* p = options.mutable_prioritized();\n  p->set_priority_exponent(priority_exponent_);")),
k('uni-nodet',(U,"  options.set_is_deterministic(false);\n","")),
k('heap-case-only-true',(H,"  options.mutable_heap()->set_min_heap(sign_ == 1);","  auto* heap = options.mutable_heap();\n  if (sign_ == 1) heap->set_min_heap(true);")),
k('heap-ctor-if',(H,"    : sign_(min_heap ? 1 : -1), update_count_(0) {}","    : sign_(2 * static_cast<int>(min_heap) - 1), update_count_(0) {}")),
]
