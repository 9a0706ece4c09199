def b(n,*e): return (n,['P15'],'bad',list(e))
def k(n,*e): return (n,['P15'],'ok',list(e))
F,L,U,H,P='selectors/fifo.cc','selectors/lifo.cc','selectors/uniform.cc','selectors/heap.cc','selectors/prioritized.cc'
I='support/intrusive_heap.h'
M=[
b('fifo-del-nolist',(F,"  keys_.erase(it->second);\n","")),
b('fifo-front',(F,"keys_.emplace(keys_.end(), key)","keys_.emplace(keys_.begin(), key)")),
b('fifo-back',(F,"return {keys_.front(), 1.}","return {keys_.back(), 1.}")),
b('lifo-back',(L,"return {keys_.front(), 1.}","return {keys_.back(), 1.}")),
b('lifo-clear',(L,"  keys_.clear();\n","")),
b('fifo-insert-first',(F,"  if (key_to_iterator_.find(key) != key_to_iterator_.end()) {\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Key \", key, \" already inserted.\"));\n  }\n  key_to_iterator_.emplace(key, keys_.emplace(keys_.end(), key));","  if (!key_to_iterator_.emplace(key, keys_.emplace(keys_.end(), key)).second) {\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Key \", key, \" already inserted.\"));\n  }")),
b('uni-swap',(U,"    key_to_index_[last_key] = index;\n","")),
b('uni-noif',(U,"  if (index != last_index) {\n    keys_[index] = last_key;\n    key_to_index_[last_key] = index;\n  }","  keys_[index] = last_key;\n  key_to_index_[last_key] = index;")),
b('uni-ret',(U,"1.0 / static_cast<double>(keys_.size())","1.0 / static_cast<double>(keys_.size() + 1)")),
b('uni-push-first',(U,"  if (!key_to_index_.emplace(key, index).second)\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Key \", key, \" already inserted.\"));\n  keys_.push_back(key);","  keys_.push_back(key);\n  if (!key_to_index_.emplace(key, index).second)\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Key \", key, \" already inserted.\"));")),
b('uni-closed',(U,"absl::Uniform<size_t>(bit_gen_, 0, keys_.size())","absl::Uniform<size_t>(absl::IntervalClosed, bit_gen_, 0, keys_.size())")),
b('uni-upd',(U,"  if (key_to_index_.find(key) == key_to_index_.end())\n    return absl::InvalidArgumentError(absl::StrCat(\"Key \", key, \" not found.\"));\n  return absl::OkStatus();\n}\n\nItem","  return absl::OkStatus();\n}\n\nItem")),
b('heap-upd-sub',(H,"  if (!nodes_.contains(key)) {\n    return absl::InvalidArgumentError(absl::StrCat(\"Key \", key, \" not found.\"));\n  }\n  nodes_[key]->priority","  if (nodes_[key] == nullptr) {\n    return absl::InvalidArgumentError(absl::StrCat(\"Key \", key, \" not found.\"));\n  }\n  nodes_[key]->priority")),
b('heap-sign',(H,"nodes_[key]->priority = priority * sign_;","nodes_[key]->priority = priority;")),
b('heap-adjust-early',(H,"  nodes_[key]->update_number = update_count_++;\n  heap_.Adjust(nodes_[key].get());","  heap_.Adjust(nodes_[key].get());\n  nodes_[key]->update_number = update_count_++;")),
b('heap-clear',(H,"  nodes_.clear();\n  heap_.Clear();","  nodes_.clear();")),
b('heap-tie',(H,"  nodes_[key]->update_number = update_count_++;\n","")),
b('heap-dangling',(H,"  heap_.Remove(it->second.get());\n  nodes_.erase(it);","  HeapNode* node = it->second.get();\n  nodes_.erase(it);\n  heap_.Remove(node);")),
b('heap-cmp',('selectors/heap.h',"(a->update_number < b->update_number)","(a->update_number > b->update_number)")),
b('ih-noadjust',(I,"    heap().pop_back();\n    Adjust(elem);","    heap().pop_back();\n    FixHeapDownX(elem);")) if 0 else b('ih-pos',(I,"    elem = heap().back();\n    SetPositionOf(elem, h);  // Element has moved, so update its link.\n","    elem = heap().back();\n")),
b('ih-adj-none',(I,"    Adjust(elem);  // Restore the heap invariant.\n","")),
b('ih-down-pos',(I,"      heap()[h] = heap()[kid];\n      SetPositionOf(heap()[h], h);","      heap()[h] = heap()[kid];")),
b('ih-up-cmp',(I,"if (compare()(heap()[parent], t)) {","if (compare()(t, heap()[parent])) {")),
b('pri-reset',(P,"    sum_tree_[i].value = 0;\n","")),
b('pri-clear-order',(P,"  for (size_t i = 0; i < key_to_index_.size(); ++i) {\n    sum_tree_[i].sum = 0;\n    sum_tree_[i].value = 0;\n  }\n  key_to_index_.clear();","  key_to_index_.clear();\n  for (size_t i = 0; i < key_to_index_.size(); ++i) {\n    sum_tree_[i].sum = 0;\n    sum_tree_[i].value = 0;\n  }")),
b('pri-late-validate',(P,"  REVERB_RETURN_IF_ERROR(CheckValidPriority(priority));\n  const size_t index = key_to_index_.size();","  const size_t index = key_to_index_.size();"),(P,"  sum_tree_[index].key = key;\n\n","  sum_tree_[index].key = key;\n  REVERB_RETURN_IF_ERROR(CheckValidPriority(priority));\n")),
b('pri-del-erase-first',(P,"  SetNode(last_index, 0);\n  key_to_index_.erase(it);","  key_to_index_.erase(it);\n  SetNode(last_index, 0);")),
b('pri-del-nokey',(P,"    sum_tree_[index].key = last_key;\n","")),
b('pri-del-nozero',(P,"  SetNode(last_index, 0);\n","")),
b('pri-del-noval',(P,"    SetNode(index, NodeValue(last_index));\n","")),
b('pri-del-order',(P,"    SetNode(index, NodeValue(last_index));\n",""),(P,"  SetNode(last_index, 0);\n","  SetNode(last_index, 0);\n  if (index != last_index) SetNode(index, NodeValue(last_index));\n")),
b('pri-raw',(P,"SetNode(it->second, power(priority, priority_exponent_));","SetNode(it->second, priority);")),
b('pri-cap',(P,"    capacity_ *= 2;\n    sum_tree_.resize(capacity_);","    capacity_ *= 2;")),
b('pri-nonan',(P,"  SetNode(index, power(priority, priority_exponent_));\n  return","  return")),
b('pri-stop',(P,"  while (index != 0 && error <= kMaxApproximationError) {","  while (index > 2 && error <= kMaxApproximationError) {")),
b('pri-noreinit',(P,"    ReinitializeSumTree();\n","")),
b('pri-diff',(P,"  const double difference = value - NodeValue(index);\n\n  // The floating point approximation error of the last node update.\n  double error = 0.0;\n\n  // Update the subject node.\n  sum_tree_[index].value = value;","  sum_tree_[index].value = value;\n  const double difference = value - NodeValue(index);\n  double error = 0.0;\n")),
b('pri-reinit-child',(P,"NodeValue(i) + NodeSum(2 * i + 1) + NodeSum(2 * i + 2);","NodeValue(i) + NodeSum(2 * i) + NodeSum(2 * i + 1);")),
b('pri-sum-bound',(P,"index < key_to_index_.size() ? sum","index <= key_to_index_.size() ? sum")),
b('pri-prob',(P,"return {sum_tree_[index].key, picked_weight / total_weight};","return {sum_tree_[index].key, NodeSum(index) / total_weight};")),
b('pri-zero-prob',(P,"return {sum_tree_[pos].key, 1. / size};","return {sum_tree_[pos].key, 1. / capacity_};")),
b('pri-zero-cap',(P,"static_cast<size_t>(target * size)","static_cast<size_t>(target * capacity_)")),
b('pri-nan-check',(P,"  REVERB_RETURN_IF_ERROR(CheckValidPriority(priority));\n  const auto it","  const auto it")),
b('pri-neg',(P,"  if (priority < 0)\n    return absl::InvalidArgumentError(\n        \"Priority must not be negative.\");\n","")),
b('reinit-forward',(P,"for (int64_t i = sum_tree_.size() - 1; i >= 0; --i) {","for (int64_t i = 0; i < static_cast<int64_t>(sum_tree_.size()); ++i) {")),
k('fifo-contains',(F,"  if (key_to_iterator_.find(key) != key_to_iterator_.end()) {\n    return","  if (key_to_iterator_.contains(key)) {\n    return")),
k('fifo-pushback',(F,"  key_to_iterator_.emplace(key, keys_.emplace(keys_.end(), key));","  keys_.push_back(key);\n  key_to_iterator_[key] = std::prev(keys_.end());")),
k('uni-noif-ok',(U,"  key_to_index_.erase(it);\n\n",""),(U,"  if (index != last_index) {\n    keys_[index] = last_key;\n    key_to_index_[last_key] = index;\n  }\n\n  keys_.pop_back();","  keys_[index] = last_key;\n  key_to_index_[last_key] = index;\n  keys_.pop_back();\n  key_to_index_.erase(key);")),
k('uni-swap-ok',(U,"    keys_[index] = last_key;\n","    std::swap(keys_[index], keys_.back());\n")),
k('uni-check-first',(U,"  const size_t index = keys_.size();\n  if (!key_to_index_.emplace(key, index).second)\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Key \", key, \" already inserted.\"));\n  keys_.push_back(key);","  if (key_to_index_.contains(key)) {\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Key \", key, \" already inserted.\"));\n  }\n  keys_.push_back(key);\n  key_to_index_[key] = keys_.size() - 1;")),
k('heap-ref',(H,"  nodes_[key]->priority = priority * sign_;\n  nodes_[key]->update_number = update_count_++;\n  heap_.Adjust(nodes_[key].get());","  HeapNode* node = nodes_[key].get();\n  node->update_number = update_count_++;\n  node->priority = sign_ * priority;\n  heap_.Adjust(node);")),
k('heap-find',(H,"  if (!nodes_.contains(key)) {\n    return absl::InvalidArgumentError(absl::StrCat(\"Key \", key, \" not found.\"));\n  }\n  nodes_[key]->priority = priority * sign_;\n  nodes_[key]->update_number = update_count_++;\n  heap_.Adjust(nodes_[key].get());","  auto it = nodes_.find(key);\n  if (it == nodes_.end()) {\n    return absl::InvalidArgumentError(absl::StrCat(\"Key \", key, \" not found.\"));\n  }\n  it->second->priority = priority * sign_;\n  it->second->update_number = update_count_++;\n  heap_.Adjust(it->second.get());")),
k('heap-local',(H,"  nodes_[key] =\n      absl::make_unique<HeapNode>(key, priority * sign_, update_count_++);\n  heap_.Push(nodes_[key].get());","  auto node = absl::make_unique<HeapNode>(key, priority * sign_, update_count_++);\n  HeapNode* raw = node.get();\n  nodes_.emplace(key, std::move(node));\n  heap_.Push(raw);")),
k('heap-cmp-if',('selectors/heap.h',"      return (a->priority < b->priority) ||\n             ((a->priority == b->priority) &&\n              (a->update_number < b->update_number));","      if (a->priority != b->priority) return a->priority < b->priority;\n      return a->update_number < b->update_number;")),
k('pri-helper',(P,"  sum_tree_[index].key = key;\n\n  SetNode(index, power(priority, priority_exponent_));","  Node& node = sum_tree_[index];\n  node.key = key;\n  const double weight = power(priority, priority_exponent_);\n  SetNode(index, weight);")),
k('pri-early',(P,"  const size_t last_index = key_to_index_.size() - 1;\n  const auto it","  const auto it"),(P,"  const size_t index = it->second;\n\n","  const size_t index = it->second;\n  const size_t last_index = key_to_index_.size() - 1;\n")),
k('pri-clear-while',(P,"  for (size_t i = 0; i < key_to_index_.size(); ++i) {\n    sum_tree_[i].sum = 0;","  const size_t n = key_to_index_.size();\n  for (size_t i = 0; i < n; i++) {\n    sum_tree_[i].sum = 0;")),
k('pri-setnode-for',(P,"  while (index != 0 && error <= kMaxApproximationError) {\n    index = (index - 1) / 2;\n    UPDATE_SUM(index);\n  }","  for (; index > 0;) {\n    if (error > kMaxApproximationError) break;\n    index = (index - 1) / 2;\n    UPDATE_SUM(index);\n  }")),
k('pri-dup-first',(P,"  const size_t index = key_to_index_.size();\n  if (index == capacity_) {\n    capacity_ *= 2;\n    sum_tree_.resize(capacity_);\n  }\n  if (!key_to_index_.try_emplace(key, index).second) {\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Key \", key, \" already inserted.\"));\n  }","  const size_t index = key_to_index_.size();\n  if (!key_to_index_.try_emplace(key, index).second) {\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Key \", key, \" already inserted.\"));\n  }\n  if (index >= capacity_) {\n    capacity_ = 2 * capacity_;\n    sum_tree_.resize(capacity_);\n  }")),
k('pri-order-del',(P,"    SetNode(index, NodeValue(last_index));\n    const Key last_key = sum_tree_[last_index].key;\n    sum_tree_[index].key = last_key;\n    key_to_index_[last_key] = index;","    const Key last_key = sum_tree_[last_index].key;\n    key_to_index_[last_key] = index;\n    sum_tree_[index].key = last_key;\n    SetNode(index, NodeValue(last_index));")),
k('ih-remove-else',(I,"    // Move the element from the back of the heap to overwrite 't'.\n    pointer& elem = heap()[h];\n    elem = heap().back();\n    SetPositionOf(elem, h);","    pointer elem = heap().back();\n    heap()[h] = elem;\n    SetPositionOf(elem, h);")),
k('reinit-acc',(P,"    sum_tree_[i].sum = NodeValue(i) + NodeSum(2 * i + 1) + NodeSum(2 * i + 2);","    const size_t left = 2 * i + 1;\n    const double below = NodeSum(left) + NodeSum(left + 1);\n    sum_tree_[i].sum = below + NodeValue(i);")),
b('hp-remove-down',(I,"    Adjust(elem);  // Restore","    FixHeapDown(elem);  // Restore")),
b('hp-remove-up',(I,"    Adjust(elem);  // Restore","    FixHeapUp(elem);  // Restore")),
b('hp-push-down',(I,"    heap().push_back(t);\n    FixHeapUp(t);","    heap().push_back(t);\n    FixHeapDown(t);")),
b('hp-adjust-up',(I,'''      FixHeapUp(t);
    } else {
      FixHeapDown(t);
    }''','''      FixHeapUp(t);
    }''')),
b('hp-adjust-down',(I,'''    if (h != 0 && compare()(t, heap()[(h - 1) >> 1])) {
      FixHeapUp(t);
    } else {
      FixHeapDown(t);
    }''','''    if (h != 0) FixHeapDown(t);''')),
b('hp-adjust-parent',(I,"heap()[(h - 1) >> 1])","heap()[h >> 1])")),
b('hp-up-parent',(I,"size_type parent = (h - 1) >> 1;","size_type parent = h >> 1;")),
b('hp-up-once',(I,"      h = parent;\n","      h = parent;\n      break;\n")),
b('hp-up-stop1',(I,"    while (h != 0) {","    while (h > 1) {")),
b('hp-up-stop2',(I,"    while (h != 0) {","    while (h > 2) {")),
b('hp-down-kid',(I,"size_type kid = (h << 1) + 1;","size_type kid = (h << 1) + 2;")),
b('hp-down-one',(I,"      if (kid + 1 < heap().size() &&\n          compare()(heap()[kid + 1], heap()[kid])) {\n        ++kid;\n      }\n","")),
b('hp-down-sib',(I,"compare()(heap()[kid + 1], heap()[kid])","compare()(heap()[kid], heap()[kid + 1])")),
b('hp-down-size',(I,"if (kid >= heap().size())","if (kid + 1 >= heap().size())")),
b('hp-down-size2',(I,"if (kid + 1 < heap().size() &&","if (kid + 2 < heap().size() &&")),
b('hp-down-once',(I,"      h = kid;\n","      h = kid;\n      break;\n")),
k('hp-both',(I,"    Adjust(elem);  // Restore","    FixHeapUp(elem); FixHeapDown(elem);  // Restore")),
k('hp-adjust-early',(I,'''    if (h != 0 && compare()(t, heap()[(h - 1) >> 1])) {
      FixHeapUp(t);
    } else {
      FixHeapDown(t);
    }''','''    if (h > 0) {
      pointer above = heap()[(h - 1) / 2];
      if (compare()(t, above)) { FixHeapUp(t); return; }
    }
    FixHeapDown(t);''')),
k('hp-adjust-neg',(I,'''    if (h != 0 && compare()(t, heap()[(h - 1) >> 1])) {
      FixHeapUp(t);
    } else {
      FixHeapDown(t);
    }''','''    const bool top = h == 0;
    const bool in_place = top || compare()(heap()[(h - 1) / 2], t);
    if (in_place) FixHeapDown(t); else FixHeapUp(t);''')),
k('hp-up-while',(I,'''      size_type parent = (h - 1) >> 1;
      if (compare()(heap()[parent], t)) {
        break;
      }
''','''      const size_type parent = (h - 1) / 2;
      pointer above = heap()[parent];
      if (compare()(above, t)) break;
''')),
k('hp-up-for',(I,'''    while (h != 0) {
      size_type parent = (h - 1) >> 1;
      if (compare()(heap()[parent], t)) {
        break;
      }
      heap()[h] = heap()[parent];
      SetPositionOf(heap()[h], h);
      h = parent;
    }''','''    for (size_type parent; h > 0; h = parent) {
      parent = (h - 1) >> 1;
      if (!compare()(t, heap()[parent])) {
        break;
      }
      heap()[h] = heap()[parent];
      SetPositionOf(heap()[h], h);
    }''')),
k('hp-down-while',(I,'''    for (;;) {
      size_type kid = (h << 1) + 1;
      if (kid >= heap().size()) {
        break;
      }
      if (kid + 1 < heap().size() &&
          compare()(heap()[kid + 1], heap()[kid])) {
        ++kid;
      }
      if (compare()(t, heap()[kid])) {
        break;
      }
''','''    const size_type n = heap().size();
    while (2 * h + 1 < n) {
      const size_type left = 2 * h + 1;
      const size_type right = left + 1;
      size_type kid = left;
      if (right < n && compare()(heap()[right], heap()[left])) kid = right;
      if (!compare()(heap()[kid], t)) break;
''')),
k('hp-down-tern',(I,'''      if (kid + 1 < heap().size() &&
          compare()(heap()[kid + 1], heap()[kid])) {
        ++kid;
      }
      if (compare()(t, heap()[kid])) {
        break;
      }
''','''      const size_type second = kid + 1;
      if (second < heap().size()) {
        kid = compare()(heap()[second], heap()[kid]) ? second : kid;
      }
      pointer child = heap()[kid];
      if (compare()(t, child)) {
        break;
      }
''')),
k('hp-down-left',(I,"size_type kid = (h << 1) + 1;","size_type kid = 2 * (h + 1) - 1;")),
k('hp-down-helper',(I,'''      if (kid + 1 < heap().size() &&
          compare()(heap()[kid + 1], heap()[kid])) {
        ++kid;
      }
''','''      kid = Smaller(kid);
'''),(I,'''  void FixHeapDown(pointer t) {''','''  size_type Smaller(size_type kid) {
    if (kid + 1 < heap().size() &&
        compare()(heap()[kid + 1], heap()[kid])) {
      return kid + 1;
    }
    return kid;
  }

  void FixHeapDown(pointer t) {''')),
]
