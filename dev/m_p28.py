def b(n,*e): return (n,['P28'],'bad',list(e))
def k(n,*e): return (n,['P28'],'ok',list(e))
Q='support/queue.h'; U='support/unbounded_queue.h'; TE='support/task_executor.cc'; TWk='task_worker.h'
M=[
 b('push-cap-le',(Q,'q->pushes_ - q->pops_ < q->buffer_.size();','q->pushes_ - q->pops_ <= q->buffer_.size();')),
 b('push-cap-minus1',(Q,'q->pushes_ - q->pops_ < q->buffer_.size();','q->pushes_ - q->pops_ + 1 < q->buffer_.size();')),
 b('push-nolast-wait',(Q,'q->closed_ || q->last_item_pushed_ ||\n                 q->pushes_','q->closed_ ||\n                 q->pushes_')),
 b('push-after-last',(Q,'if (closed_ || last_item_pushed_) return false;\n    buffer_[','if (closed_) return false;\n    buffer_[')),
 b('push-index',(Q,'buffer_[pushes_ % buffer_.size()] = std::move(x);\n    ++pushes_;','++pushes_;\n    buffer_[pushes_ % buffer_.size()] = std::move(x);')),
 b('push-nocount',(Q,'    ++pushes_;\n','    if (pops_ < pushes_) ++pushes_;\n')),
 b('pop-index',(Q,'*item = std::move(buffer_[pops_ % buffer_.size()]);\n    pops_++;','pops_++;\n    *item = std::move(buffer_[pops_ % buffer_.size()]);')),
 b('pop-wait',(Q,'return q->closed_ || q->pushes_ > q->pops_; }','return q->closed_ || q->pushes_ >= q->pops_; }')),
 b('pop-wait-last',(Q,'return q->closed_ || q->pushes_ > q->pops_; }','return q->closed_ || q->last_item_pushed_ || q->pushes_ > q->pops_ + 1; }')),
 b('pop-noclose',(Q,'    if (pushes_ == pops_ && last_item_pushed_) {\n      closed_ = true;\n    }\n    return true;','    return true;')),
 b('pop-close-early',(Q,'    if (pushes_ == pops_ && last_item_pushed_) {\n      closed_ = true;\n    }\n    return true;','    if (last_item_pushed_) {\n      closed_ = true;\n    }\n    return true;')),
 b('pop-close-off',(Q,'    if (pushes_ == pops_ && last_item_pushed_) {\n      closed_ = true;\n    }\n    return true;','    if (pushes_ == pops_ + 1 && last_item_pushed_) {\n      closed_ = true;\n    }\n    return true;')),
 b('pop-close-nolast',(Q,'    if (pushes_ == pops_ && last_item_pushed_) {\n      closed_ = true;\n    }\n    return true;','    if (pushes_ == pops_) {\n      closed_ = last_item_pushed_ || closed_ || pops_ % 2 == 1;\n    }\n    return true;')),
 b('last-noclose',(Q,'    last_item_pushed_ = true;\n    if (pushes_ == pops_) {\n      closed_ = true;\n    }','    last_item_pushed_ = true;')),
 b('last-close',(Q,'    last_item_pushed_ = true;\n    if (pushes_ == pops_) {\n      closed_ = true;\n    }','    last_item_pushed_ = true;\n    closed_ = true;')),
 b('batch-gt',(Q,'return closed_ || pushes_ - pops_ >= batch_size || last_item_pushed_;','return closed_ || pushes_ - pops_ > batch_size || last_item_pushed_;')),
 b('batch-nolast',(Q,'return closed_ || pushes_ - pops_ >= batch_size || last_item_pushed_;','return closed_ || pushes_ - pops_ >= batch_size;')),
 b('batch-cap',(Q,'if (batch_size > buffer_.size()) {','if (batch_size >= buffer_.size()) {')),
 b('batch-nocap',(Q,'if (batch_size > buffer_.size()) {','if (batch_size > buffer_.size() && batch_size < 0) {')),
 b('batch-loop',(Q,'for (int i = 0; i < batch_size; i++) {\n      out','for (int i = 1; i < batch_size; i++) {\n      out')),
 b('batch-noadvance',(Q,'      out->push_back(std::move(buffer_[pops_ % buffer_.size()]));\n      pops_++;','      pops_++;\n      out->push_back(std::move(buffer_[pops_ % buffer_.size()]));')),
 b('batch-partial',(Q,'if (pushes_ - pops_ < batch_size) {','if (pushes_ == pops_) {')),
 b('batch-noclose',(Q,'    if (pops_ == pushes_ && last_item_pushed_) {\n      closed_ = true;\n    }\n','')),
 b('batch-order',(Q,'''    if (closed_) {
      return absl::CancelledError("Queue is closed.");
    }

    if (pushes_''','''    if (pushes_''')),
 k('k-batch-timeout-drop',(Q,'&&\n        !last_item_pushed_ && !closed_) {','&& !closed_) {')),
 b('u-push',(U,'if (closed_ || last_item_pushed_) return false;\n    buffer_','if (closed_) return false;\n    buffer_')),
 b('u-size',(U,'    size_--;\n','    if (!last_item_pushed_) size_--;\n')),
 b('u-pop-order',(U,'    *item = std::move(buffer_.front());\n    buffer_.pop();','    buffer_.pop();\n    *item = std::move(buffer_.front());')),
 b('u-wait',(U,'return q->closed_ || q->size_ > 0; }','return q->closed_ || q->size_ > 1; }')),
 b('u-noclose',(U,'if (buffer_.empty() && last_item_pushed_) {','if (buffer_.empty() && size_ > 0 && last_item_pushed_) {')),
 b('u-last',(U,'    if (buffer_.empty()) {\n      closed_ = true;\n    }','    if (!buffer_.empty()) {\n      closed_ = true;\n    }')),
 b('te-order',(TE,'  queue_.SetLastItemPushed();\n  while (queue_.Pop(&callback)) {\n    callback();\n  }\n','  queue_.Close();\n')),
 b('te-lost',(TE,'void TaskExecutor::RunWorker() {\n  std::function<void()> callback;\n  while (queue_.Pop(&callback)) {\n    callback();','void TaskExecutor::RunWorker() {\n  std::function<void()> callback;\n  while (queue_.Pop(&callback)) {\n    if (threads_.empty()) continue;\n    callback();')),
 b('te-drop-sched',(TE,'  queue_.Push(std::move(callback));','  if (queue_.size() < 100000) queue_.Push(std::move(callback));')),
 b('tw-nocancel',(TWk,'''  while (queue_.Pop(&task)) {
    task.callback(std::move(task.task_info),
                  absl::CancelledError("Task queue is closed."),
                  /*enough_queue_slots=*/false);
  }''','''  while (queue_.Pop(&task)) {
  }''')),
 b('two-sections',(Q,'''    mu_.Await(absl::Condition(+[](Queue* q) {
        return q->closed_ || q->pushes_ > q->pops_; }, this));
    if (closed_) return false;
    *item''','''    mu_.Await(absl::Condition(+[](Queue* q) {
        return q->closed_ || q->pushes_ > q->pops_; }, this));
    if (closed_) return false;
    mu_.Unlock();
    mu_.Lock();
    *item''')),
 # --- behaviour preserving
 k('k-helper',(Q,'    if (closed_ || last_item_pushed_) return false;\n    buffer_[','    if (!Accepting()) return false;\n    buffer_['),(Q,' private:\n  mutable absl::Mutex mu_;',' private:\n  bool Accepting() const { return !closed_ && !last_item_pushed_; }\n\n  mutable absl::Mutex mu_;')),
 k('k-index-local',(Q,'buffer_[pushes_ % buffer_.size()] = std::move(x);\n    ++pushes_;','const auto slot = pushes_ % buffer_.size();\n    pushes_ += 1;\n    buffer_[slot] = std::move(x);')),
 k('k-ref-slot',(Q,'*item = std::move(buffer_[pops_ % buffer_.size()]);\n    pops_++;','auto& slot = buffer_[pops_ % buffer_.size()];\n    *item = std::move(slot);\n    ++pops_;')),
 k('k-cond-lambda',(Q,'''    mu_.Await(absl::Condition(+[](Queue* q) {
        return q->closed_ || q->pushes_ > q->pops_; }, this));''','''    auto ready = [this]() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
      return closed_ || pushes_ - pops_ > 0;
    };
    mu_.Await(absl::Condition(&ready));''')),
 k('k-close-helper',(Q,'    if (pushes_ == pops_ && last_item_pushed_) {\n      closed_ = true;\n    }\n    return true;','    CloseIfDrained();\n    return true;'),(Q,' private:\n  mutable absl::Mutex mu_;',' private:\n  void CloseIfDrained() {\n    if (!last_item_pushed_) return;\n    if (pushes_ != pops_) return;\n    closed_ = true;\n  }\n\n  mutable absl::Mutex mu_;')),
 k('k-batch-while',(Q,'for (int i = 0; i < batch_size; i++) {\n      out->push_back(std::move(buffer_[pops_ % buffer_.size()]));\n      pops_++;\n    }','int i = 0;\n    while (i < batch_size) {\n      out->push_back(std::move(buffer_[pops_++ % buffer_.size()]));\n      i++;\n    }')),
 k('k-batch-down',(Q,'for (int i = 0; i < batch_size; i++) {\n      out','for (int i = batch_size; i > 0; i--) {\n      out')),
 k('k-batch-index',(Q,'''    for (int i = 0; i < batch_size; i++) {
      out->push_back(std::move(buffer_[pops_ % buffer_.size()]));
      pops_++;
    }''','''    for (int i = 0; i < batch_size; i++) {
      out->push_back(std::move(buffer_[(pops_ + i) % buffer_.size()]));
    }
    pops_ += batch_size;''')),
 k('k-batch-order',(Q,'''    if (!mu_.AwaitWithTimeout(absl::Condition(&trigger), timeout) &&
        !last_item_pushed_ && !closed_) {''','''    const bool triggered = mu_.AwaitWithTimeout(absl::Condition(&trigger), timeout);
    if (!triggered) {''')),
 k('k-u-size',(U,'q->closed_ || q->size_ > 0;','q->size_ != 0 || q->closed_;')),
 k('k-u-local',(U,'    *item = std::move(buffer_.front());\n    buffer_.pop();\n    size_--;','    T head = std::move(buffer_.front());\n    --size_;\n    buffer_.pop();\n    *item = std::move(head);')),
 k('k-last',(Q,'    last_item_pushed_ = true;\n    if (pushes_ == pops_) {\n      closed_ = true;\n    }','    closed_ = closed_ || pushes_ == pops_;\n    last_item_pushed_ = true;')),
 k('k-te-loop',(TE,'void TaskExecutor::RunWorker() {\n  std::function<void()> callback;\n  while (queue_.Pop(&callback)) {\n    callback();\n  }','void TaskExecutor::RunWorker() {\n  while (true) {\n    std::function<void()> callback;\n    if (!queue_.Pop(&callback)) break;\n    callback();\n  }')),
 k('k-te-drain',(TE,'  while (queue_.Pop(&callback)) {\n    callback();\n  }\n  threads_.clear();  // Joins worker threads.','  DrainQueue();\n  threads_.clear();  // Joins worker threads.'),(TE,'void TaskExecutor::Close() {\n  std::function<void()> callback;\n','void TaskExecutor::DrainQueue() {\n  std::function<void()> callback;\n  while (queue_.Pop(&callback)) {\n    callback();\n  }\n}\n\nvoid TaskExecutor::Close() {\n'),('support/task_executor.h','  void RunWorker();','  void RunWorker();\n  void DrainQueue();')),
]
