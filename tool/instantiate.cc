// Instantiates the library's class templates completely so that members that
// the library itself happens not to call are analysed as well.
#include <functional>
#include <memory>

#include "reverb/cc/support/queue.h"
#include "reverb/cc/support/unbounded_queue.h"
#include "reverb/cc/task_worker.h"

template class deepmind::reverb::internal::Queue<std::unique_ptr<int>>;
template class deepmind::reverb::internal::UnboundedQueue<std::unique_ptr<int>>;
template class deepmind::reverb::TaskWorker<deepmind::reverb::InsertTaskInfo, deepmind::reverb::InsertCallback>;
