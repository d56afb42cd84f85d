// Instantiates the header-only templates so that the analysis sees their members.
#include "tkrzw_index.h"
#include "tkrzw_containers.h"
#include "tkrzw_thread_util.h"
#include "tkrzw_langc.h"
#include "tkrzw_key_comparators.h"
#include "tkrzw_dbm_async.h"

namespace tkrzw {
template class LinkedHashMap<std::basic_string<char>, std::basic_string<char>>;
template class LRUCache<std::basic_string<char>>;
template class DoubleLRUCache<std::basic_string<char>>;
template class AtomicSet<std::basic_string<char>>;
template class StdIndex<std::basic_string<char>, std::basic_string<char>>;
template class SlottedMutex<std::shared_mutex>;
template class HashMutex<SpinSharedMutex>;
template class HashMutex<std::shared_mutex>;
template class KeySignalBroker<std::basic_string<char>>;

void WitnessAsync(AsyncDBM* async, std::string_view key) {
  async->Process(key, std::make_unique<AsyncDBM::RecordProcessor>(), true);
  async->ProcessFirst(std::make_unique<AsyncDBM::RecordProcessor>(), true);
  async->ProcessEach(std::make_unique<AsyncDBM::RecordProcessor>(), true);
  async->ProcessMulti(
      std::vector<std::pair<std::string_view, std::shared_ptr<AsyncDBM::RecordProcessor>>>(), true);
}
}  // namespace tkrzw
