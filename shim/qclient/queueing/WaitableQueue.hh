// Stand-in for qclient::WaitableQueue: FIFO with a consumer-side frontier that can
// block for the next item.
#ifndef SHIM_QCLIENT_WAITABLE_QUEUE_HH
#define SHIM_QCLIENT_WAITABLE_QUEUE_HH
#include <condition_variable>
#include <deque>
#include <mutex>
namespace qclient {
template<typename T, size_t BlockSize>
class WaitableQueue {
public:
  class Iterator {
  public:
    Iterator(WaitableQueue *q, size_t s) : queue(q), seq(s) {}
    T* getItemBlockOrNull() {
      std::unique_lock<std::mutex> lock(queue->mtx);
      while(queue->blocking && seq >= queue->firstSeq + queue->items.size()) queue->cv.wait(lock);
      if(seq >= queue->firstSeq + queue->items.size()) return nullptr;
      return &queue->items[seq - queue->firstSeq];
    }
    void next() { seq++; }
    size_t getCurrentSequenceNumber() const { return seq; }
  private:
    WaitableQueue *queue;
    size_t seq;
  };
  Iterator begin() { std::unique_lock<std::mutex> lock(mtx); return Iterator(this, firstSeq); }
  template<typename... Args>
  int64_t emplace_back(Args&&... args) {
    std::unique_lock<std::mutex> lock(mtx);
    items.emplace_back(std::forward<Args>(args)...);
    cv.notify_all();
    return firstSeq + items.size() - 1;
  }
  void pop_front() { std::unique_lock<std::mutex> lock(mtx); items.pop_front(); firstSeq++; }
  void setBlockingMode(bool val) { std::unique_lock<std::mutex> lock(mtx); blocking = val; cv.notify_all(); }
  size_t size() { std::unique_lock<std::mutex> lock(mtx); return items.size(); }
private:
  std::mutex mtx;
  std::condition_variable cv;
  std::deque<T> items;
  size_t firstSeq = 0;
  bool blocking = true;
};
}
#endif
