#pragma once
// Stand-in for absl::Mutex. Every operation is a scheduling point that the
// harness may intercept (shim::mutex_hooks); without hooks it is a plain lock.
#include <mutex>
#include "absl/base/thread_annotations.h"
namespace absl { class Mutex; }
namespace shim {
struct MutexHooks {
  virtual ~MutexHooks() = default;
  virtual void Lock(const void* m, bool shared) = 0;
  virtual bool TryLock(const void* m) = 0;
  virtual void Unlock(const void* m, bool shared) = 0;
};
inline MutexHooks* mutex_hooks = nullptr;
}
namespace absl {
class ABSL_LOCKABLE Mutex {
 public:
  Mutex() = default;
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { if (::shim::mutex_hooks) ::shim::mutex_hooks->Lock(this, false); else mu_.lock(); }
  bool TryLock() { return ::shim::mutex_hooks ? ::shim::mutex_hooks->TryLock(this) : mu_.try_lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { if (::shim::mutex_hooks) ::shim::mutex_hooks->Unlock(this, false); else mu_.unlock(); }
  void ReaderLock() { if (::shim::mutex_hooks) ::shim::mutex_hooks->Lock(this, true); else mu_.lock(); }
  void ReaderUnlock() { if (::shim::mutex_hooks) ::shim::mutex_hooks->Unlock(this, true); else mu_.unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
 private:
  std::mutex mu_;
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private: Mutex* m_;
};
class ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) : m_(m) { m_->ReaderLock(); }
  ~ReaderMutexLock() { m_->ReaderUnlock(); }
 private: Mutex* m_;
};
using WriterMutexLock = MutexLock;
class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }
 private: Mutex* m_;
};
}
