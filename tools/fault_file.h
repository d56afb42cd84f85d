// A file which fails on request: the N-th operation of the chosen kinds returns SYSTEM_ERROR.
#pragma once
#include "tkrzw_lib_common.h"
#include "tkrzw_file.h"
#include "tkrzw_file_pos.h"
#include <set>
#include <string>
struct Fault {
  static inline int64_t count = 0;       // matching operations so far
  static inline int64_t fail_at = -1;    // fails when count reaches it
  static inline bool forever = false;
  static inline int64_t fired = 0;
  static inline std::string kinds = "w"; // r, w, e(xpand), t(runcate), s(ync), n(rename), a(ppend), c(lose)
  static inline std::vector<std::string> log;
  static bool Hit(char k) {
    log.push_back(std::string(1, k));
    if (kinds.find(k) == std::string::npos) return false;
    count++;
    if (fail_at >= 0 && (count == fail_at || (forever && count > fail_at))) { fired++; return true; }
    return false;
  }
  static void Arm(const std::string& k, int64_t n, bool f = false) { kinds = k; fail_at = n; count = 0; fired = 0; forever = f; log.clear(); }
  static void Disarm() { fail_at = -1; count = 0; }
};
class FaultFile : public tkrzw::File {
 public:
  using Status = tkrzw::Status;
  FaultFile() : f_(new tkrzw::PositionalParallelFile) {}
  static Status Bad() { return Status(Status::SYSTEM_ERROR, "injected"); }
  Status Open(const std::string& path, bool writable, int32_t options) override { return f_->Open(path, writable, options); }
  Status Close() override { Status s = f_->Close(); return Fault::Hit('c') ? Bad() : s; }
  Status Read(int64_t off, void* buf, size_t size) override { return Fault::Hit('r') ? Bad() : f_->Read(off, buf, size); }
  Status Write(int64_t off, const void* buf, size_t size) override { return Fault::Hit('w') ? Bad() : f_->Write(off, buf, size); }
  Status Append(const void* buf, size_t size, int64_t* off) override { return Fault::Hit('a') ? Bad() : f_->Append(buf, size, off); }
  Status Expand(size_t inc, int64_t* old) override { return Fault::Hit('e') ? Bad() : f_->Expand(inc, old); }
  Status Truncate(int64_t size) override { return Fault::Hit('t') ? Bad() : f_->Truncate(size); }
  Status TruncateFakely(int64_t size) override { return Fault::Hit('t') ? Bad() : f_->TruncateFakely(size); }
  Status Synchronize(bool hard, int64_t off, int64_t size) override { return Fault::Hit(hard ? 'S' : 's') ? Bad() : f_->Synchronize(hard, off, size); }
  Status GetSize(int64_t* size) override { return f_->GetSize(size); }
  Status SetAllocationStrategy(int64_t i, double f) override { return f_->SetAllocationStrategy(i, f); }
  Status CopyProperties(File* file) override { return f_->CopyProperties(file); }
  Status GetPath(std::string* path) override { return f_->GetPath(path); }
  Status Rename(const std::string& p) override { return Fault::Hit('n') ? Bad() : f_->Rename(p); }
  Status DisablePathOperations() override { return f_->DisablePathOperations(); }
  bool IsOpen() const override { return f_->IsOpen(); }
  bool IsMemoryMapping() const override { return false; }
  bool IsAtomic() const override { return false; }
  std::unique_ptr<File> MakeFile() const override { return std::make_unique<FaultFile>(); }
 private:
  std::unique_ptr<tkrzw::PositionalParallelFile> f_;
};
