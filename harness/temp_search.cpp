// TempFile and TempDir against recording stand-ins for mkstemp, mkdtemp, close, unlink and FileUtils::remove: nothing real is created or removed.
#include "common/base/Base.h"
#include "common/fs/TempFile.h"
#include "common/fs/TempDir.h"
#include <string>
#include <vector>
#include <sys/syscall.h>
static bool on = false, failNext = false; static int fail_errno = EINVAL; static int made = 0, fds = 0, closes = 0, nextfd = 1000, badclose = 0; static std::vector<std::string> removed; static std::string last, tried; static std::set<int> open_;
static char* create(char* p) { tried = p; size_t n = strlen(p); if (failNext || n < 6 || strcmp(p + n - 6, "XXXXXX")) { errno = fail_errno; return nullptr; } static int seq = 0; char b[8]; snprintf(b, 8, "q%05d", seq++ % 100000); memcpy(p + n - 6, b, 6); last = p; made++; return p; }
extern "C" int mkstemp(char* p) { if (!create(p)) return -1; fds++; open_.insert(nextfd); return nextfd++; }
extern "C" char* mkdtemp(char* p) noexcept { return create(p); }
extern "C" int close(int fd) { if (!on) return syscall(SYS_close, fd); closes++; if (!open_.erase(fd)) badclose++; return 0; }
extern "C" int unlink(const char* p) noexcept { removed.push_back(p); return 0; }
extern "C" int remove(const char* p) noexcept { removed.push_back(p); return 0; }
extern "C" int rmdir(const char* p) noexcept { removed.push_back(std::string("rmdir:") + p); return 0; }
static bool recursive = true;
namespace nebula { namespace fs { bool FileUtils::remove(const char* p, bool r) { removed.push_back(p); recursive = recursive && r; return true; }
std::string FileUtils::joinPath(const folly::StringPiece d, const folly::StringPiece f) { return std::string(d.data(), d.size()) + "/" + std::string(f.data(), f.size()); } } }
static int bad = 0; static void fail(const char* k, const char* m, const std::string& x = "") { printf("FAIL %s: %s %s\n", k, m, x.c_str()); bad = 1; }
static void reset() { made = fds = closes = badclose = 0; removed.clear(); last = tried = ""; open_.clear(); recursive = true; }
template <class T> static void run(const char* k, bool dir, const std::string& tmpl, bool willFail, int del) {
  reset(); failNext = willFail; bool thrown = false; const std::string copy = tmpl; bool create_ok = !willFail && tmpl.size() >= 6 && tmpl.substr(tmpl.size() - 6) == "XXXXXX";
  on = true;
  try {
    std::unique_ptr<T> t(del < 0 ? new T(tmpl.c_str()) : new T(tmpl.c_str(), del != 0));
    if (!removed.empty()) fail(k, "something is removed by the constructor", removed[0]);
    if (!create_ok && !dir) fail(k, "a failed creation is not reported", tmpl);
    if (create_ok) { if (!t->path() || last != t->path()) fail(k, "path() is not the created name", t->path() ? t->path() : "(null)"); } else if (t->path()) fail(k, "a path after a failed creation", t->path());
    if (tried != copy) fail(k, "another template was used", tried);
    if (closes != fds || badclose) fail(k, "descriptors left open or closed twice");
  } catch (const std::runtime_error&) { thrown = true; if (create_ok || dir) fail(k, "unexpected exception", tmpl); }
  on = false;
  if (closes != fds || badclose) fail(k, "descriptors left open or closed twice (end)");
  bool want = create_ok && del != 0;
  if (removed.size() != (want ? 1u : 0u)) fail(k, want ? "the created name is not removed exactly once" : "something is removed", removed.empty() ? "" : removed[0]);
  else if (want && removed[0] != last) fail(k, "another name is removed", removed[0]);
  if (dir && !recursive) fail(k, "the directory is removed without its contents");
  if (made != (create_ok ? 1 : 0)) fail(k, "number of creations");
}
int main() {
  FLAGS_minloglevel = 3;
  std::vector<std::string> ts = {"/nowhere/t.XXXXXX", "XXXXXX", "aXXXXXX", "/tmp/abc", "", "XXXXX", "/nowhere/XXXXXX.d"};
  for (int n : {7, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 255, 256, 257, 1023, 4095, 5000}) ts.push_back(std::string(n, 'p') + "XXXXXX");
  for (auto& t : ts) for (int f = 0; f < 2; f++) for (int d = -1; d < 2; d++) for (int e : {EINVAL, ENOENT, EACCES, EEXIST, EMFILE, ENOSPC, EROFS, EINTR, 0}) for (int n : {0, 1, 2, 3, 1000}) { fail_errno = e; nextfd = n; run<nebula::fs::TempFile>("TempFile", false, t, f, d); run<nebula::fs::TempDir>("TempDir", true, t, f, d); }
  if (!bad) printf("OK\n"); return bad;
}
