// Roots for TempFile, TempDir.
#include "common/base/Base.h"
#include "common/fs/TempFile.h"
#include "common/fs/TempDir.h"
#include <new>
using nebula::fs::TempFile; using nebula::fs::TempDir;
#define X extern "C"
X uint64_t vc_file_size() { return sizeof(TempFile); } X uint64_t vc_dir_size() { return sizeof(TempDir); }
X void vc_file_ctor(TempFile* p, const char* t, bool d) { new (p) TempFile(t, d); } X void vc_file_ctor1(TempFile* p, const char* t) { new (p) TempFile(t); } X void vc_file_dtor(TempFile* p) { p->~TempFile(); } X const char* vc_file_path(const TempFile* p) { return p->path(); }
X void vc_dir_ctor(TempDir* p, const char* t, bool d) { new (p) TempDir(t, d); } X void vc_dir_ctor1(TempDir* p, const char* t) { new (p) TempDir(t); } X void vc_dir_dtor(TempDir* p) { p->~TempDir(); } X const char* vc_dir_path(const TempDir* p) { return p->path(); }
