// Roots for NamedThread.
#include "common/base/Base.h"
#define private public
#include "common/thread/NamedThread.h"
#undef private
#include <new>
using nebula::thread::NamedThread; using Nom = NamedThread::Nominator;
#define X extern "C"
X uint64_t vc_nom_size() { return sizeof(Nom); } X uint64_t vc_str_size() { return sizeof(std::string); } X uint64_t vc_fn_size() { return sizeof(std::function<void()>); } X uint64_t vc_thread_size() { return sizeof(NamedThread); }
X void vc_nom_ctor(Nom* p, const std::string* n) { new (p) Nom(*n); } X void vc_nom_dtor(Nom* p) { p->~Nom(); } X void vc_nom_set(const std::string* n) { Nom::set(*n); } X void vc_nom_get(std::string* n) { Nom::get(*n); }
X void vc_hook(const std::string* n, const std::function<void()>* f) { NamedThread::hook(*n, *f); }
struct F0 { long x; void operator()() const; };
X void vc_thread_ctor(NamedThread* p, const std::string* n, const F0* f) { new (p) NamedThread(*n, *f); }
X int vc_gettid() { return nebula::thread::gettid(); }
