#include "common/base/Base.h"
#include "common/base/StatusOr.h"
#include <boost/optional.hpp>
#include <list>
// key and value: types of which nothing but special members, equality and hash is known
struct Key { Key(const Key&); Key(Key&&); Key& operator=(const Key&); Key& operator=(Key&&); ~Key(); long a[1]; };
bool operator==(const Key&, const Key&);
struct Val { Val(const Val&); Val(Val&&); Val& operator=(const Val&); Val& operator=(Val&&); ~Val(); long a[2]; };
namespace std { template <> struct hash<Key> { size_t operator()(const Key&) const; }; }
#include "common/base/ConcurrentLRUCache.h"
using namespace nebula;
using L = LRU<Key, Val>; using C = ConcurrentLRUCache<Key, Val>; using B = C::Bucket; using O = boost::optional<Val>; using S = StatusOr<Val>; using T = std::tuple<Val, L::list_type::iterator>; using I = L::list_type::iterator;
#define X extern "C"
X void vc_lctor(L* p, size_t n) { new (p) L(n); }
X void* vc_l_map(L* p) { return &p->map_; }
X void* vc_l_list(L* p) { return &p->list_; }
X uint64_t* vc_l_cap(L* p) { return &p->capacity_; }
X uint64_t* vc_l_total(L* p) { return &p->total_; }
X uint64_t* vc_l_hits(L* p) { return &p->hits_; }
X uint64_t* vc_l_evicts(L* p) { return &p->evicts_; }
X uint64_t vc_lsize() { return sizeof(L); }
X uint64_t vc_csize() { return sizeof(C); }
X uint64_t vc_bsize() { return sizeof(B); }
X uint64_t vc_osize() { return sizeof(O); }
X uint64_t vc_ssize() { return sizeof(S); }
X uint64_t vc_tsize() { return sizeof(T); }
X void* vc_t_val(T* t) { return &std::get<0>(*t); }
X void* vc_t_it(T* t) { return &std::get<1>(*t); }
X void* vc_pair_first(std::pair<const Key, T>* t) { return const_cast<Key*>(&t->first); }
X void* vc_pair_second(std::pair<const Key, T>* t) { return &t->second; }
X bool vc_ohas(O* o) { return o->is_initialized(); }
X Val* vc_oval(O* o) { return o->get_ptr(); }
X void vc_osome(O* o, Val* v) { new (o) O(*v); }
X void vc_onone(O* o) { new (o) O(boost::none); }
// LRU
X size_t vc_size(L* p) { return p->size(); }
X size_t vc_capacity(L* p) { return p->capacity(); }
X bool vc_empty(L* p) { return p->empty(); }
X bool vc_contains(L* p, Key* k) { return p->contains(*k); }
X void vc_insert(L* p, Key* k, Val* v) { p->insert(std::move(*k), std::move(*v)); }
X void vc_get(O* o, L* p, Key* k) { new (o) O(p->get(*k)); }
X void vc_evict(L* p, Key* k) { p->evict(*k); }
X void vc_clear(L* p) { p->clear(); }
X uint64_t vc_total(L* p) { return p->total(); }
X uint64_t vc_hits(L* p) { return p->hits(); }
X uint64_t vc_evicts(L* p) { return p->evicts(); }
// the cache
X void vc_cctor(C* p, size_t n, uint32_t e) { new (p) C(n, e); }
X void* vc_c_buckets(C* p) { return &p->buckets_; }
X uint32_t* vc_c_num(C* p) { return &p->bucketsNum_; }
X uint32_t* vc_c_exp(C* p) { return &p->bucketsExp_; }
X void* vc_b_lock(B* p) { return &p->lock_; }
X void* vc_b_lru(B* p) { return &p->lru_; }
X void vc_bctor(B* p, size_t n) { new (p) B(n); }
X void vc_bmove(B* p, B* q) { new (p) B(std::move(*q)); }
X bool vc_ccontains(C* p, Key* k, int32_t h) { return p->contains(*k, h); }
X void vc_cinsert(C* p, Key* k, Val* v, int32_t h) { p->insert(std::move(*k), std::move(*v), h); }
X void vc_cget(S* s, C* p, Key* k, int32_t h) { new (s) S(p->get(*k, h)); }
X void vc_cput(S* s, C* p, Key* k, Val* v, int32_t h) { new (s) S(p->putIfAbsent(std::move(*k), std::move(*v), h)); }
X void vc_cevict(C* p, Key* k, int32_t h) { p->evict(*k, h); }
X void vc_cclear(C* p) { p->clear(); }
X uint64_t vc_ctotal(C* p) { return p->total(); }
X uint64_t vc_chits(C* p) { return p->hits(); }
X uint64_t vc_cevicts(C* p) { return p->evicts(); }
X bool vc_sok(S* s) { return s->ok(); }
X Val* vc_sval(S* s) { return &s->value(); }
X void vc_sstatus(Status* o, S* s) { new (o) Status(std::as_const(*s).status()); }
X bool vc_sisinserted(Status* s) { return s->isInserted(); }
