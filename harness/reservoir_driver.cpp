#include "common/base/Base.h"
#include "common/algorithm/ReservoirSampling.h"
// the element: a type of which nothing but its special members is known
struct Sample { Sample(const Sample&); Sample(Sample&&); Sample& operator=(const Sample&); Sample& operator=(Sample&&); ~Sample(); long a[2]; };
using R = nebula::algorithm::ReservoirSampling<Sample>;
#define X extern "C"
X void vc_ctor(R* p, uint64_t n) { new (p) R(n); }
X bool vc_sampling(R* p, Sample* s) { return p->sampling(std::move(*s)); }
X std::vector<Sample>* vc_samples(R* p) { std::vector<Sample>&& v = std::move(*p).samples(); return &v; }
X void* vc_vec(R* p) { return &p->samples_; }
X uint64_t* vc_cnt(R* p) { return &p->cnt_; }
X uint64_t* vc_num(R* p) { return &p->num_; }
X uint64_t vc_size() { return sizeof(R); }
