// random initialisation of everything it supports
#include "random_init_base.h"
#include "w_rand.h"
#include "w_rand.cd"
#include "classdesc_epilogue.h"
#if __cplusplus>=201103L
#include <memory>
#include <array>
#endif
using namespace classdesc;
// where the array members of Arrays are, and how many elements they have
extern const long w_extents[];
#define AT(m,n) __builtin_offsetof(Arrays,m), n
const long w_extents[]={AT(a,3),AT(b,4),AT(e,2),AT(d,6),AT(s,120),AT(c,7)};
double w_rand(random_init_t& r) {return r.random_init_t::rand();}
#define NUM(n,T) void w_num_##n(random_init_t& r, T& x) {random_init(r,"",x);}
NUM(bool,bool) NUM(char,char) NUM(schar,signed char) NUM(uchar,unsigned char) NUM(short,short) NUM(ushort,unsigned short)
NUM(int,int) NUM(uint,unsigned) NUM(long,long) NUM(ulong,unsigned long) NUM(longlong,long long) NUM(ulonglong,unsigned long long) NUM(wchar_t,wchar_t)
NUM(float,float) NUM(double,double) NUM(longdouble,long double)
void w_enum(random_init_t& r, Three& x) {random_init(r,"",x);}
void w_members(random_init_t& r, Members& x) {random_init(r,"",x);}
void w_arrays(random_init_t& r, Arrays& x) {random_init(r,"",x);}
typedef std::pair<int,Three> Pair;
extern const long w_members_members[], w_pair_members[];
#define OF(T,m,k) __builtin_offsetof(T,m), k
const long w_members_members[]={OF(Members,b,0),OF(Members,i,1),OF(Members,c,2),OF(Members,e,3),OF(Members,d,4)};
const long w_pair_members[]={OF(Pair,first,1),OF(Pair,second,3)};
void w_pair(random_init_t& r, Pair& x) {random_init(r,"",x);}
void w_string(random_init_t& r, std::string& x) {random_init(r,"",x);}
void w_vector(random_init_t& r, std::vector<int>& x) {random_init(r,"",x);}
void w_map(random_init_t& r, std::map<int,bool>& x) {random_init(r,"",x);}
#if __cplusplus>=201103L
NUM(char16_t,char16_t) NUM(char32_t,char32_t)
void w_shared(random_init_t& r, std::shared_ptr<Members>& x) {random_init(r,"",x);}
void w_unique(random_init_t& r, std::unique_ptr<Members>& x) {random_init(r,"",x);}
void w_array(random_init_t& r, std::array<Three,3>& x) {random_init(r,"",x);}
#endif
