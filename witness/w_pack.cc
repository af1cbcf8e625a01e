// binary serialisation witness: every built-in and library type class, both directions
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "object.h"
#include "poly.h"
#include "polyBase.h"
#include "polyPackBase.h"
#include "wtypes.h"
#include <list>
#include <deque>
#include <set>
namespace wt {
  struct PBase: public classdesc::PolyBase<int>, virtual public classdesc::PolyPackBase { virtual ~PBase() {} static PBase* create(int); };
  struct OB: public classdesc::Object<OB> { double x; };
}
#include "pack_base.h"
#include "wtypes-pack.cd"
#include "poly-pack.cd"
#include "object-pack.cd"
namespace classdesc_access {
  template <> struct access_pack<wt::OB> { template <class U> void operator()(classdesc::pack_t& b, const classdesc::string& d, U& a) { ::pack(b,d,a.x);} };
  template <> struct access_unpack<wt::OB> { template <class U> void operator()(classdesc::pack_t& b, const classdesc::string& d, U& a) { ::unpack(b,d,a.x);} };
}
#include "pack_epilogue.h"
using namespace classdesc;
using namespace std;

void w_anchor() { pack_t p; }
struct Anchor_PolyPackBase: public PolyPackBase { void pack(pack_t&, const string&) const {} void unpack(unpack_t&, const string&) {} };
struct Anchor_object: public object { TypeID type() const {return 0;} object* clone() const {return 0;} void pack(pack_t& b) const {} void unpack(pack_t& b) {} };
void w_anchor3() { Anchor_object ao; Anchor_PolyPackBase a; wt::OB o; }
#ifdef XDR_PACK
void w_anchor2(xdr_pack& x) { pack_t& p=x; p.clear(); }
#endif

#define P1(n,...) void w_p_##n(pack_t& b, const __VA_ARGS__& x) { pack(b,string(),x); }
#define U1(n,...) void w_u_##n(pack_t& b, __VA_ARGS__& x) { unpack(b,string(),x); }
#define C1(n,...) void w_c_##n(pack_t& b, const __VA_ARGS__& x) { unpack(b,string(),x); }
#define W2(n,...) P1(n,__VA_ARGS__) U1(n,__VA_ARGS__)
#define W3(n,...) P1(n,__VA_ARGS__) U1(n,__VA_ARGS__) C1(n,__VA_ARGS__)
#define S2(n,...) void w_p_s_##n(pack_t& b, const __VA_ARGS__& x) { b<<x; } void w_u_s_##n(pack_t& b, __VA_ARGS__& x) { b>>x; }
#define B2(n,...) void w_p_b_##n(BinStream& b, const __VA_ARGS__& x) { b<<x; } void w_u_b_##n(BinStream& b, __VA_ARGS__& x) { b>>x; }

W3(bool,bool) W3(char,char) W3(schar,signed char) W3(uchar,unsigned char) W3(short,short) W3(ushort,unsigned short)
W3(int,int) W3(uint,unsigned) W3(long,long) W3(ulong,unsigned long) W3(ll,long long) W3(ull,unsigned long long)
W3(float,float) W3(double,double) W3(ld,long double) W3(wchar,wchar_t)
S2(int,int) S2(string,string) S2(user,wt::User) S2(vecint,vector<int>)
W3(string,string) W3(wstring,wstring)
W3(vint,vector<int>) W3(vstring,vector<string>) W3(vvshort,vector<vector<short> >) W3(vuser,vector<wt::Inner>) W3(vbool,vector<bool>)
W3(list,list<double>) W3(deque,deque<short>)
W3(set,set<short>) W3(multiset,multiset<string>) W3(map,map<int,double>) W3(mapss,map<string,vector<int> >) W3(mmap,multimap<short,string>)
W3(pair,pair<int,double>) W3(pairs,pair<string,short>)
W3(inner,wt::Inner) W3(user,wt::User)
W2(shint,classdesc::shared_ptr<double>) W2(shuser,classdesc::shared_ptr<wt::Inner>)
P1(wk,classdesc::weak_ptr<double>) U1(wk,classdesc::weak_ptr<double>)
W2(shpoly,classdesc::shared_ptr<wt::PBase>)
W3(shobj,classdesc::shared_ptr<wt::OB>)
W3(obj,wt::OB)
#if __cplusplus < 201103L
// tr1 build
#endif
#if __cplusplus <= 201402
P1(aptr,std::auto_ptr<double>) U1(aptr,std::auto_ptr<double>)
#endif
W2(ref,classdesc::ref<wt::Inner>)
void w_p_iter(pack_t& b, Iterator<vector<int> >& x) { pack(b,string(),x); }
void w_u_iter(pack_t& b, Iterator<vector<int> >& x) { unpack(b,string(),x); }
void w_p_enum(pack_t& b, Enum_handle<wt::Colour>& x) { pack(b,string(),x); }
void w_u_enum(pack_t& b, Enum_handle<wt::Colour>& x) { unpack(b,string(),x); }
void w_p_poly(pack_t& b, poly<wt::OB>& x) { pack(b,string(),x); }
void w_u_poly(pack_t& b, poly<wt::OB>& x) { unpack(b,string(),x); }
void w_p_tree(pack_t& b, wt::Inner* const& x) { pack(b,string(),is_treenode(),x); }
void w_u_tree(pack_t& b, wt::Inner*& x) { unpack(b,string(),is_treenode(),x); }
void w_p_graph(pack_t& b, wt::Inner*& x) { pack(b,string(),is_graphnode(),x); }
void w_u_graph(pack_t& b, wt::Inner*& x) { unpack(b,string(),is_graphnode(),x); }
void w_p_ptr(pack_t& b, wt::Inner*& x) { classdesc_access::access_pack<wt::Inner*>()(b,string(),x); }
void w_u_ptr(pack_t& b, wt::Inner*& x) { classdesc_access::access_unpack<wt::Inner*>()(b,string(),x); }
void w_p_mptr(pack_t& b, wt::User& o) { pack(b,string(),o,&wt::User::i); }
void w_u_mptr(pack_t& b, wt::User& o) { unpack(b,string(),o,&wt::User::i); }
void w_p_methp(pack_t& b, int (wt::User::*&m)(int)) { pack(b,string(),m); }
void w_u_methp(pack_t& b, int (wt::User::*&m)(int)) { unpack(b,string(),m); }
void w_p_excl(pack_t& b, Exclude<long>& x) { pack(b,string(),x); }
void w_u_excl(pack_t& b, Exclude<long>& x) { unpack(b,string(),x); }
void w_p_stat(pack_t& b, int& x) { pack(b,string(),is_const_static(),x); }
void w_u_stat(pack_t& b, int& x) { unpack(b,string(),is_const_static(),x); }
B2(int,int) B2(double,double) B2(vecint,vector<int>) B2(list,list<short>) B2(set,set<short>) B2(vvec,vector<double>)
// C arrays (variadic: kept as calls, compared separately)
void w_a_p(pack_t& b, int (&x)[3], double (&y)[2][3], char (&z)[4][5], wt::Inner (&w)[2]) {
  pack(b,string(),classdesc::is_array(),x[0],1,3); pack(b,string(),classdesc::is_array(),y[0][0],2,2,3); pack(b,string(),classdesc::is_array(),z[0][0],2,4,5); pack(b,string(),classdesc::is_array(),w[0],1,2);
}
void w_a_u(pack_t& b, int (&x)[3], double (&y)[2][3], char (&z)[4][5], wt::Inner (&w)[2]) {
  unpack(b,string(),classdesc::is_array(),x[0],1,3); unpack(b,string(),classdesc::is_array(),y[0][0],2,2,3); unpack(b,string(),classdesc::is_array(),z[0][0],2,4,5); unpack(b,string(),classdesc::is_array(),w[0],1,2);
}
void w_a_pc(pack_t& b, const int (&x)[3], const char (&z)[4][5], const wt::Inner (&w)[2]) {
  pack(b,string(),classdesc::is_array(),x[0],1,3); pack(b,string(),classdesc::is_array(),z[0][0],2,4,5); pack(b,string(),classdesc::is_array(),w[0],1,2);
}
void w_a_uc(pack_t& b, const int (&x)[3], const char (&z)[4][5]) {
  unpack(b,string(),classdesc::is_array(),x[0],1,3); unpack(b,string(),classdesc::is_array(),z[0][0],2,4,5);
}
#if __cplusplus >= 201103L
W2(uptr,std::unique_ptr<double>)
P1(array,std::array<int,3>) U1(array,std::array<int,3>)
#endif
#if __cplusplus >= 201703L
P1(tuple,std::tuple<int,double,short>) U1(tuple,std::tuple<int,double,short>)
#endif
