// XML witness: every built-in and library type class, writer, reader and schema generator
#include <list>
#include <deque>
#include <set>
#include <map>
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "xsd_generate_base.h"
#include "polyBase.h"
#include "polyXMLBase.h"
#include "wtypes.h"
#include "wtypes-xml.cd"
namespace wt {
  struct PBase: public classdesc::PolyBase<int>, virtual public classdesc::PolyXMLBase { virtual ~PBase() {} static PBase* create(int); };
}
#include "xml_pack_epilogue.h"
#include "xsd_generate-allCDs.h"
using namespace classdesc;
using namespace std;
struct Anchor_PolyXMLBase: public PolyXMLBase { void xml_pack(xml_pack_t&, const string&) const {} void xml_unpack(xml_unpack_t&, const string&) {} };
void w_anchor3() { Anchor_PolyXMLBase a; }
#define XP(n,...) void w_p_##n(xml_pack_t& b, const string& d, __VA_ARGS__& x) { xml_pack(b,d,x); }
#define XU(n,...) void w_u_##n(xml_unpack_t& b, const string& d, __VA_ARGS__& x) { xml_unpack(b,d,x); }
#define XS(n,...) void w_s_##n(xsd_generate_t& b, const string& d, __VA_ARGS__& x) { xsd_generate(b,d,x); }
#define X2(n,...) XP(n,__VA_ARGS__) XU(n,__VA_ARGS__)
#define X3(n,...) X2(n,__VA_ARGS__) XS(n,__VA_ARGS__)
X3(bool,bool) X3(char,char) X3(schar,signed char) X3(uchar,unsigned char) X3(short,short) X3(ushort,unsigned short)
X3(int,int) X3(uint,unsigned) X3(long,long) X3(ulong,unsigned long) X3(float,float) X3(double,double)
X3(string,string) X2(cdata,CDATA)
X3(vint,vector<int>) X3(vstring,vector<string>) X3(vvshort,vector<vector<short> >) X3(vuser,vector<wt::Inner>)
X3(list,list<double>) X3(deque,deque<short>)
X3(set,set<short>) X3(multiset,multiset<string>) X3(map,map<int,double>) X3(mapss,map<string,vector<int> >) X3(mmap,multimap<short,string>)
X3(pair,pair<int,double>)
X3(inner,wt::Inner) X3(user,wt::User) X3(enum,wt::Colour)
X2(shdouble,classdesc::shared_ptr<double>) X2(shuser,classdesc::shared_ptr<wt::Inner>) X2(shpoly,classdesc::shared_ptr<wt::PBase>)
#if __cplusplus >= 201103L
X2(uptr,std::unique_ptr<double>) X3(array,std::array<int,3>)
#endif
void w_a_p(xml_pack_t& b, const string& d, int (&x)[3], double (&y)[2][3], wt::Inner (&w)[2]) {
  xml_pack(b,d,classdesc::is_array(),x[0],1,3); xml_pack(b,d,classdesc::is_array(),y[0][0],2,2,3); xml_pack(b,d,classdesc::is_array(),w[0],1,2);
}
void w_a_u(xml_unpack_t& b, const string& d, int (&x)[3], double (&y)[2][3], wt::Inner (&w)[2]) {
  xml_unpack(b,d,classdesc::is_array(),x[0],1,3); xml_unpack(b,d,classdesc::is_array(),y[0][0],2,2,3); xml_unpack(b,d,classdesc::is_array(),w[0],1,2);
}
void w_parse(xml_unpack_t& b, std::istream& i) { b.parse(i); }
void w_parseF(xml_unpack_t& b, FILE*& i) { b.parse(i); }
void w_quote(string& r, char c) { r=xml_quote(c); }
void w_cdata(std::ostream& o, const CDATA& c) { o<<c; }
