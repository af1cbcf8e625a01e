// buffer witness: every member of the serialisation buffer classes, accessors used to locate their state
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#ifdef XDR_PACK
#include "xdr_pack.cc"
#endif
using classdesc::pack_t;
using classdesc::xdr_pack;
size_t f_size(const pack_t& b) { return b.size(); }
size_t f_pos(const pack_t& b) { return b.pos(); }
const char* f_data(const pack_t& b) { return b.data(); }
bool f_bool(pack_t& b) { return b; }
void w_make(size_t n, const char* f, const char* m) { pack_t a(n), b(f,m); a.swap(b); a.resize(n); a.clear(); a<b; a>b; a==b; a!=b; a.realloc(n); }
#ifdef XDR_PACK
void w_makex(size_t n, const char* f, const char* m) { xdr_pack a(n), b(f,m); a.swap(b); a.resize(n); a.clear(); }
#endif
#if __cplusplus >= 201103L
pack_t w_move(pack_t& b) { pack_t c(std::move(b)); c=std::move(b); return c; }
#ifdef XDR_PACK
xdr_pack w_movex(xdr_pack& b) { xdr_pack c(std::move(b)); c=std::move(b); return c; }
#endif
#endif
size_t f_xsize(const classdesc::basic_type& x) { return x.size; }
void* f_xval(const classdesc::basic_type& x) { return x.val; }
struct DC { int a; double b; DC(): a(0), b(0) {} };
namespace classdesc_access { namespace cd=classdesc; template <> struct access_pack<DC> { void operator()(cd::pack_t& b, const cd::string& d, const DC& x) { cd::pack(b,d+".a",x.a); cd::pack(b,d+".b",x.b);} }; }
int w_deepCmp(const DC& x, const DC& y) { return classdesc::deepCmp(x,y); }
bool w_deepEq(const DC& x, const DC& y) { return classdesc::deepEq(x,y); }
