// owning handles (C18): each operation on its own, the owned classes known by declaration only
#include "pack_base.h"
#include "ref.h"
#include "object.h"
#include "poly.h"
#include "classdesc_epilogue.h"
#include <new>

namespace w
{
  struct Part {Part(); Part(const Part&); ~Part(); Part& operator=(const Part&); int x;};
  struct Obj: public classdesc::object
  {
    Obj(); Obj(int); Obj(int,int); Obj(const Obj&); ~Obj();
    TypeID type() const; Obj* clone() const; void pack(classdesc::pack_t&) const; void unpack(classdesc::unpack_t&);
    int x;
  };
}
using namespace classdesc;
typedef ref<w::Part> R;
typedef poly<w::Obj> P;

// reading the count shows where it is kept
int f_count(const R& a) {return a.refCount();}
bool f_null(const R& a) {return a.nullref();}
bool f_pnull(const P& a) {return a;}

void w_ref_ctor(R* a) {new(a) R;}
void w_ref_copy(R* a, const R& b) {new(a) R(b);}
void w_ref_fromT(R* a, const w::Part& b) {new(a) R(b);}
void w_ref_dtor(R* a) {a->~R();}
void w_ref_asg(R& a, const R& b) {a=b;}
void w_ref_asgT(R& a, const w::Part& b) {a=b;}
void w_ref_arrow(R& a) {a.operator->();}
void w_ref_deref(R& a) {*a;}
void w_ref_null(R& a) {a.nullify();}
void w_ref_swap(R& a, R& b) {a.swap(b);}
void w_ref_stdswap(R& a, R& b) {std::swap(a,b);}
void w_ref_alloc(pack_t& x, R& a) {Alloc<R>()(x,a);}
bool w_ref_eq(const R& a, const R& b) {return a==b || a!=b || a<b;}

void w_poly_ctor(P* a) {new(a) P;}
void w_poly_copy(P* a, const P& b) {new(a) P(b);}
void w_poly_fromT(P* a, const w::Obj& b) {new(a) P(b);}
void w_poly_dtor(P* a) {a->~P();}
void w_poly_asg(P& a, const P& b) {a=b;}
void w_poly_asgT(P& a, const w::Obj& b) {a=b;}
void w_poly_add0(P& a) {a.addObject<w::Obj>();}
void w_poly_add1(P& a) {a.addObject<w::Obj,int>(1);}
void w_poly_add2(P& a) {a.addObject<w::Obj,int,int>(1,2);}
void w_poly_swap(P& a, P& b) {a.swap(b);}
void w_poly_stdswap(P& a, P& b) {std::swap(a,b);}

void w_store_ctor(PtrStoreRef* a, PtrStoreBase* b) {new(a) PtrStoreRef(b);}
void w_store_copy(PtrStoreRef* a, const PtrStoreRef& b) {new(a) PtrStoreRef(b);}
void w_store_asg(PtrStoreRef& a, const PtrStoreRef& b) {a=b;}
void w_store_dtor(PtrStoreRef* a) {a->~PtrStoreRef();}
