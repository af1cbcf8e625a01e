// graph witness: the graph serialiser for node types held through pointers and containers
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
struct Node { int v; std::vector<Node*> next; };
namespace classdesc_access
{
  template <> struct access_pack<Node> { template <class U> void operator()(pack_t& b, const classdesc::string& d, U& a) {::pack(b,d,a.v); ::pack(b,d,a.next);} };
  template <> struct access_unpack<Node> { template <class U> void operator()(pack_t& b, const classdesc::string& d, U& a) {::unpack(b,d,a.v); ::unpack(b,d,a.next);} };
}
struct Leaf { int v; };
namespace classdesc_access
{
  template <> struct access_pack<Leaf> { template <class U> void operator()(pack_t& b, const classdesc::string& d, U& a) {::pack(b,d,a.v);} };
  template <> struct access_unpack<Leaf> { template <class U> void operator()(pack_t& b, const classdesc::string& d, U& a) {::unpack(b,d,a.v);} };
}
void w_pack(pack_t& b, Node*& x) { classdesc::pack(b,string(),is_graphnode(),x); }
void w_unpack(pack_t& b, Node*& x) { classdesc::unpack(b,string(),is_graphnode(),x); }
void w_packp(pack_t& b, Leaf*& x) { b<<x; }
void w_unpackp(pack_t& b, Leaf*& x) { b>>x; }
unsigned f_recur_max(pack_t& b) { return b.recur_max; }
