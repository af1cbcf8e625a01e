// operations on enumerator tables, and what the tables generated for w_enum.h have to hold
#include "classdesc.h"
#include "pack_base.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "w_enum.h"
#include "w_enum.cd"
#if __cplusplus>=201103L
#include "w_enum11.h"
#include "w_enum11.cd"
#endif
#include "classdesc_epilogue.h"
using namespace classdesc;
using std::string;

// the tables: expected_<type> is compared with the generated table of the type it names
#define E(k) {#k,int(k)}
#define S(T,k) {#k,int(T::k)}
#define TABLE(n,T) extern const char* const want_type_##n; const char* const want_type_##n=#T; extern const EnumKey want_##n[]; const EnumKey want_##n[]=
TABLE(1,Plain){E(p_a),E(p_b),E(p_c),E(p_d),E(p_e)};
TABLE(2,Trailing){E(t_a),E(t_b)};
TABLE(3,One){E(o_a)};
TABLE(4,Values){E(v_a),E(v_b),E(v_c),E(v_d),E(v_e),E(v_f)};
TABLE(5,Alias){E(l_a),E(l_b),E(l_c)};
TABLE(6,Commented){E(c_a),E(c_b),E(c_c)};
TABLE(7,Named){E(n_a),E(n_b)};
TABLE(8,Outer::Inner){S(Outer,i_a),S(Outer,i_b),S(Outer,i_c)};
TABLE(9,Outer::Inner2){S(Outer,j_a),S(Outer,j_b)};
TABLE(10,Outer::Deep::Inner){S(Outer::Deep,i_a),S(Outer::Deep,i_b)};
TABLE(11,outer::Plain){S(outer,p_a),S(outer,p_b)};
TABLE(12,outer::inner::Plain){S(outer::inner,p_a),S(outer::inner,p_z)};
TABLE(13,outer::inner::Outer::Inner){S(outer::inner::Outer,i_a)};
// no enumerators, but a table to ask
void w_empty(EnumKeys<Empty> const*& x) {x=&enum_keys<Empty>();}
#define USE(T) template EnumKeys<T> const& classdesc::enum_keys<T>(); void w_use(T& x) {string s=Enum_handle<T>(x); Enum_handle<T> h(x); h=s;}
USE(Plain) USE(Trailing) USE(One) USE(Values) USE(Alias) USE(Commented) USE(Named) USE(Outer::Inner) USE(Outer::Inner2) USE(Outer::Deep::Inner) USE(outer::Plain) USE(outer::inner::Plain) USE(outer::inner::Outer::Inner)
#if __cplusplus>=201103L
TABLE(20,Calls){E(k_a),E(k_b),E(k_c),E(k_d)};
TABLE(21,Scoped){S(Scoped,s_a),S(Scoped,s_b),S(Scoped,s_c)};
TABLE(22,Scoped2){S(Scoped2,s_a),S(Scoped2,s_b)};
TABLE(23,Small){S(Small,m_a),S(Small,m_b)};
TABLE(24,Signed){S(Signed,g_a),S(Signed,g_b)};
TABLE(25,Forward){S(Forward,f_a),S(Forward,f_b)};
TABLE(26,Attr){E(a_a),E(a_b),E(a_c)};
TABLE(27,outer::Scoped){S(outer::Scoped,s_a),S(outer::Scoped,s_z)};
USE(Calls) USE(Scoped) USE(Scoped2) USE(Small) USE(Signed) USE(Forward) USE(Attr) USE(outer::Scoped)
typedef Signed Any;
#else
typedef Outer::Inner Any;
#endif

// the operations, for one enumeration: each is a function of its own arguments
typedef EnumKeys<Any> Keys;
void w_ctor(void* p, const EnumKey* data, int size) {new (p) Keys(data,size);}
int w_value(const Keys& k, const string& s) {return static_cast<int>(k(s));}
void w_name_int(string& r, const Keys& k, int v) {new (&r) string(k(v));}
void w_name(string& r, const Keys& k, Any v) {new (&r) string(k(v));}
bool w_has_value(const Keys& k, Any v) {return k.has(v);}
bool w_has_name(const Keys& k, const string& s) {return k.has(s);}
// through the table of the enumeration itself
int w_key_value(const string& s) {return enumKey<Any>(s);}
void w_key_name(string& r, int v) {new (&r) string(enumKey<Any>(v));}
void w_to_string(string& r, Any v) {new (&r) string(to_string(v));}
void w_stream(std::ostream& o, Any v) {o<<v;}
// handles
void w_handle_string(string& r, Any& x) {new (&r) string(Enum_handle<Any>(x));}
int w_handle_int(Any& x) {return Enum_handle<Any>(x);}
void w_handle_copy_int(Any& x, int v) {Enum_handle<Any> h(x), g(h); g=v;}
void w_handle_set_int(Any& x, int v) {Enum_handle<Any> h(x); h=v;}
void w_handle_set(Any& x, Any v) {Enum_handle<Any> h(x); h=v;}
void w_handle_set_string(Any& x, const string& s) {enum_handle(x)=s;}
void w_handle_out(std::ostream& o, Any& x) {o<<Enum_handle<Any>(x);}
void w_handle_in(std::istream& i, Any& x) {Enum_handle<Any> h(x); i>>h;}
