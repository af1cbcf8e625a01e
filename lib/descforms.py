"""The ways a C++ class declares its members, for the descriptor check.

FORMS: (text, members, after). `$` in the text and the names makes the names of one use
unique. members: (kind, name) in declaration order,
  M data member   A data member that is an array   S static data member   SA static array
  K constant static member (flagged as such)   F method (not overloaded)   SF static method
A name starting with `-` or `#` is private or protected. after: the access in force after
the form, None if it leaves it as it was.
"""

def m(s):
    r = []
    for w in s.split():
        k, n = w.split(":")
        r.append((k, n))
    return r


FORMS = [(t, m(e), (x + [None])[0]) for t, e, *x in [
    # scalars, classes, pointers, arrays
    ("int a$;", "M:a$"),
    ("int a$, b$;", "M:a$ M:b$"),
    ("unsigned long long a$; long double b$; signed char c$;", "M:a$ M:b$ M:c$"),
    ("int *a$, **b$, c$; const char* d$; V* e$, f$;", "M:a$ M:b$ M:c$ M:d$ M:e$ M:f$"),
    ("int a$[3], b$; int c$[2][4]; char d$[2+3]; V e$[2];", "A:a$ M:b$ A:c$ A:d$ A:e$"),
    ("V a$; struct V b$; ::wt::V c$; class Fwd* d$; wt::V e$;", "M:a$ M:b$ M:c$ M:d$ M:e$"),
    ("Fwd *a$; std::string b$; std::vector<int> c$;", "M:a$ M:b$ M:c$"),
    ("Col a$; enum Col b$; Un c$; union Un d$;", "M:a$ M:b$ M:c$ M:d$"),
    ("volatile int a$; mutable int b$; const int c$=2; alignas(8) int d$; int e$;", "M:a$ M:b$ M:c$ M:d$ M:e$"),
    ("std::map<std::pair<int, std::vector<int>>, V> a$; One<One<One<int>>> b$; int c$;", "M:a$ M:b$ M:c$"),
    ("Two<int,One<Two<int,V>>> a$, b$; Num<(3>2)> c$; Num<3> d$[2];", "M:a$ M:b$ M:c$ A:d$"),
    ("Three<Two<int, One<int>>, V, W> a$; Three<V,Two<V,Two<V,One<One<int>>>>,W> b$; std::map<V, Three<W,One<W>,W>>::iterator c$; int d$;", "M:a$ M:b$ M:c$ M:d$"),
    ("std::array<int, (3>2)> a$; std::array<int, 3> b$ = {1,2,3}, c$;", "M:a$ M:b$ M:c$"),
    ("std::function<int(int,V)> a$; std::function<void()> b$; int c$;", "M:a$ M:b$ M:c$"),
    ("unsigned a$; long b$, c$; short int d$;", "M:a$ M:b$ M:c$ M:d$"),
    ("TBase<int>::Deep a$; std::vector<int>::size_type b$; typename TBase<V>::Deep c$;", "M:a$ M:b$ M:c$"),
    # initialisers
    ("int a$=3, b${4}, c$; int d$=(1,2), e$;", "M:a$ M:b$ M:c$ M:d$ M:e$"),
    ("int a$[3]={1,2,3}, b$; int c$[2][2]={{1,2},{3,4}}; int d$;", "A:a$ M:b$ A:c$ M:d$"),
    ("int a$=three(1,2,3), b$=two(1,one()); int c$;", "M:a$ M:b$ M:c$"),
    ("int a$ = 3 < 4, b$; bool c$ = 4 > 3, d$=1>>2; int e$=one(),f$;", "M:a$ M:b$ M:c$ M:d$ M:e$ M:f$"),
    ("V a$=V{1,2.0}, b$; int c$=W{3}.c, d$;", "M:a$ M:b$ M:c$ M:d$"),
    ("std::function<int()> a$=[]{int q=1; return q;}; int b$;", "M:a$ M:b$"),
    ("std::function<int(int)> a$=[](int z)->int{struct L {int u;}; L l; return z;}, b$; int c$;", "M:a$ M:b$ M:c$"),
    ("std::vector<int> a${1,2,3}, b$={4,5}; std::map<int,int> c$={{1,2},{3,4}}; int d$;", "M:a$ M:b$ M:c$ M:d$"),
    ("One<int> a$=One<int>{3}, b$; int c$=Two<int,int>{1,2}.u, d$;", "M:a$ M:b$ M:c$ M:d$"),
    ("int a$=Three<int,W,V>{1}.t, b$; int c$=Three<W,V,W>{W{1}}.t.c, d${Three<int,W,V>{1}.t}; int e$;", "M:a$ M:b$ M:c$ M:d$ M:e$"),
    ("bool a$ = kk < 3, b$; bool c$ = kk<4, d$=(kk>3); int e$ = kk<<1, f$;", "M:a$ M:b$ M:c$ M:d$ M:e$ M:f$"),
    ("std::string a$=\"a;}{\\\"b,\", b$; char c$='}', d$='\\'', e$=';', f$='\"'; int g$;", "M:a$ M:b$ M:c$ M:d$ M:e$ M:f$ M:g$"),
    ("char a$='\\\\', b$='\\\\'; std::string c$=\"x\\\\\", d$; const char* e$=\"a\\\\\\\"b\"; int f$;", "M:a$ M:b$ M:c$ M:d$ M:e$ M:f$"),
    ("int a_$, _b$, c1_2$_; std::size_t __d$; int static_a$, const_b$, private_c$, operatorX$, enum_$, template1$;", "M:a_$ M:_b$ M:c1_2$_ M:__d$ M:static_a$ M:const_b$ M:private_c$ M:operatorX$ M:enum_$ M:template1$"),
    ("long a$=1'000'000, b$=0x1F'FF; double c$=1e-3, d$=1'0.5e+2; int e$;", "M:a$ M:b$ M:c$ M:d$ M:e$"),
    # comments, attributes, preprocessor
    ("int a$; // int x; }\nint b$; /* int y; { */ int c$; /* ' */ int d$; // \"\nint e$;", "M:a$ M:b$ M:c$ M:d$ M:e$"),
    ("int a$ /* , z */, /* ; */ b$ // q\n; int c$/**/;/***/int d$;", "M:a$ M:b$ M:c$ M:d$"),
    ("int a$; /*/ int z; /*/ int b$; /* * / int z; */ int c$; /* // */ int d$; // /* \n int e$; /* '\" **/ int f$;", "M:a$ M:b$ M:c$ M:d$ M:e$ M:f$"),
    ("\n#define ZZ$ /* int y;\n int z; } */ 3\nint a$;\n#undef ZZ$ // int z; \\ /*\n#define ZZ$ '\\'' \"{\" it's\n#undef ZZ$\n#define ZZ$ \"/*\" \"\\\"/*\"\n#  undef ZZ$\nint b$;", "M:a$ M:b$"),
    ("[[maybe_unused]] int a$; int b$ [[maybe_unused]]; [[deprecated(\"x;[0] y\")]] int c$; [[deprecated]] void f$(); int d$;", "M:a$ M:b$ M:c$ F:f$ M:d$"),
    ("\n#define ZZ$ int z; }\nint a$;\n#undef ZZ$\nint b$;", "M:a$ M:b$"),
    ("\n#define ZZ$(x) \\\n int z; } \\\n int y;\nint a$; int b$;", "M:a$ M:b$"),
    # statics
    ("static int a$; int b$;", "S:a$ M:b$"),
    ("static int a$, b$; static V c$; static int d$[3]; int e$;", "S:a$ S:b$ S:c$ SA:d$ M:e$"),
    ("static const int a$=3, b$=4; int c$;", "K:a$ K:b$ M:c$"),
    ("const static int a$=3; static constexpr int b$=2; constexpr static int c$=three(1,2,3), d$=5; int e$;", "K:a$ K:b$ K:c$ K:d$ M:e$"),
    ("static const int a$[2]; static const char* const b$; int c$;", "K:a$ K:b$ M:c$"),
    ("const int a$=1; static int b$; const V* c$; static V* d$; int e$;", "M:a$ S:b$ M:c$ S:d$ M:e$"),
    ("inline static int a$ = 3; static inline const int b$=3; int c$;", "S:a$ K:b$ M:c$"),
    ("static const int f$(const int); static int a$; void g$() const; static int b$;", "SF:f$ S:a$ F:g$ S:b$"),
    # methods, constructors, operators, friends
    ("void f$(); int a$; int g$(int x, V y={1,2}) const {int z=x; {return z;}} int b$;", "F:f$ M:a$ F:g$ M:b$"),
    ("int f$(int x, int (*g)(int, int)); void h$(int[3]); int a$;", "F:f$ F:h$ M:a$"),
    ("virtual void f$() {} virtual int g$(int) const; int a$; void h$() noexcept {} int i$() const noexcept; int b$;", "F:f$ F:g$ M:a$ F:h$ F:i$ M:b$"),
    ("auto f$() const -> int {return 1;} int a$; auto g$(int x) -> decltype(x) {return x;} int b$;", "F:f$ M:a$ F:g$ M:b$"),
    ("static int f$(int x) {return x;} int a$; static V g$(); int b$;", "SF:f$ M:a$ SF:g$ M:b$"),
    ("void f$(); void f$(int); int a$; int g$() {return 1;} int g$() const {return 2;} int b$;", "OF:f$ OF:f$ M:a$ OF:g$ OF:g$ M:b$"),
    ("template <class T> void f$(T t) {int q; {int r;}} int a$; template <class T, int N=(3>2)> int g$(T (&)[N]); int b$;", "M:a$ M:b$"),
    ("int a$; bool operator!() const {return a$;} int b$;", "M:a$ M:b$"),
    ("friend class Fwd; friend struct V; template <class T> friend struct One; int a$;", "M:a$"),
    ("friend void ff@$(int) {int q; {int r;}} int a$; friend int fg@$(); int b$; friend bool operator<(const struct FF@$&, const FF@$& y) {return true;} int c$;", "M:a$ M:b$ M:c$"),
    ("int f$(), a$, g$(int) const, h$(); int b$;", "F:f$ M:a$ F:g$ F:h$ M:b$"),
    ("public: void f$(); int a$; public: static int b$; void g$(); public: const int& h$(); static int i$;", "F:f$ M:a$ S:b$ F:g$ F:h$ S:i$", "public"),
    ("int *f$(); const int& g$(int& x) {return x;} V* const& h$(V&, V&&); int a$;", "F:f$ F:g$ F:h$ M:a$"),
    ("std::vector<int> f$(std::map<int,V> m, std::function<int(int,int)> g) const; int a$;", "F:f$ M:a$"),
    ("void f$() const {} int a$; void g$() = delete; int b$;", "F:f$ M:a$ M:b$"),
    # nested types
    ("struct N$ {int q; struct M {int r;} s; void f() {int z;}}; N$ a$; int b$;", "M:a$ M:b$"),
    ("struct N$ {int q;} a$; struct N$ b$; N$ *c$, d$[2]; int e$;", "M:a$ M:b$ M:c$ A:d$ M:e$"),
    ("struct N$; class M$; enum class E$: int; N$* a$; E$ b$; int c$;", "M:a$ M:b$ M:c$"),
    ("enum E$ {aa$, bb$=3, cc$=two(1,2)}; E$ a$; enum E$ b$; int c$;", "M:a$ M:b$ M:c$"),
    ("enum class E$: short {aa, bb}; E$ a$; enum {dd$, ee$}; enum F$ {ff$} b$; int c$;", "M:a$ M:b$ M:c$"),
    ("union U$ {int a; float b;}; U$ a$; int b$;", "M:a$ M:b$"),
    ("union U$ {int a; float b;} a$; int b$;", "M:a$ M:b$"),
    ("typedef int I$; I$ a$; typedef struct {int a; int b;} T$; T$ b$; typedef void (*P$)(int); int c$;", "M:a$ M:b$ M:c$"),
    ("typedef std::map<int,V> I$; using T$=std::vector<int>; using U$=int(*)(int,int); template <class X> using L$=One<X>; T$ a$; I$ b$; L$<int> c$; int d$;", "M:a$ M:b$ M:c$ M:d$"),
    ("template <class T> struct N$ {T t; int u;}; N$<int> a$; int b$;", "M:a$ M:b$"),
    ("static_assert(sizeof(int)==4,\"x;\"); int a$; decltype(1+2) b$; int c$;", "M:a$ M:b$ M:c$"),
    ("struct N$: public V {int q; N$(): V{1,2}, q(3) {} }; N$ a$; int b$;", "M:a$ M:b$"),
    ("class N$ {int q; public: int r; private: int s;}; int a$; int b$;", "M:a$ M:b$"),
    # access
    ("public: int a$; protected: int b$; private: int c$; public: int d$;", "M:a$ M:#b$ M:-c$ M:d$", "public"),
    ("int a$; private: int b$; static int c$; static const int d$=3; void f$(); int e$[2];", "M:a$ M:-b$ S:-c$ K:-d$ F:-f$ A:-e$", "private"),
    ("protected: int a$; struct N$ {int q;}; std::string c$;", "M:#a$ M:#c$", "protected"),
    ("private: enum E$ {aa$}; E$ a$; enum F$: int; int b$; public: int c$;", "M:-a$ M:-b$ M:c$", "public"),
    ("private: public: int a$; private: struct N$ {int q; private: int r;}; union {int v$;}; public: int b$;", "M:a$ M:b$", "public"),
    ("int a$; CLASSDESC_ACCESS(V); int b$;", "M:a$ M:b$"),
    (";int a$;; ; int b$;", "M:a$ M:b$"),
]]

# class heads: (text before the name, after the name, bases in order)
HEADS = [(a, b, c.split()) for a, b, c in [
    ("struct", "", ""),
    ("struct", ": Base1", "Base1"),
    ("struct", " final: public Base1, Base2", "Base1 Base2"),
    ("class", " final: public VBase, Base1, private Base2, protected TBase<int>", "VBase -Base1 -Base2 -TBase<int>"),
    ("struct", ": public virtual VBase, virtual private Base1, Base2", "VBase -Base1 Base2"),
    ("struct", ": protected Base1, Base2, private TBase<int>", "-Base1 Base2 -TBase<int>"),
    ("class", ": protected virtual Base1, virtual public Base2", "-Base1 Base2"),
    ("struct", ": ::wt::Base1, wt::Base2, public TBase<std::map<int,V>>", "Base1 Base2 TBase<std::map<int,V>>"),
    ("struct", ": TBase<One<One<int>>>, TBase<Num<3>>, Base1", "TBase<One<One<int>>> TBase<Num<3>> Base1"),
    ("struct", ": TBase<V>::Deep, Base2", "TBase<V>::Deep Base2"),
    ("struct alignas(8)", ": Base2", "Base2"),
    ("struct [[deprecated(\"{;\")]]", ": Base2 /* , Base1 { */", "Base2"),
    ("struct", ": Base1\n// Base2 {\n", "Base1"),
]]
CTORS = [
    "using Base2::getBase2; int getBase2(int); /*Base(*/", "using Base2::Base2; using T=int; /*Base(*/",
    "", "$(): x(1) {}", "$(): Base(1), x{1}, y{two(2,3)} {int q; {int r;}}", "$(int a=3, std::vector<int> v={1,2}): x(a) {} ~$() {}",
    "explicit $(int): $() {} $(): x{1} {int q;}", "$(const $&)=default; $& operator=(const $&)=default; $($&&)=delete;", "virtual ~$() {int q;} $();",
    "template <class T> $(T t): x(V{1,2}.a), y() {int q;}", "$(): x(two(1,2)), y{[]{int q=1; return q;}()} {}",
    "operator int() const {return x;} int operator()(int a) {int q; return a;} int operator[](int) const; bool operator==(const $& y) const {return x==y.x;}",
    "$* operator->(); const $& operator*() const {return *this;} $ operator++(int); bool operator<(const $&) const; int operator<<(int); void* operator new(size_t); int operator,(int); bool operator()();",
]

# whole definitions: text, and (id, type, bases, members) of what is described
SPECIAL = r"""
namespace n1 {namespace n2 {struct A {int x; struct B {int y; struct D {int z;} d; enum E {e1} e;}; B b;};} struct G {int x; n2::A a;};}
namespace n1 {namespace n2 {class H {int x; public: int y;};}}
inline namespace n3 {struct I {int x;};}
extern "C" {struct J {int x; int y;};}
extern "C++" {struct K: wt::Base1 {int x;};}
typedef struct {int a; int b;} L;
struct L2 {int a; int b;} l2, *pl2;
namespace n4 = n1::n2;
using namespace n1;
struct Fwd1; struct Fwd1 {int x;}; struct Fwd1; class Fwd1x;
static int notMember1; extern int notMember2; int notMember3(struct Fwd1 a, class Fwd1x& b);
inline int fn1(int x) {int l[]={1}; {int q;} return l[0];}
struct M1 {int x;};
int fn2(struct M1* p) {return p? 1:0;}
struct M2 {int x;}; M2 fn3(); struct M1 fn4() {return {1};}
template <class T> struct N: public wt::TBase<T> {N(): wt::TBase<T>(1), t(), u{1} {int q;} N(const N&)=default; ~N() {int q;} T t; int u; T v[3]; enum TE {te1}; TE te; struct In {int i; T t;}; typename wt::TBase<T>::Deep w; static T s; void f() {T q;} static const int k=2;};
template <class T> struct N<T*>: wt::Base1 {N() {int q;} N(T* t): t(t) {} T* t; int x;};
template <> struct N<char> {char c; int d;};
template <typename T, int n, bool b=true> class O {T a[n]; public: int x; template <class U> struct P {U u;}; };
template <class T, class... U> struct Q {T a; int b;};
template <class T> struct Q<T> {int c; T d;};
template <template <class> class T, class U=std::vector<std::vector<int>>> struct R {T<U> a; int b;};
template <class T> T fn5(T x) {T q; {} return x;}
template <class T=int, class U=wt::One<wt::One<T>>> struct S {U a; T b;};
template struct N<double>;
template <class T> using Alias=N<T>;
using Alias2=N<int>;
struct Tmx {int a; int b;}; struct xTm {int a;};
namespace n5 {template <class T> struct Tm {int x; T ma(const Tm& a, Tm b, Tmx c, Tm<T> d) {return T();} Tm mb(int a, Tm b, Tm* c) const {return b;} static int mc(Tm& a, Tm&& b, Tm<int>* c) {return 1;} Tm* md(xTm* a, const Tm* b) {return 0;} void me(T a, int Tm_b, const Tm& c); typedef int xTm_t; int z;};}
template <class T> struct V1; template <class T> struct V1 {T x;};
namespace n5 {template <class T> struct W1 {T x; struct X {T y; enum E {e1, e2} e;}; X z;}; template <> struct W1<int> {int y;};}
struct Y1 {int a; struct Z; int b;}; struct Y1::Z {int c; int d;};
class Y2 {struct P1 {int a;}; public: struct P2 {int b;}; int x; private: P1 p; P2 q;};
#if 1
struct If1 {int a;
#ifndef NOTDEF
  int b;
#endif
};
#endif
"""
SPECIALS = [(i, t, b.split(), m(e)) for i, t, b, e in [
    ("sA", "n1::n2::A", "", "M:x M:b"), ("sB", "n1::n2::A::B", "", "M:y M:d M:e"), ("sD", "n1::n2::A::B::D", "", "M:z"), ("sG", "n1::G", "", "M:x M:a"), ("sH", "n1::n2::H", "", "M:-x M:y"),
    ("sI", "n3::I", "", "M:x"), ("sJ", "J", "", "M:x M:y"), ("sK", "K", "wt::Base1", "M:x"), ("sL", "L", "", "M:a M:b"), ("sL2", "L2", "", "M:a M:b"),
    ("sFwd1", "Fwd1", "", "M:x"), ("sM1", "M1", "", "M:x"), ("sM2", "M2", "", "M:x"),
    ("sNi", "N<int>", "wt::TBase<int>", "M:t M:u A:v M:te M:w S:s F:f K:k"), ("sNv", "N<wt::V>", "wt::TBase<wt::V>", "M:t M:u A:v M:te M:w S:s F:f K:k"),
    ("sNp", "N<int*>", "wt::Base1", "M:t M:x"), ("sNc", "N<char>", "", "M:c M:d"), ("sO", "O<int,4>", "", "A:-a M:x"),
    ("sQ", "Q<int,long,char>", "", "M:a M:b"), ("sQ1", "Q<int>", "", "M:c M:d"), ("sR", "R<wt::One>", "", "M:a M:b"), ("sS", "S<>", "", "M:a M:b"), ("sV1", "V1<int>", "", "M:x"),
    ("sTm", "n5::Tm<long>", "", "M:x F:ma F:mb SF:mc F:md F:me M:z"), ("sW1", "n5::W1<char>", "", "M:x M:z"), ("sW1i", "n5::W1<int>", "", "M:y"), ("sY1", "Y1", "", "M:a M:b"), ("sYZ", "Y1::Z", "", "M:c M:d"),
    ("sY2", "Y2", "", "M:x M:-p M:-q"), ("sP2", "Y2::P2", "", "M:b"), ("sIf1", "If1", "", "M:a M:b"),
]]
