// XML writers of types whose text is written by the user's own code, which may raise an error in the middle
#include "w_xml.cc"
namespace wu {
  struct Ext { int x; };                                // written by its stream operator
  std::ostream& operator<<(std::ostream&, const Ext&);
  struct Own { int x; };                                // written by its own descriptor
  struct Both { Ext e; Own o; };
}
namespace classdesc_access {
  template <> struct access_xml_pack<wu::Own> { void operator()(classdesc::xml_pack_t&, const classdesc::string&, wu::Own&); };
  template <> struct access_xml_pack<wu::Both> {
    void operator()(classdesc::xml_pack_t& t, const classdesc::string& d, wu::Both& a) { xml_pack(t,d+".e",a.e); xml_pack(t,d+".o",a.o); }
  };
}
namespace classdesc {
  template <> inline std::string typeName<wu::Ext>() {return "Ext";}
  template <> inline std::string typeName<wu::Own>() {return "Own";}
  template <> inline std::string typeName<wu::Both>() {return "Both";}
}
XP(ext,wu::Ext) XP(own,wu::Own) XP(both,wu::Both) XP(vext,vector<wu::Ext>) XP(mown,map<int,wu::Own>) XP(pext,pair<wu::Own,wu::Ext>) XP(shown,classdesc::shared_ptr<wu::Own>)
void w_p_arr(xml_pack_t& b, const string& d, wu::Own (&x)[3]) { xml_pack(b,d,classdesc::is_array(),x[0],1,3); }
void w_p_op(xml_pack_t& b, wu::Both& x) { b<<x; }
#if __cplusplus >= 201703L
XP(tuple,std::tuple<int,double>) XP(tupown,std::tuple<wu::Own,int>)
#endif
