// Driver for spec/Forms.tla: every typed overload of the C++ and C interfaces
// that puts a value, an array or external memory into a node, or gets it out.
#include "vh_fun.hpp"
#include "conduit_cpp_to_c.hpp"
#include "conduit.h"
#include <type_traits>
#include <memory>
using namespace vh; using namespace conduit;
template<class T> static std::string tn(){ if(std::is_floating_point<T>::value) return sizeof(T)==4?"float32":"float64"; return std::string(std::is_signed<T>::value?"int":"uint")+std::to_string(sizeof(T)*8); }
struct Call { void*buf; idx_t n,a,b,en; std::string path; template<class T> T*p()const{ return (T*)buf; } template<class T> DataType dt()const{ return DataType(DataType::name_to_id(tn<T>()),n,a*(idx_t)sizeof(T),b*(idx_t)sizeof(T),sizeof(T),en); } template<class T> std::vector<T> vec()const{ return std::vector<T>(p<T>(),p<T>()+n); } std::shared_ptr<void> hold; char*kdata=0; };
// k: s scalar, p pointer, d pointer with layout, a array view, v vector, i list
struct Form { std::string name,t; char k; bool ext,path; std::function<void(Node&,Call&)> f; };
static std::vector<Form> F;
struct Get { std::string name,t; char k; std::function<J(Node&,const std::string&)> f; };   // k: s scalar, p pointer, a all elements
static std::vector<Get> G;
static const char*base=0; static int slot=1;
template<class T> static std::string hx(T v){ return hex(&v,sizeof(T)); }
static void add(const std::string&n,const std::string&t,char k,bool e,bool p,std::function<void(Node&,Call&)> f){ F.push_back(Form{n,t,k,e,p,f}); }
#define FORM(T,NM,K,E,P,...) add(NM,tn<T>(),K,E,P,[](Node&n,Call&c){ typedef T U; (void)sizeof(U); (void)n; (void)c; __VA_ARGS__; });
#define FULL (U*)c.buf,c.n,c.a*(idx_t)sizeof(U),c.b*(idx_t)sizeof(U),(idx_t)sizeof(U),c.en
#define ARR DataArray<U>(c.buf,c.dt<U>())
#define LIST(CALL) { U*q=c.p<U>(); switch(c.n){ case 1: { std::initializer_list<U> l={q[0]}; CALL; break; } case 2: { std::initializer_list<U> l={q[0],q[1]}; CALL; break; } case 3: { std::initializer_list<U> l={q[0],q[1],q[2]}; CALL; break; } default: { std::initializer_list<U> l={}; CALL; } } }
template<class T> static std::vector<T>&kvec(Call&c){ std::shared_ptr<std::vector<T> > v(new std::vector<T>(c.p<T>(),c.p<T>()+c.n)); c.hold=v; c.kdata=(char*)v->data(); return *v; }
// external vectors: the vector itself is the caller's memory; the driver swaps it in for the buffer
#define BIT(T) \
  FORM(T,"set_" #T,'s',false,false,n.set_##T(*c.p<U>())) FORM(T,"set_" #T "_array",'a',false,false,n.set_##T##_array(ARR)) FORM(T,"set_" #T "_vector",'v',false,false,n.set_##T##_vector(c.vec<U>())) \
  FORM(T,"set_" #T "_initializer_list",'i',false,false,LIST(n.set_##T##_initializer_list(l))) FORM(T,"set_" #T "_ptr",'d',false,false,n.set_##T##_ptr(FULL)) FORM(T,"set_" #T "_ptr",'p',false,false,n.set_##T##_ptr(c.p<U>(),c.n)) \
  FORM(T,"set_path_" #T,'s',false,true,n.set_path_##T(c.path,*c.p<U>())) FORM(T,"set_path_" #T "_array",'a',false,true,n.set_path_##T##_array(c.path,ARR)) FORM(T,"set_path_" #T "_vector",'v',false,true,n.set_path_##T##_vector(c.path,c.vec<U>())) \
  FORM(T,"set_path_" #T "_ptr",'d',false,true,n.set_path_##T##_ptr(c.path,FULL)) FORM(T,"set_path_" #T "_ptr",'p',false,true,n.set_path_##T##_ptr(c.path,c.p<U>(),c.n)) \
  FORM(T,"set_external_" #T "_ptr",'d',true,false,n.set_external_##T##_ptr(FULL)) FORM(T,"set_external_" #T "_ptr",'p',true,false,n.set_external_##T##_ptr(c.p<U>(),c.n)) FORM(T,"set_external_" #T "_array",'a',true,false,n.set_external_##T##_array(ARR)) FORM(T,"set_external_" #T "_vector",'v',true,false,n.set_external_##T##_vector(kvec<U>(c))) \
  FORM(T,"set_path_external_" #T "_ptr",'d',true,true,n.set_path_external_##T##_ptr(c.path,FULL)) FORM(T,"set_path_external_" #T "_ptr",'p',true,true,n.set_path_external_##T##_ptr(c.path,c.p<U>(),c.n)) FORM(T,"set_path_external_" #T "_array",'a',true,true,n.set_path_external_##T##_array(c.path,ARR)) FORM(T,"set_path_external_" #T "_vector",'v',true,true,n.set_path_external_##T##_vector(c.path,kvec<U>(c)))
#define OVR0(T) \
  FORM(T,"set(" #T ")",'s',false,false,n.set(*c.p<U>())) FORM(T,"set(array<" #T ">)",'a',false,false,n.set(ARR)) FORM(T,"set(vector<" #T ">)",'v',false,false,n.set(c.vec<U>())) FORM(T,"set({" #T "})",'i',false,false,LIST(n.set(l))) \
  FORM(T,"=(" #T ")",'s',false,false,n=*c.p<U>()) FORM(T,"=(array<" #T ">)",'a',false,false,n=ARR) FORM(T,"=(vector<" #T ">)",'v',false,false,n=c.vec<U>()) FORM(T,"=({" #T "})",'i',false,false,LIST(n=l)) \
  FORM(T,"set_path(" #T ")",'s',false,true,n.set_path(c.path,*c.p<U>())) FORM(T,"set_path(array<" #T ">)",'a',false,true,n.set_path(c.path,ARR)) FORM(T,"set_path(vector<" #T ">)",'v',false,true,n.set_path(c.path,c.vec<U>())) \
  FORM(T,"set_external(array<" #T ">)",'a',true,false,n.set_external(ARR)) FORM(T,"set_external(vector<" #T ">)",'v',true,false,n.set_external(kvec<U>(c))) \
  FORM(T,"set_path_external(array<" #T ">)",'a',true,true,n.set_path_external(c.path,ARR)) FORM(T,"set_path_external(vector<" #T ">)",'v',true,true,n.set_path_external(c.path,kvec<U>(c)))
#define OVR(T) OVR0(T) \
  FORM(T,"set(" #T "*)",'d',false,false,n.set(FULL)) FORM(T,"set(" #T "*)",'p',false,false,n.set(c.p<U>(),c.n)) FORM(T,"set_path(" #T "*)",'d',false,true,n.set_path(c.path,FULL)) FORM(T,"set_path(" #T "*)",'p',false,true,n.set_path(c.path,c.p<U>(),c.n)) \
  FORM(T,"set_external(" #T "*)",'d',true,false,n.set_external(FULL)) FORM(T,"set_external(" #T "*)",'p',true,false,n.set_external(c.p<U>(),c.n)) FORM(T,"set_path_external(" #T "*)",'d',true,true,n.set_path_external(c.path,FULL)) FORM(T,"set_path_external(" #T "*)",'p',true,true,n.set_path_external(c.path,c.p<U>(),c.n)) \
  FORM(T,"set(dtype," #T "*)",'D',false,false,n.set(c.dt<U>(),c.buf)) FORM(T,"set_external(dtype," #T "*)",'d',true,false,n.set_external(c.dt<U>(),c.buf)) FORM(T,"set_external(schema," #T "*)",'d',true,false,n.set_external(Schema(c.dt<U>()),c.buf)) \
  FORM(T,"set_path_external(dtype," #T "*)",'d',true,true,n.set_path_external(c.path,c.dt<U>(),c.buf)) FORM(T,"set_path_external(schema," #T "*)",'d',true,true,n.set_path_external(c.path,Schema(c.dt<U>()),c.buf)) FORM(T,"set_path_external_data_using_dtype(" #T "*)",'d',true,true,n.set_path_external_data_using_dtype(c.path,c.dt<U>(),c.buf)) FORM(T,"set_path_external_data_using_schema(" #T "*)",'d',true,true,n.set_path_external_data_using_schema(c.path,Schema(c.dt<U>()),c.buf)) \
  FORM(T,"set_path(dtype," #T "*)",'D',false,true,n.set_path(c.path,c.dt<U>(),c.buf)) FORM(T,"set_path(schema," #T "*)",'D',false,true,n.set_path(c.path,Schema(c.dt<U>()),c.buf)) FORM(T,"set(schema," #T "*)",'D',false,false,n.set(Schema(c.dt<U>()),c.buf)) \
  FORM(T,"set_external(node of " #T ")",'d',true,false,Node m; m.set_external(c.dt<U>(),c.buf); n.set_external(m)) FORM(T,"set_path_external(node of " #T ")",'d',true,true,Node m; m.set_external(c.dt<U>(),c.buf); n.set_path_external(c.path,m)) \
  FORM(T,"set(node of " #T ")",'N',false,false,Node m; m.set_external(c.dt<U>(),c.buf); n.set(m)) FORM(T,"set_path(node of " #T ")",'N',false,true,Node m; m.set_external(c.dt<U>(),c.buf); n.set_path(c.path,m)) FORM(T,"set_path_node(" #T ")",'N',false,true,Node m; m.set_external(c.dt<U>(),c.buf); n.set_path_node(c.path,m)) FORM(T,"set_path_external_node(" #T ")",'d',true,true,Node m; m.set_external(c.dt<U>(),c.buf); n.set_path_external_node(c.path,m)) \
  FORM(T,"c set_external_node(" #T ")",'d',true,false,Node m; m.set_external(c.dt<U>(),c.buf); conduit_node_set_external_node(CN,c_node(&m))) FORM(T,"c set_path_external_node(" #T ")",'d',true,true,Node m; m.set_external(c.dt<U>(),c.buf); conduit_node_set_path_external_node(CN,CP,c_node(&m))) FORM(T,"c set_node(" #T ")",'N',false,false,Node m; m.set_external(c.dt<U>(),c.buf); conduit_node_set_node(CN,c_node(&m))) FORM(T,"c set_path_node(" #T ")",'N',false,true,Node m; m.set_external(c.dt<U>(),c.buf); conduit_node_set_path_node(CN,CP,c_node(&m)))
#define CN c_node(&n)
#define CP c.path.c_str()
#define CAPI(T,X) \
  FORM(T,"c set_" #X,'s',false,false,conduit_node_set_##X(CN,*c.p<U>())) FORM(T,"c set_path_" #X,'s',false,true,conduit_node_set_path_##X(CN,CP,*c.p<U>())) \
  FORM(T,"c set_" #X "_ptr",'p',false,false,conduit_node_set_##X##_ptr(CN,c.p<U>(),c.n)) FORM(T,"c set_" #X "_ptr_detailed",'d',false,false,conduit_node_set_##X##_ptr_detailed(CN,FULL)) \
  FORM(T,"c set_path_" #X "_ptr",'p',false,true,conduit_node_set_path_##X##_ptr(CN,CP,c.p<U>(),c.n)) FORM(T,"c set_path_" #X "_ptr_detailed",'d',false,true,conduit_node_set_path_##X##_ptr_detailed(CN,CP,FULL)) \
  FORM(T,"c set_external_" #X "_ptr",'p',true,false,conduit_node_set_external_##X##_ptr(CN,c.p<U>(),c.n)) FORM(T,"c set_external_" #X "_ptr_detailed",'d',true,false,conduit_node_set_external_##X##_ptr_detailed(CN,FULL)) \
  FORM(T,"c set_path_external_" #X "_ptr",'p',true,true,conduit_node_set_path_external_##X##_ptr(CN,CP,c.p<U>(),c.n)) FORM(T,"c set_path_external_" #X "_ptr_detailed",'d',true,true,conduit_node_set_path_external_##X##_ptr_detailed(CN,CP,FULL)) \
  GETTER(T,"c as_" #X,'s',conduit_node_as_##X(c_node(&m))) GETTER(T,"c as_" #X "_ptr",'p',conduit_node_as_##X##_ptr(c_node(&m))) GETTER(T,"c fetch_path_as_" #X,'s',conduit_node_fetch_path_as_##X(c_node(&n),p.c_str())) GETTER(T,"c fetch_path_as_" #X "_ptr",'p',conduit_node_fetch_path_as_##X##_ptr(c_node(&n),p.c_str()))
// ---- getters: value/pointer/view of the leaf m at path p of n
template<class T> static J res(T v){ J j=J::obj(); J a=J::arr(); a.push(J(hx(v))); return j.set("v",a).set("at",0); }
template<class T> static J res(T*v){ J j=J::obj(); J a=J::arr(); if(!v) return j.set("v",a).set("at",-1); a.push(J(hx(*v))); return j.set("v",a).set("at",(long long)(((const char*)v-base)/slot)); }
template<class T> static J res(const T*v){ return res((T*)v); }
template<class T> static J res(DataArray<T> A){ J j=J::obj(); J a=J::arr(); for(idx_t i=0;i<A.number_of_elements();i++) a.push(J(hx<T>(A[i]))); return j.set("v",a).set("at",0); }
template<class T> static J res(DataAccessor<T> A){ J j=J::obj(); J a=J::arr(); for(idx_t i=0;i<A.number_of_elements();i++) a.push(J(hx<T>(A[i]))); return j.set("v",a).set("at",0); }
#define GETTER(T,NM,K,...) G.push_back(Get{NM,tn<T>(),K,[](Node&n,const std::string&p)->J{ typedef T U; (void)sizeof(U); Node&m=n.fetch_existing(p); const Node&cm=m; const Node&cn=n; (void)cm; (void)cn; (void)m; return res(__VA_ARGS__); }});
#define ASX(T,X) GETTER(T,"as_" #X,'s',cm.as_##X()) GETTER(T,"as_" #X "_ptr",'p',m.as_##X##_ptr()) GETTER(T,"const as_" #X "_ptr",'p',cm.as_##X##_ptr()) GETTER(T,"as_" #X "_array",'a',m.as_##X##_array()) GETTER(T,"const as_" #X "_array",'a',cm.as_##X##_array()) GETTER(T,"as_" #X "_accessor",'a',cm.as_##X##_accessor())
#define VAL(T) GETTER(T,"value " #T,'s',(U)m.value()) GETTER(T,"const value " #T,'s',(U)cm.value()) GETTER(T,"value " #T "*",'p',(U*)m.value()) GETTER(T,"const value " #T "*",'p',(const U*)cm.value()) GETTER(T,"value array " #T,'a',(DataArray<U>)m.value()) GETTER(T,"value accessor " #T,'a',(DataAccessor<U>)m.value()) GETTER(T,"const value accessor " #T,'a',(DataAccessor<U>)cm.value()) GETTER(T,"const value array " #T,'a',(const DataArray<U>)cm.value())
typedef signed char signed_char; typedef unsigned char unsigned_char; typedef unsigned short unsigned_short; typedef unsigned int unsigned_int; typedef unsigned long unsigned_long; typedef unsigned long long unsigned_long_long; typedef long long long_long;
static void fill(){
  BIT(int8) BIT(int16) BIT(int32) BIT(int64) BIT(uint8) BIT(uint16) BIT(uint32) BIT(uint64) BIT(float32) BIT(float64)
  OVR(signed_char) OVR(short) OVR(int) OVR(long) OVR(long_long) OVR(unsigned_char) OVR(unsigned_short) OVR(unsigned_int) OVR(unsigned_long) OVR(unsigned_long_long) OVR(float) OVR(double) OVR0(char)
  FORM(char,"set_char_ptr",'d',false,false,n.set_char_ptr(FULL)) FORM(char,"set_path_char_ptr",'d',false,true,n.set_path_char_ptr(c.path,FULL)) FORM(char,"set_external_char_ptr",'d',true,false,n.set_external_char_ptr(FULL)) FORM(char,"set_path_external_char_ptr",'d',true,true,n.set_path_external_char_ptr(c.path,FULL))
  CAPI(int8,int8) CAPI(int16,int16) CAPI(int32,int32) CAPI(int64,int64) CAPI(uint8,uint8) CAPI(uint16,uint16) CAPI(uint32,uint32) CAPI(uint64,uint64) CAPI(float32,float32) CAPI(float64,float64)
  CAPI(char,char) CAPI(short,short) CAPI(int,int) CAPI(long,long) CAPI(signed char,signed_char) CAPI(short,signed_short) CAPI(int,signed_int) CAPI(long,signed_long) CAPI(unsigned char,unsigned_char) CAPI(unsigned short,unsigned_short) CAPI(unsigned int,unsigned_int) CAPI(unsigned long,unsigned_long) CAPI(float,float) CAPI(double,double)
  ASX(int8,int8) ASX(int16,int16) ASX(int32,int32) ASX(int64,int64) ASX(uint8,uint8) ASX(uint16,uint16) ASX(uint32,uint32) ASX(uint64,uint64) ASX(float32,float32) ASX(float64,float64)
  ASX(char,char) ASX(short,short) ASX(int,int) ASX(long,long) ASX(long_long,long_long) ASX(signed char,signed_char) ASX(short,signed_short) ASX(int,signed_int) ASX(long,signed_long) ASX(long_long,signed_long_long) ASX(unsigned char,unsigned_char) ASX(unsigned short,unsigned_short) ASX(unsigned int,unsigned_int) ASX(unsigned long,unsigned_long) ASX(unsigned_long_long,unsigned_long_long) ASX(float,float) ASX(double,double)
  VAL(signed_char) VAL(short) VAL(int) VAL(long) VAL(long_long) VAL(unsigned_char) VAL(unsigned_short) VAL(unsigned_int) VAL(unsigned_long) VAL(unsigned_long_long) VAL(float) VAL(double) VAL(char)
   GETTER(index_t,"as_index_t_ptr",'p',m.as_index_t_ptr()) GETTER(index_t,"const as_index_t_ptr",'p',cm.as_index_t_ptr()) GETTER(index_t,"as_index_t_array",'a',m.as_index_t_array()) GETTER(index_t,"as_index_t_accessor",'a',cm.as_index_t_accessor())
#define RAW(T) GETTER(T,"data_ptr " #T,'b',(U*)m.data_ptr()) GETTER(T,"element_ptr " #T,'p',(U*)m.element_ptr(0)) GETTER(T,"fetch_ptr " #T,'p',(U*)n.fetch_ptr(p)->element_ptr(0)) GETTER(T,"fetch value " #T,'s',(U)n.fetch(p).value()) GETTER(T,"[] value " #T,'s',(U)n[p].value()) GETTER(T,"c data_ptr " #T,'b',(U*)conduit_node_data_ptr(c_node(&m))) GETTER(T,"c element_ptr " #T,'p',(U*)conduit_node_element_ptr(c_node(&m),0)) GETTER(T,"c fetch_path_data_ptr " #T,'b',(U*)conduit_node_fetch_path_data_ptr(c_node(&n),p.c_str())) GETTER(T,"c fetch_path_element_ptr " #T,'p',(U*)conduit_node_fetch_path_element_ptr(c_node(&n),p.c_str(),0))
  RAW(int8) RAW(int16) RAW(int32) RAW(int64) RAW(uint8) RAW(uint16) RAW(uint32) RAW(uint64) RAW(float32) RAW(float64)
}
static int warned=0; static void count_warning(const std::string&,const std::string&,int){ warned++; }
static const int K=12;   // slots per buffer
static J gen(Rng&g,const std::string&prof){
  if(F.empty()) fill();
  J op=J::obj(); bool set= prof=="set"||(prof!="get"&&g.chance(70)); std::string t; char k; bool ext=false;
  if(set){ int i=g.below((int)F.size()); const Form&f=F[(size_t)i]; op.set("op","set").set("f",f.name).set("id",i).set("ext",f.ext).set("path",f.path?std::string("a/b"):std::string("")); t=f.t; k=f.k; ext=f.ext; }
  else { int i=g.below((int)G.size()); const Get&f=G[(size_t)i]; op.set("op","get").set("f",f.name).set("id",i).set("path",std::string("a/b")); t=f.t; k=f.k;
    // a typed getter on a leaf of another type (views that convert and raw pointers have no wrong type)
    if(g.chance(20)&&k!='b'&&f.name.find("accessor")==std::string::npos&&f.name.find("element_ptr")==std::string::npos&&f.name.find("fetch_ptr")==std::string::npos){ std::string lt; do { int q=g.below(14); lt=q<10?num_types()[(size_t)q]:q==10?"object":q==11?"list":q==12?"char8_str":"empty"; } while(lt==t); op.set("op","wrong").set("lt",lt); } }
  op.set("t",t).set("k",std::string(1,k)); int w=width_of(t);
  auto slots=[&](){ J a=J::arr(); for(int i=0;i<K;i++){ if(is_float(t)) a.push(J(f_hex(t,g.range(-4000,4000)))); else a.push(J(le((long long)g.next(),w))); } return a; };
  bool lay= k=='d'||k=='a'||k=='D'||k=='N'; if(!set) lay=true;
  int n= k=='s'&&set?1:g.range(set?0:1,3), b=lay?g.range(1,3):1, a=lay?g.range(0,2):0;
  std::string en="default"; if(set&&ext&&(k=='d')&&g.chance(30)) en=g.chance(50)?"big":"little";
  op.set("n",n).set("a",a).set("b",b).set("en",en).set("buf",slots()).set("fl",slots());
  if(set){ int q=g.below(8); std::string pk=q<4?"same":q==4?"other":q==5?"obj":q==6?"list":"none"; int pn=g.range(0,4),pb=g.range(1,2),pa=g.range(0,1); op.set("pk",pk).set("pn",pn).set("pa",pa).set("pb",pb).set("pbuf",slots()); }
  return op; }
static idx_t eid(const std::string&s){ return s=="big"?(idx_t)Endianness::BIG_ID:s=="little"?(idx_t)Endianness::LITTLE_ID:(idx_t)Endianness::DEFAULT_ID; }
static J exec(const J&op){
  if(F.empty()) fill();
  std::string t=op["t"].s; int w=width_of(t); idx_t id=DataType::name_to_id(t); slot=w;
  auto load=[&](const J&a,char*p){ for(int i=0;i<K;i++) unhex(a.at((size_t)i).s,p+i*w); };
  auto dump=[&](const char*p){ J a=J::arr(); for(int i=0;i<K;i++) a.push(J(hex(p+i*w,(size_t)w))); return a; };
  std::vector<char> buf((size_t)(K*w)),pb((size_t)(K*w)); load(op["buf"],buf.data()); base=buf.data();
  Node root; std::string path=op["path"].s; J out=J::obj();
  if(op["op"].s=="wrong"){ Node&m=root[path]; root["a/c"]=7; std::string lt=op["lt"].s; if(lt=="object") m["x"]=1; else if(lt=="list") m.append()=1; else if(lt=="char8_str") m.set_string("3"); else if(lt!="empty"){ int lw=width_of(lt); m.set_external(DataType(DataType::name_to_id(lt),std::min((idx_t)op["n"].i,(idx_t)(K*w/lw)),0,lw,lw,Endianness::DEFAULT_ID),buf.data()); }
    warned=0; conduit::utils::set_warning_handler(count_warning); try { out=G[(size_t)op["id"].i].f(root,path); } catch(conduit::Error&){ warned=-1; } vh::quiet(); out.set("warned",warned>0).set("same",dump(buf.data()).str()==op["buf"].str()); return out; }
  if(op["op"].s=="get"){ Node&m=root[path]; root["a/c"]=7; m.set_external(DataType(id,op["n"].i,op["a"].i*w,op["b"].i*w,w,Endianness::DEFAULT_ID),buf.data()); out=G[(size_t)op["id"].i].f(root,path); out.set("same",dump(buf.data()).str()==op["buf"].str()); return out; }
  const Form&f=F[(size_t)op["id"].i]; if(!path.empty()) root["a/c"]=7; Node&dst=path.empty()?root:root[path]; load(op["pbuf"],pb.data()); std::string pk=op["pk"].s;
  if(pk=="same") dst.set_external(DataType(id,op["pn"].i,op["pa"].i*w,op["pb"].i*w,w,Endianness::DEFAULT_ID),pb.data()); else if(pk=="other") dst.set_external(DataType(w==1?DataType::INT16_ID:DataType::INT8_ID,2,0,w==1?2:1,w==1?2:1,Endianness::DEFAULT_ID),pb.data()); else if(pk=="obj"){ dst["x"]=1; dst["y/z"]=2; } else if(pk=="list"){ dst.append()=1; } else if(path.size()) root.remove(path);
  Call c; c.buf=buf.data(); c.n=op["n"].i; c.a=op["a"].i; c.b=op["b"].i; c.en=eid(op["en"].s); c.path=path;
  f.f(root,c);
  Node&r=path.empty()?root:root.fetch_existing(path); const DataType&d=r.dtype();
  char*cb=buf.data(); idx_t clen=K; if(c.hold){ cb=c.kdata; clen=c.n; }     // an external vector is the caller's memory
  auto vals=[&](){ J a=J::arr(); for(idx_t i=0;i<r.dtype().number_of_elements();i++) a.push(J(hex(r.element_ptr(i),(size_t)w))); return a; };
  out.set("t",DataType::id_to_name(d.id())).set("n",(long long)d.number_of_elements()).set("a",(long long)(d.offset()/w)).set("b",(long long)(d.stride()/w)).set("en",d.endianness()==Endianness::BIG_ID?"big":d.endianness()==Endianness::LITTLE_ID?"little":"default");
  const char*dp=(const char*)r.data_ptr(); out.set("at",dp==cb&&dp?"buf":dp==pb.data()?"prior":"own").set("isext",(bool)r.is_data_external()).set("v",vals()).set("buf",dump(buf.data())).set("prior",dump(pb.data()));
  out.set("rest",path.empty()?true:(root.number_of_children()==1&&root["a"].number_of_children()==2&&root["a/c"].as_int()==7&&root["a"].child(0).name()=="c"));
  load(op["fl"],buf.data()); if(c.hold&&clen) memcpy(cb,buf.data(),(size_t)(clen*w));
  out.set("v2",vals());
  for(idx_t i=0;i<r.dtype().number_of_elements();i++) memset(r.element_ptr(i),0,(size_t)w);
  if(c.hold&&clen) memcpy(buf.data(),cb,(size_t)(clen*w));
  out.set("buf3",dump(buf.data())); root.reset();
  return out; }
int main(int argc,char**argv){ return fun_main(argc,argv,gen,exec); }
