// Conformance driver for spec/NodeModel.tla.
//   node_driver random PROFILE SEED HISTORIES LENGTH OUTPREFIX SHARDS
//   node_driver replay BEHAVIOURS OUT       (behaviours exported by TLC)
#include "vh_mem.hpp"
#include "conduit_cpp_to_c.hpp"
#include "conduit.h"
#include <signal.h>
#include <unistd.h>
using namespace vh;
using namespace conduit;

static const int NXT=5;
static std::vector<int32>   X1(8);
static std::vector<int16>   X2(8);
static std::vector<float64> X3(4);
static std::vector<uint64>  X4(4);
static std::vector<char>    X5(16);
static char *xp[NXT]; static size_t xsz[NXT];
static Node *R[3];
static std::set<int> group_blocks;       // blocks shared below a compact root

static void init_x(){
  xp[0]=(char*)&X1[0]; xsz[0]=32; xp[1]=(char*)&X2[0]; xsz[1]=16; xp[2]=(char*)&X3[0]; xsz[2]=32;
  xp[3]=(char*)&X4[0]; xsz[3]=32; xp[4]=(char*)&X5[0]; xsz[4]=16;
  for(int i=0;i<NXT;i++){ mem::Ext e={xp[i],xsz[i]}; mem::exts->push_back(e); }
}
static J xs_json(){ J j=J::arr(); for(int i=0;i<NXT;i++) j.push(bytes_json(xp[i],xsz[i])); return j; }
static const char* xtype(int x){ static const char*t[]={"int32","int16","float64","uint64","char8_str"}; return t[x-1]; }

//------------------------------------------------------------------ addresses
typedef std::vector<int> Addr;           // root(1..3), then 1-based children
static Node &at(const Addr&a){ Node*n=R[a[0]-1]; for(size_t i=1;i<a.size();i++) n=n->child_ptr(a[i]-1); return *n; }
static bool locate(const Node*root,const Node*t,Addr&a){ if(root==t) return true; for(idx_t i=0;i<root->number_of_children();i++){ a.push_back((int)i+1); if(locate(root->child_ptr(i),t,a)) return true; a.pop_back(); } return false; }
static Addr addr_of(const Node*t){ for(int r=0;r<3;r++){ Addr a(1,r+1); if(locate(R[r],t,a)) return a; } return Addr(1,-1); }
static J aj(const Addr&a){ return J::list(a); }
static Addr ja(const J&j){ Addr a; for(size_t i=0;i<j.size();i++) a.push_back((int)j.at(i).i); return a; }

//------------------------------------------------------------------ projection
static std::vector<std::string> sane;
static std::map<int,int> ids; 
static void need(bool b,const char*w){ if(!b){ for(size_t i=0;i<sane.size();i++) if(sane[i]==w) return; sane.push_back(w);} }
static void locate_ptr(const void*p,int&b,long&bo,size_t&room,bool&dead){
  dead=false; room=0;
  for(int i=0;i<NXT;i++) if((char*)p>=xp[i]&&(char*)p<xp[i]+xsz[i]){ b=-(i+1); bo=(char*)p-xp[i]; room=xsz[i]-(size_t)bo; return; }
  mem::Block*k=mem::find(p);
  if(!k){ b=-50; bo=0; need(false,"wild_pointer"); return; }
  b=k->id; bo=(char*)p-k->p; room=k->sz-(size_t)bo; dead=!k->live;
}
static void number(const Node&n){
  const DataType d=n.dtype();
  if(d.is_object()||d.is_list()){ for(idx_t i=0;i<n.number_of_children();i++) number(n.child(i)); return; }
  if(d.is_empty()||d.number_of_elements()==0) return;
  int b; long bo; size_t room; bool dead; locate_ptr(n.data_ptr(),b,bo,room,dead);
  if(b>=0&&!dead&&!ids.count(b)){ int k=(int)ids.size()+1; ids[b]=k; }
}
static J see(Node&n,bool view){
  J j=J::obj(); const DataType d=n.dtype(); const Node&cn=n;
  std::string k=d.is_object()?"o":d.is_list()?"l":d.is_empty()?"e":"d";
  J nm=J::arr(),ch=J::arr();
  idx_t nc=n.number_of_children();
  need(n.schema().number_of_children()==nc,"schema_child_count");
  if(k=="o"||k=="l"){
    const std::vector<std::string>&names=n.child_names();
    if(k=="o"){ need((idx_t)names.size()==nc,"names_count"); }
    else need(names.empty(),"list_names");
    std::vector<Node*> kids;
    for(idx_t i=0;i<nc;i++) kids.push_back(n.child_ptr(i));
    for(idx_t i=0;i<nc;i++){
      Node&c=*kids[(size_t)i];
      need(cpp_node(conduit_node_child(c_node(&n),i))==&c&&cpp_node(conduit_node_parent(c_node(&c)))==&n&&!conduit_node_is_root(c_node(&c))&&conduit_node_number_of_children(c_node(&n))==nc,"c_child");
      need(c.parent()==&n,"parent"); need(!c.is_root(),"is_root");
      need(&n[i]==&c&&&cn[i]==&c&&&n.child(i)==&c&&&cn.child(i)==&c&&cn.child_ptr(i)==&c,"child_by_index");
      need(&c.schema()==&n.schema().child(i),"schema_link");
      need(c.schema().parent()==&n.schema(),"schema_parent");
      if(k=="o"){
        const std::string&nn=names[(size_t)i]; nm.push(J(nn));
        need(n.has_child(nn)&&n.schema().has_child(nn),"has_child");
        { char*x=conduit_node_name(c_node(&c)); need(c.name()==x&&conduit_node_has_child(c_node(&n),nn.c_str())&&cpp_node(conduit_node_child_by_name(c_node(&n),nn.c_str()))==&c,"c_name"); free(x); x=conduit_node_path(c_node(&c)); need(c.path()==x,"c_path"); free(x); }
        need(n.schema().child_name(i)==nn,"child_name");
        need(n.schema().child_index(nn)==i,"child_index");
        need(n.has_child(nn)&&&n.child(nn)==&c&&&cn.child(nn)==&c,"child_by_name");
        if(nn.find('/')==std::string::npos&&nn!=".."&&nn!=""){ need(n.has_path(nn)&&cn.has_path(nn)&&&n.fetch_existing(nn)==&c&&&cn.fetch_existing(nn)==&c&&&cn[nn]==&c&&cn.fetch_ptr(nn)==&c,"fetch_existing"); }
      }
      ch.push(see(c,view));
    }
    // iterators visit exactly the children, in order, in both directions
    { std::vector<Node*> f; NodeIterator it=n.children(); while(it.has_next()){ Node&c=it.next(); f.push_back(&c); need(it.index()==(idx_t)f.size()-1,"it_index"); if(k=="o") need(it.name()==names[f.size()-1],"it_name"); if(f.size()>kids.size()) break; } need(f==kids,"it_forward"); }
    { std::vector<Node*> f; for(Node&c : n.children()){ f.push_back(&c); if(f.size()>kids.size()) break; } need(f==kids,"it_range"); }
    { std::vector<const Node*> f,kk(kids.begin(),kids.end()); NodeConstIterator it=cn.children(); while(it.has_next()){ const Node&c=it.next(); f.push_back(&c); need(it.index()==(idx_t)f.size()-1,"cit_index"); if(k=="o") need(it.name()==names[f.size()-1],"cit_name"); if(f.size()>kids.size()) break; } need(f==kk,"cit_forward"); }
  } else need(nc==0&&n.child_names().empty(),"leaf_children");
  j.set("k",k).set("nm",nm).set("ch",ch);
  if(k!="d"){ j.set("t","").set("n",0).set("o",0).set("s",0).set("eb",0).set("en","").set("v",J::arr()).set("b",0).set("bo",0); return j; }
  need(conduit_node_number_of_elements(c_node(&n))==d.number_of_elements()&&(conduit_node_is_data_external(c_node(&n))!=0)==n.is_data_external(),"c_leaf");
  j.set("t",tname(d.id())).set("n",(long long)d.number_of_elements()).set("o",(long long)d.offset()).set("s",(long long)d.stride()).set("eb",(long long)d.element_bytes()).set("en",endian_name(d));
  J v=J::arr(); int b=0; long bo=0;
  if(d.number_of_elements()>0){
    size_t room; bool dead; locate_ptr(n.data_ptr(),b,bo,room,dead);
    if(dead){ b=-99; bo=0; }
    else if(b!=-50){
      bool in=(size_t)d.spanned_bytes()<=room; need(in,"out_of_bounds");
      if(in){ idx_t w=DataType::default_bytes(d.id()); for(idx_t i=0;i<d.number_of_elements();i++){ need(n.element_ptr(i)==(char*)n.data_ptr()+d.offset()+d.stride()*i,"element_ptr"); const unsigned char*q=(const unsigned char*)n.element_ptr(i); for(idx_t w0=0;w0<w;w0++) v.push(J((int)q[w0])); } }
      if(b>=0) b=ids[b];
    }
  }
  j.set("v",v).set("b",b).set("bo",bo);
  return j;
}
static J post_json(){
  ids.clear(); sane.clear();
  for(int r=0;r<3;r++){ number(*R[r]); }
  J p=J::arr();
  for(int r=0;r<3;r++){ need(R[r]->parent()==NULL&&R[r]->is_root()&&R[r]->schema().is_root(),"root_parent"); p.push(see(*R[r],r==2)); }
  for(size_t i=0;i<mem::faults->size();i++) need(false,(*mem::faults)[i].c_str());
  return p;
}
static bool has_dead(const Node&n){
  const DataType d=n.dtype();
  if(d.is_object()||d.is_list()){ for(idx_t i=0;i<n.number_of_children();i++) if(has_dead(n.child(i))) return true; return false; }
  if(d.is_empty()||d.number_of_elements()==0) return false;
  mem::Block*k=mem::find(n.data_ptr()); return k&&!k->live;
}
static bool has_group(const Node&n){
  const DataType d=n.dtype();
  if(d.is_object()||d.is_list()){ for(idx_t i=0;i<n.number_of_children();i++) if(has_group(n.child(i))) return true; return false; }
  if(d.is_empty()||d.number_of_elements()==0) return false;
  mem::Block*k=mem::find(n.data_ptr()); return k&&group_blocks.count(k->id);
}
static int count_nodes(const Node&n){ int c=1; for(idx_t i=0;i<n.number_of_children();i++) c+=count_nodes(n.child(i)); return c; }

//------------------------------------------------------------------ typed calls
static std::string join(const J&pt){ std::string s; for(size_t i=0;i<pt.size();i++) s+=pt.at(i).s; return s; }
template<class T> struct TT;
#define VH_TYPE(T,NAME) \
template<> struct TT<T>{ \
  static void s_named(Node&n,T v){ n.set_##NAME(v);} \
  static void v_named(Node&n,const std::vector<T>&v){ n.set_##NAME##_vector(v);} \
  static void a_named(Node&n,const DataArray<T>&v){ n.set_##NAME##_array(v);} \
  static void p_named(Node&n,const T*p,idx_t c,idx_t o,idx_t s){ n.set_##NAME##_ptr(p,c,o,s);} \
  static void il_named(Node&n,std::initializer_list<T> v){ n.set_##NAME##_initializer_list(v);} \
  static void sp_named(Node&n,const std::string&p,T v){ n.set_path_##NAME(p,v);} \
  static void spv_named(Node&n,const std::string&p,const std::vector<T>&v){ n.set_path_##NAME##_vector(p,v);} \
  static void spa_named(Node&n,const std::string&p,const DataArray<T>&v){ n.set_path_##NAME##_array(p,v);} \
  static void spp_named(Node&n,const std::string&p,const T*q,idx_t c,idx_t o,idx_t s){ n.set_path_##NAME##_ptr(p,q,c,o,s);} \
  static void xp_named(Node&n,T*q,idx_t c,idx_t o,idx_t s){ n.set_external_##NAME##_ptr(q,c,o,s);} \
  static void xv_named(Node&n,std::vector<T>&v){ n.set_external_##NAME##_vector(v);} \
  static void xa_named(Node&n,const DataArray<T>&v){ n.set_external_##NAME##_array(v);} \
  static void xspp_named(Node&n,const std::string&p,T*q,idx_t c,idx_t o,idx_t s){ n.set_path_external_##NAME##_ptr(p,q,c,o,s);} \
  static DataType dt(idx_t c,idx_t o,idx_t s){ return DataType::NAME(c,o,s);} \
  static T*ptr(Node&n){ return n.as_##NAME##_ptr(); } \
  static DataArray<T> arr(Node&n){ return n.as_##NAME##_array(); } \
};
VH_TYPE(int8,int8) VH_TYPE(int16,int16) VH_TYPE(int32,int32) VH_TYPE(int64,int64)
VH_TYPE(uint8,uint8) VH_TYPE(uint16,uint16) VH_TYPE(uint32,uint32) VH_TYPE(uint64,uint64)
VH_TYPE(float32,float32) VH_TYPE(float64,float64)

static const int NVAR=24;
// full path of the node below an object-only chain from its root; empty: none
static std::string path_of(const Addr&a){
  std::string p; Node*n=R[a[0]-1];
  for(size_t i=1;i<a.size();i++){ if(!n->dtype().is_object()) return ""; const std::string &c=n->child_names()[(size_t)a[i]-1]; if(c.find('/')!=std::string::npos||c==""||c=="..") return ""; p+=(i>1?"/":"")+c; n=n->child_ptr(a[i]-1); }
  return p;
}
// overloads for native C types that are not one of the bit width types
template<class T> static bool gap_set(Node&n,const std::vector<T>&v,int w){ return false; }
template<class T,class G> static bool gap_set2(Node&n,const std::vector<T>&v,int w,idx_t id){
  std::vector<G> gv(v.begin(),v.end()); std::vector<G> sv(2*v.size()+2,(G)77); for(size_t i=0;i<v.size();i++) sv[1+2*i]=gv[i];
  DataType d(id,(idx_t)v.size(),sizeof(G),2*sizeof(G),sizeof(G),Endianness::DEFAULT_ID);
  if(w==0){ if(v.size()!=1) return false; n.set(gv[0]); } else if(w==1) n.set(gv); else if(w==2) n.set(DataArray<G>(sv.data(),d)); else n.set(sv.data(),(idx_t)v.size(),sizeof(G),2*sizeof(G));
  return true; }
template<> bool gap_set<int64>(Node&n,const std::vector<int64>&v,int w){ return gap_set2<int64,long long>(n,v,w,DataType::INT64_ID); }
template<> bool gap_set<uint64>(Node&n,const std::vector<uint64>&v,int w){ return gap_set2<uint64,unsigned long long>(n,v,w,DataType::UINT64_ID); }
template<> bool gap_set<int8>(Node&n,const std::vector<int8>&v,int w){ if(w==0&&v.size()==1){ n.set((char)v[0]); return true; } if(w==1){ n.set(std::vector<char>(v.begin(),v.end())); return true; } return false; }
template<class T> static void set_typed(const Addr&a,const std::vector<T>&v,int var){
  Node&n=at(a); Node&root=*R[a[0]-1]; std::string p=path_of(a);
  size_t c=v.size();
  // a strided copy of the values: every other slot, one leading slot
  std::vector<T> sv(2*c+2,(T)77); for(size_t i=0;i<c;i++) sv[1+2*i]=v[i];
  idx_t so=sizeof(T), ss=2*sizeof(T);
  if(p==""&&var>=12&&var<=19) var-=10;
  if(c!=1&&(var<=2||var==12||var==13||var==20)) var=3+(var%5);
  switch(var){
    case 0: n.set(v[0]); break;
    case 1: TT<T>::s_named(n,v[0]); break;
    case 2: n=v[0]; break;
    case 3: n.set(v); break;
    case 4: TT<T>::v_named(n,v); break;
    case 5: n=v; break;
    case 6: n.set(DataArray<T>(&sv[0],TT<T>::dt((idx_t)c,so,ss))); break;
    case 7: TT<T>::a_named(n,DataArray<T>(&sv[0],TT<T>::dt((idx_t)c,so,ss))); break;
    case 8: n.set(v.data(),(idx_t)c); break;
    case 9: n.set(&sv[0],(idx_t)c,so,ss); break;
    case 10: TT<T>::p_named(n,&sv[0],(idx_t)c,so,ss); break;
    case 11: if(c==0) TT<T>::il_named(n,std::initializer_list<T>{}); else if(c==1) n.set(std::initializer_list<T>{v[0]}); else if(c==2) TT<T>::il_named(n,std::initializer_list<T>{v[0],v[1]}); else if(c==3) n=std::initializer_list<T>{v[0],v[1],v[2]}; else n.set(v); break;
    case 12: root.set_path(p,v[0]); break;
    case 13: TT<T>::sp_named(root,p,v[0]); break;
    case 14: root.set_path(p,v); break;
    case 15: TT<T>::spv_named(root,p,v); break;
    case 16: root.set_path(p,DataArray<T>(&sv[0],TT<T>::dt((idx_t)c,so,ss))); break;
    case 17: TT<T>::spa_named(root,p,DataArray<T>(&sv[0],TT<T>::dt((idx_t)c,so,ss))); break;
    case 18: root.set_path(p,&sv[0],(idx_t)c,so,ss); break;
    case 19: TT<T>::spp_named(root,p,&sv[0],(idx_t)c,so,ss); break;
    case 20: case 21: case 22: if(!gap_set<T>(n,v,var-20)) n.set(v); break;
    case 23: if(!gap_set<T>(n,v,3)) n=DataArray<T>(&sv[0],TT<T>::dt((idx_t)c,so,ss)); break;
    default: n.set(v);
  }
}
template<class T> static std::vector<T> vals_of(const J&v){ std::vector<T> r; for(size_t i=0;i<v.size();i++){ T x; unsigned char b[8]; for(size_t q=0;q<v.at(i).size();q++) b[q]=(unsigned char)v.at(i).at(q).i; memcpy(&x,b,sizeof(T)); r.push_back(x);} return r; }
static void set_string(const Addr&a,const std::string&s,int var){
  Node&n=at(a); Node&root=*R[a[0]-1]; std::string p=path_of(a);
  switch(var%8){
    case 0: n.set(s); break;
    case 1: n.set_string(s); break;
    case 2: n.set_char8_str(s.c_str()); break;
    case 3: n=s; break;
    case 4: n=s.c_str(); break;
    case 5: if(p!="") root.set_path(p,s); else n.set(s); break;
    case 6: if(p!="") root.set_path_string(p,s); else n.set(s); break;
    case 7: if(p!="") root.set_path_char8_str(p,s.c_str()); else n.set(s); break;
  }
}
static void op_setv(const Addr&a,const std::string&t,const J&v,int var){
#define D(N,T) if(t==N){ set_typed<T>(a,vals_of<T>(v),var); return; }
  D("int8",int8) D("int16",int16) D("int32",int32) D("int64",int64) D("uint8",uint8) D("uint16",uint16) D("uint32",uint32) D("uint64",uint64) D("float32",float32) D("float64",float64)
#undef D
  std::string s; for(size_t i=0;i+1<v.size();i++) s+=(char)v.at(i).at(0).i; set_string(a,s,var);
}
template<class T> static void setx_typed(const Addr&a,T*q,std::vector<T>*whole,idx_t c,idx_t o,idx_t s,int var){
  Node&n=at(a); Node&root=*R[a[0]-1]; std::string p=path_of(a);
  bool full=whole&&o==0&&s==(idx_t)sizeof(T)&&c==(idx_t)whole->size();
  switch(var%10){
    case 0: n.set_external(q,c,o,s); break;
    case 1: TT<T>::xp_named(n,q,c,o,s); break;
    case 2: n.set_external(TT<T>::dt(c,o,s),q); break;
    case 3: n.set_external(DataArray<T>(q,TT<T>::dt(c,o,s))); break;
    case 4: TT<T>::xa_named(n,DataArray<T>(q,TT<T>::dt(c,o,s))); break;
    case 5: if(full) n.set_external(*whole); else n.set_external(q,c,o,s); break;
    case 6: if(full) TT<T>::xv_named(n,*whole); else n.set_external(q,c,o,s); break;
    case 7: if(p!="") root.set_path_external(p,q,c,o,s); else n.set_external(q,c,o,s); break;
    case 8: if(p!="") TT<T>::xspp_named(root,p,q,c,o,s); else n.set_external(q,c,o,s); break;
    case 9: if(p!="") root.set_path_external(p,DataArray<T>(q,TT<T>::dt(c,o,s))); else n.set_external(Schema(TT<T>::dt(c,o,s)),q); break;
  }
}
static void op_setx(const Addr&a,int x,idx_t c,idx_t o,idx_t s,int var){
  switch(x){
    case 1: setx_typed<int32>(a,&X1[0],&X1,c,o,s,var); break;
    case 2: setx_typed<int16>(a,&X2[0],&X2,c,o,s,var); break;
    case 3: setx_typed<float64>(a,&X3[0],&X3,c,o,s,var); break;
    case 4: setx_typed<uint64>(a,&X4[0],&X4,c,o,s,var); break;
    case 5: { std::string p=path_of(a); if(var%3==0) at(a).set_external_char8_str(&X5[0]); else if(var%3==1&&p!="") R[a[0]-1]->set_path_external_char8_str(p,&X5[0]); else at(a).set_external(DataType::char8_str(c),&X5[0]); break; }
  }
}
static DataType mk_dtype(const std::string&t,idx_t n,idx_t o,idx_t s){ idx_t id=DataType::name_to_id(t); idx_t w=DataType::default_bytes(id); return DataType(id,n,o,s,w,Endianness::DEFAULT_ID); }
static void mk_schema(Schema&s,const J&j){
  std::string k=j["k"].s;
  if(k=="d") s.set(mk_dtype(j["t"].s,j["n"].i,j["o"].i,j["s"].i));
  else if(k=="o"){ s.set(DataType::object()); for(size_t i=0;i<j["ch"].size();i++){ Schema c; mk_schema(c,j["ch"].at(i)); s.add_child(j["nm"].at(i).s).set(c);} }
  else if(k=="l"){ s.set(DataType::list()); for(size_t i=0;i<j["ch"].size();i++){ Schema c; mk_schema(c,j["ch"].at(i)); s.append().set(c);} }
}
static void write_elem(Node&n,idx_t i,const J&by,int var){
  unsigned char b[8]; size_t w=by.size(); for(size_t q=0;q<w;q++) b[q]=(unsigned char)by.at(q).i;
  const DataType d=n.dtype();
#define W(ID,T) if(d.id()==DataType::ID){ T x; memcpy(&x,b,sizeof(T)); \
    if(var%3==0){ DataArray<T> r=TT<T>::arr(n); r[i]=x; } \
    else if(var%3==1&&d.stride()==(idx_t)sizeof(T)){ T*p=TT<T>::ptr(n); p[i]=x; } \
    else { DataArray<T> r=n.value(); r.element(i)=x; } return; }
  W(INT8_ID,int8) W(INT16_ID,int16) W(INT32_ID,int32) W(INT64_ID,int64) W(UINT8_ID,uint8) W(UINT16_ID,uint16) W(UINT32_ID,uint32) W(UINT64_ID,uint64) W(FLOAT32_ID,float32) W(FLOAT64_ID,float64)
#undef W
  memcpy(n.element_ptr(i),b,w);
}
// calls that must not change anything
static void read_only(Node&n,Node&other,const std::string&w){
  const Node&c=n;
  if(w=="json"){ c.to_json(); c.to_json("conduit_json"); c.to_json("conduit_base64_json"); }
  else if(w=="yaml"){ c.to_yaml(); c.to_string(); c.to_string("conduit_json"); c.to_summary_string(); }
  else if(w=="info"){ Node i; c.info(i); c.schema().to_json(); c.schema().to_yaml(); }
  else if(w=="diff"){ Node i; c.diff(other,i); }
  else if(w=="diffc"){ Node i; c.diff_compatible(other,i); c.compatible(other); c.schema().equals(other.schema()); }
  else if(w=="compact"){ Node i; c.compact_to(i); std::vector<uint8> d; c.serialize(d); Schema s; c.schema().compact_to(s); }
  else if(w=="copy"){ Node i(c); Node q; q.set(c); q=c; Node x; x.set_external(c); x.reset(); }
  else if(w=="sizes"){ c.total_bytes_compact(); c.total_strided_bytes(); c.total_bytes_allocated(); c.is_contiguous(); c.is_compact(); c.contiguous_with(other); c.contiguous_data_ptr(); }
  else if(w=="iter"){ NodeConstIterator it=c.children(); while(it.has_next()){ const Node&q=it.next(); q.name(); q.path(); NodeConstIterator i2=q.children(); while(i2.has_next()) i2.next().dtype(); } }
  else if(w=="conv"){ if(c.dtype().is_number()){ Node r; c.to_float64_array(r); Node r2; c.to_int32_array(r2); c.as_float64_accessor(); if(c.dtype().number_of_elements()>0){ c.to_double(); c.to_int(); c.to_uint64(); } } }
  else if(w=="desc"){ Node r; Node opts; c.describe(opts,r); }
}
// drive an iterator; every answer is recorded as a string
template<class It,class N> static void iterate(It it,N&n,const J&mv,std::vector<std::string>&out){
  for(size_t i=0;i<mv.size();i++){ std::string m=mv.at(i).s; std::string r="?";
    try{
      if(m=="hn") r=it.has_next()?"T":"F"; else if(m=="hp") r=it.has_previous()?"T":"F";
      else if(m=="front"){ it.to_front(); r="-"; } else if(m=="back"){ it.to_back(); r="-"; }
      else { const Node*q= m=="next"?&it.next(): m=="prev"?&it.previous(): m=="pn"?&it.peek_next():&it.peek_previous(); for(idx_t k=0;k<n.number_of_children();k++) if(n.child_ptr(k)==q) r=std::to_string(k);
        if(m=="next"||m=="prev"){ if(std::to_string(it.index())!=r) r+="!index"; if(&it.node()!=q) r+="!node"; if(n.dtype().is_object()&&it.name()!=n.child_names()[(size_t)it.index()]) r+="!name"; } }
    }catch(std::exception&){ r="E"; }
    out.push_back(r); }
}
//------------------------------------------------------------------ one call
// executes op and returns the op extended with ok / res / post ...
static J execute(J op){
  std::string o=op["op"].s; Addr a=ja(op["a"]); int var=op.has("var")?(int)op["var"].i:0;
  J res=J::obj(); Addr rip; std::string rs; bool rb=false,kept=false,ok=true; std::vector<std::string> rl;
  int id0=mem::next_id;
  const void*before=0; bool wasleaf=false;
  const bool C=((var>>10)&3)==3;   // one call in four goes through the C interface
  try{
    Node&n=at(a); conduit_node*c=c_node(&n);
    DataType d0=n.dtype(); wasleaf=!(d0.is_object()||d0.is_list()||d0.is_empty()); before=wasleaf?n.data_ptr():0;
    if(C&&o=="fetch") rip=addr_of(cpp_node(conduit_node_fetch(c,join(op["pt"]).c_str())));
    else if(C&&o=="fe") rip=addr_of(cpp_node(conduit_node_fetch_existing(c,join(op["pt"]).c_str())));
    else if(C&&o=="addc") rip=addr_of(cpp_node(conduit_node_add_child(c,op["nm"].s.c_str())));
    else if(C&&o=="app") rip=addr_of(cpp_node(conduit_node_append(c)));
    else if(C&&o=="child") rip=addr_of(cpp_node(conduit_node_child(c,op["i"].i)));
    else if(C&&o=="childn") rip=addr_of(cpp_node(conduit_node_child_by_name(c,op["nm"].s.c_str())));
    else if(C&&o=="rmp") conduit_node_remove_path(c,join(op["pt"]).c_str());
    else if(C&&o=="rmc") conduit_node_remove_child_by_name(c,op["nm"].s.c_str());
    else if(C&&o=="rmi") conduit_node_remove_child(c,op["i"].i);
    else if(C&&o=="ren") conduit_node_rename_child(c,op["nm"].s.c_str(),op["nm2"].s.c_str());
    else if(C&&o=="reset") conduit_node_reset(c);
    else if(C&&o=="move") conduit_node_move(c,c_node(&at(ja(op["a2"]))));
    else if(C&&o=="swap") conduit_node_swap(c,c_node(&at(ja(op["a2"]))));
    else if(C&&o=="setxn") conduit_node_set_external_node(c,c_node(&at(ja(op["a2"]))));
    else if(C&&o=="upd") conduit_node_update(c,c_node(&at(ja(op["a2"]))));
    else if(C&&o=="updc") conduit_node_update_compatible(c,c_node(&at(ja(op["a2"]))));
    else if(C&&o=="updx") conduit_node_update_external(c,c_node(&at(ja(op["a2"]))));
    else if(C&&o=="qpath") rb=conduit_node_has_path(c,join(op["pt"]).c_str())!=0;
    else if(C&&o=="qchild") rb=conduit_node_has_child(c,op["nm"].s.c_str())!=0;
    else if(C&&o=="qname"){ char*x=conduit_node_path(c); rs=x; free(x); x=conduit_node_name(c); rl.push_back(x); free(x); }
    else if(C&&o=="qpar"){ Node*q=cpp_node(conduit_node_parent(c)); if(q) rip=addr_of(q); }
    else if(o=="fetch"){ std::string p=join(op["pt"]); Node*q= var%3==0?&n.fetch(p): var%3==1?&n[p]:n.fetch_ptr(p); rip=addr_of(q); }
    else if(o=="fe"){ std::string p=join(op["pt"]); const Node&cn=n; const Node*q= var%4==0?&n.fetch_existing(p): var%4==1?&cn.fetch_existing(p): var%4==2?&cn[p]:&cn.fetch(p); rip=addr_of(q); }
    else if(o=="addc"){ rip=addr_of(&n.add_child(op["nm"].s)); }
    else if(o=="app"){ rip=addr_of(&n.append()); }
    else if(o=="child"){ idx_t i=op["i"].i; const Node&cn=n; rip=addr_of(var%4==0?&n.child(i):var%4==1?&cn.child(i):var%4==2?&n[i]:cn.child_ptr(i)); }
    else if(o=="childn"){ const Node&cn=n; rip=addr_of(var%2?&n.child(op["nm"].s):&cn.child(op["nm"].s)); }
    else if(o=="rmp") n.remove(join(op["pt"]));
    else if(o=="rmc") n.remove_child(op["nm"].s);
    else if(o=="rmi") n.remove((idx_t)op["i"].i);
    else if(o=="ren") n.rename_child(op["nm"].s,op["nm2"].s);
    else if(o=="reset") n.reset();
    else if(o=="move") n.move(at(ja(op["a2"])));
    else if(o=="swap") n.swap(at(ja(op["a2"])));
    else if(o=="setv"){ op_setv(a,op["t"].s,op["v"],var); kept=wasleaf&&at(a).data_ptr()==before; }
    else if(o=="initdt"){ DataType d=mk_dtype(op["t"].s,op["n"].i,op["o"].i,op["s"].i); std::string p=path_of(a); if(var%3==0) n.set(d); else if(var%3==1) n.set_dtype(d); else if(p!="") R[a[0]-1]->set_path(p,d); else n=d; kept=wasleaf&&at(a).data_ptr()==before; }
    else if(o=="setdt"){ DataType d=mk_dtype(op["t"].s,op["n"].i,op["o"].i,op["s"].i); std::vector<char> by; for(size_t i=0;i<op["by"].size();i++) by.push_back((char)op["by"].at(i).i); std::string p=path_of(a); if(var%3==0) n.set(d,by.data()); else if(var%3==1) n.set_data_using_dtype(d,by.data()); else if(p!="") R[a[0]-1]->set_path(p,d,by.data()); else n.set(d,by.data()); }
    else if(o=="setx") op_setx(a,(int)op["x"].i,op["n"].i,op["o"].i,op["s"].i,var);
    else if(o=="setn"){ const Node&src=at(ja(op["a2"])); std::string p=path_of(a); if(var%5==0) n.set(src); else if(var%5==1) n.set_node(src); else if(var%5==2) n=src; else if(var%5==3){ if(p!="") R[a[0]-1]->set_path(p,src); else n.set(src);} else { if(p!="") R[a[0]-1]->set_path_node(p,src); else n=src; } }
    else if(o=="setxn"){ Node&src=at(ja(op["a2"])); if(var%2) n.set_external(src); else n.set_external_node(src); }
    else if(o=="setsch"||o=="setschd"||o=="setschx"){ Schema s; mk_schema(s,op["sc"]); std::string p=path_of(a);
      if(o=="setsch"){ if(var%3==0) n.set(s); else if(var%3==1) n.set_schema(s); else n=s; }
      else if(o=="setschd"){ std::vector<char> by; for(size_t i=0;i<op["by"].size();i++) by.push_back((char)op["by"].at(i).i); if(var%3==0) n.set(s,by.data()); else if(var%3==1) n.set_data_using_schema(s,by.data()); else if(p!="") R[a[0]-1]->set_path(p,s,by.data()); else n.set(s,by.data()); }
      else { void*q=xp[op["x"].i-1]; if(var%3==0) n.set_external(s,q); else if(var%3==1) n.set_external_data_using_schema(s,q); else if(p!="") R[a[0]-1]->set_path_external(p,s,q); else n.set_external(s,q); }
      if(o!="setschx") for(int b=id0;b<mem::next_id;b++) group_blocks.insert(b); }
    else if(o=="listof"){ Schema s; mk_schema(s,op["sc"]); int x=(int)op["x"].i; if(x==0){ n.list_of(s,op["n"].i); for(int b=id0;b<mem::next_id;b++) group_blocks.insert(b);} else n.list_of_external(xp[x-1],s,op["n"].i); }
    else if(o=="upd") n.update(at(ja(op["a2"])));
    else if(o=="updc") n.update_compatible(at(ja(op["a2"])));
    else if(o=="updx") n.update_external(at(ja(op["a2"])));
    else if(o=="compact"){ Node&src=at(ja(op["a2"])); bool grp=src.dtype().is_object()||src.dtype().is_list(); if(&src==&n){ fprintf(stderr,"bad op\n"); _exit(99); } if(C) conduit_node_compact_to(c_node(&src),c); else src.compact_to(n); if(grp) for(int b=id0;b<mem::next_id;b++) group_blocks.insert(b); }
    else if(o=="endian"){ idx_t e=op["en"].s=="big"?Endianness::BIG_ID:op["en"].s=="little"?Endianness::LITTLE_ID:Endianness::DEFAULT_ID; if(op["en"].s=="big"&&var%2) n.endian_swap_to_big(); else if(op["en"].s=="little"&&var%2) n.endian_swap_to_little(); else if(op["en"].s=="default"&&var%2) n.endian_swap_to_machine_default(); else n.endian_swap(e); }
    else if(o=="wrx"){ for(size_t i=0;i<op["by"].size();i++) xp[op["x"].i-1][op["i"].i+(long long)i]=(char)op["by"].at(i).i; }
    else if(o=="wre"){ write_elem(n,op["i"].i,op["by"],var); kept=wasleaf&&at(a).data_ptr()==before; }
    else if(o=="qpath"){ const Node&cn=n; rb= var%2?cn.has_path(join(op["pt"])):n.schema().has_path(join(op["pt"])); }
    else if(o=="qchild"){ rb= var%2?n.has_child(op["nm"].s):n.schema().has_child(op["nm"].s); }
    else if(o=="qname"){ rs= var%2?n.path():n.schema().path(); rl.push_back(var%2?n.name():n.schema().name()); }
    else if(o=="qpar"){ Node*p=n.parent(); if(p) rip=addr_of(p); }
    else if(o=="iter"){ const Node&cn=n; if(var%2) iterate(n.children(),n,op["mv"],rl); else iterate(cn.children(),cn,op["mv"],rl); }
    else if(o=="ro") read_only(n,at(ja(op["a2"])),op["w"].s);
    else { fprintf(stderr,"unknown op %s\n",o.c_str()); _exit(99); }
  } catch(std::exception&e){ ok=false; if(getenv("VH_DEBUG")) fprintf(stderr,"EXC %s: %s\n",o.c_str(),e.what()); }
  if(!ok){ rip.clear(); rs=""; rb=false; kept=false; rl.clear(); }
  res.set("ip",aj(rip)).set("s",rs).set("b",rb).set("l",J::list(rl)).set("kept",kept);
  op.set("ok",ok).set("res",res);
  int lv=mem::live_n;
  op.set("post",post_json()).set("xs",xs_json()).set("lv",lv);
  J ab=J::arr(); for(int r=0;r<3;r++) ab.push((long long)R[r]->total_bytes_allocated()); op.set("ab",ab);
  op.set("sane",J::list(sane));
  return op;
}
static void fill_x(Rng&g){ for(int i=0;i<NXT;i++) for(size_t q=0;q<xsz[i];q++) xp[i][q]=(char)g.range(1,255); for(int i=0;i<4;i++) X3[(size_t)i]=(double)g.range(-1000,1000)/8; X5[15]=0; X5[(size_t)g.range(2,14)]=0; for(int q=0;q<15;q++) X5[q]&=0x7f; }
static J begin_event(){ J e=J::obj(); e.set("op","begin").set("xs",xs_json()); return e; }

//------------------------------------------------------------------ random histories
static Rng g(1); static bool wide=false;
static std::vector<std::string> NAMES={"a","b","c"};
static Addr pick_addr(int rootmask,int down=65){
  std::vector<int> rs; for(int r=0;r<3;r++) if(rootmask&(1<<r)) rs.push_back(r+1);
  Addr a(1,g.pick(rs)); for(;;){ Node&n=at(a); idx_t nc=n.number_of_children(); if(nc==0||!g.chance(down)) return a; a.push_back(g.range(1,(int)nc)); }
}
static bool nested(const Addr&a,const Addr&b){ size_t m=std::min(a.size(),b.size()); for(size_t i=0;i<m;i++) if(a[i]!=b[i]) return false; return true; }
static J rand_path(){
  J p=J::arr(); int c=wide?(g.chance(70)?1:2):g.range(1,3); if(g.chance(8)) p.push(J("/"));
  for(int i=0;i<c;i++){ if(i){ p.push(J("/")); if(g.chance(5)) p.push(J("/")); } p.push(g.chance(7)?J(".."):J(g.pick(NAMES))); }
  if(g.chance(5)) p.push(J("/")); if(g.chance(2)) p.push(J("/")); if(g.chance(2)) return J::arr(); if(g.chance(1)) return J::arr().push(J("/"));
  return p;
}
static std::string rand_name(){ if(g.chance(10)) return g.chance(50)?"p/q":"a/b"; return g.pick(NAMES); }
static std::vector<std::string> TS;  // types this history prefers
static const char*TYPES[]={"int8","int16","int32","int64","uint8","uint16","uint32","uint64","float32","float64","char8_str"};
static std::string rand_type(int m){ return TS.empty()||g.chance(10)?std::string(TYPES[g.below(m)]):g.pick(TS); }
static J rand_elem(const std::string&t){
  J e=J::arr(); idx_t w=DataType::default_bytes(DataType::name_to_id(t));
  if(t=="float32"){ float f=(float)g.range(-9999,9999)/16; return bytes_json(&f,4);} if(t=="float64"){ double f=(double)g.range(-99999,99999)/32; return bytes_json(&f,8);} 
  if(t=="char8_str"){ e.push(J(g.range(65,90))); return e; }
  for(idx_t i=0;i<w;i++) e.push(J(g.below(256))); return e;
}
static J rand_vals(const std::string&t,int n){ J v=J::arr(); for(int i=0;i<n;i++) v.push(rand_elem(t)); if(t=="char8_str") v.push(J::arr().push(J(0))); return v; }
static J rand_schema(int depth,idx_t&off){
  J j=J::obj(); int k=depth==0?0:g.below(4);
  if(k<2){ std::string t=TYPES[g.below(10)]; idx_t w=DataType::default_bytes(DataType::name_to_id(t)); int n=g.range(1,3); idx_t s=w*g.range(1,2); idx_t o=off; off=o+s*(n-1)+w+g.below(2); j.set("k","d").set("nm",J::arr()).set("ch",J::arr()).set("t",t).set("n",n).set("o",(long long)o).set("s",(long long)s); return j; }
  int c=g.range(1,2); J nm=J::arr(),ch=J::arr(); for(int i=0;i<c;i++){ if(k==2) nm.push(J(NAMES[(size_t)i])); ch.push(rand_schema(depth-1,off)); }
  j.set("k",k==2?"o":"l").set("nm",nm).set("ch",ch).set("t","").set("n",0).set("o",0).set("s",0); return j;
}
static idx_t schema_span(const J&j){ if(j["k"].s=="d") return j["o"].i+j["s"].i*(j["n"].i-1)+DataType::default_bytes(DataType::name_to_id(j["t"].s)); idx_t m=0; for(size_t i=0;i<j["ch"].size();i++) m=std::max(m,schema_span(j["ch"].at(i))); return m; }
static J schema_leaf_for(int x){ J j=J::obj(); j.set("k","d").set("nm",J::arr()).set("ch",J::arr()).set("t",xtype(x)).set("n",2).set("o",0).set("s",(long long)DataType::default_bytes(DataType::name_to_id(xtype(x)))); return j; }
struct W { const char*op; int w; };
static std::map<std::string,std::vector<W> > PROFILES={
 {"tree",{{"fetch",14},{"fe",8},{"addc",8},{"app",8},{"child",4},{"childn",4},{"rmp",6},{"rmc",5},{"rmi",5},{"ren",7},{"reset",2},{"move",5},{"swap",6},{"setv",8},{"setn",3},{"upd",2},{"qpath",6},{"qchild",3},{"qname",4},{"qpar",3},{"iter",4},{"initdt",1},{"setsch",1}}},
 {"wide",{{"fetch",14},{"addc",14},{"app",8},{"rmp",6},{"rmc",7},{"rmi",8},{"ren",8},{"setv",3},{"move",2},{"swap",3},{"fe",4},{"qname",3},{"iter",3},{"childn",3},{"child",3}}},
 {"own",{{"fetch",8},{"app",3},{"setv",16},{"initdt",4},{"setdt",5},{"setx",10},{"setn",6},{"setxn",7},{"setsch",3},{"setschd",3},{"setschx",3},{"listof",4},{"compact",5},{"wrx",7},{"wre",9},{"move",3},{"swap",3},{"rmi",3},{"reset",3},{"updx",3},{"endian",2}}},
 {"upd",{{"fetch",9},{"app",5},{"addc",3},{"setv",16},{"setx",6},{"initdt",4},{"setn",6},{"upd",14},{"updc",14},{"updx",6},{"rmi",4},{"reset",2},{"wrx",2},{"wre",3},{"compact",2},{"endian",2}}},
 {"ro",{{"fetch",8},{"app",5},{"addc",3},{"setv",12},{"setx",6},{"setn",3},{"setxn",3},{"setsch",2},{"listof",1},{"compact",2},{"swap",1},{"ro",30},{"fe",8},{"child",3},{"childn",4},{"rmp",3},{"rmc",3},{"rmi",2},{"ren",4},{"qpath",4},{"qchild",2}}},
};
static bool gen(const std::string&o,J&op){
  op=J::obj(); op.set("op",o); int var=(int)(g.next()&0x7fff); op.set("var",var);
  int total=count_nodes(*R[0])+count_nodes(*R[1]);
  if(o=="fetch"||o=="addc"||o=="app") if(total>(wide?34:22)) return false;
  Addr a=pick_addr(3,wide?45:65); if((wide&&g.chance(70))&&(o=="addc"||o=="rmi"||o=="rmc"||o=="ren"||o=="app")) a=pick_addr(3,25);
  if(o=="fetch"||o=="rmp"||o=="fe"||o=="qpath") a=pick_addr(3,wide?25:45);
  if(o=="fetch"||o=="fe"||o=="rmp"||o=="qpath"){ J p=rand_path(); if(o=="rmp"&&p.size()==0) return false; op.set("pt",p); if(o=="rmp"&&g.chance(50)&&at(a).dtype().is_object()&&at(a).number_of_children()) op.set("pt",J::arr().push(J(g.pick(at(a).child_names())))); if(o=="rmp") for(size_t i=0;i<op["pt"].size();i++){ const std::string&c=op["pt"].at(i).s; if(c!="/"&&c.find('/')!=std::string::npos) return false; } 
    if(o=="fetch"&&a.size()>4) return false; if(o=="qpath"||o=="fe") if(g.chance(15)) a=pick_addr(7,45); }
  else if(o=="addc"){ if(a.size()>4) return false; op.set("nm",rand_name()); }
  else if(o=="app"){ if(a.size()>4) return false; if(!at(a).dtype().is_list()&&g.chance(60)) return false; }
  else if(o=="child"||o=="rmi"){ idx_t nc=at(a).number_of_children(); if(nc==0&&g.chance(70)) return false; op.set("i",(long long)g.below((int)nc+(g.chance(10)?2:0)+(nc==0?1:0))); }
  else if(o=="childn"||o=="rmc"||o=="qchild"){ op.set("nm",rand_name()); }
  else if(o=="ren"){ op.set("nm",rand_name()).set("nm2",rand_name()); Node&n=at(a); if(g.chance(75)&&n.dtype().is_object()&&n.number_of_children()) op.set("nm",g.pick(n.child_names())); else if(g.chance(60)) return false; }
  else if(o=="reset"){ a=pick_addr(7); if(a.size()==1&&g.chance(60)) return false; if(a[0]==3) a=Addr(1,3); }
  else if(o=="move"||o=="swap"){ Addr b=pick_addr(3); if(nested(a,b)) return false; if((has_group(at(a))&&a.size()>1)||(has_group(at(b))&&b.size()>1)) return false; op.set("a2",aj(b)); }
  else if(o=="setv"){ std::string t=rand_type(11); Node&n=at(a); const DataType d=n.dtype(); int cnt=g.below(5); if(d.is_number()&&g.chance(55)){ t=tname(d.id()); cnt=g.range(0,(int)d.number_of_elements()+1); if(cnt>5) cnt=5; } else if(d.is_object()&&d.number_of_elements()>=0&&g.chance(60)) return false; if(g.chance(25)) cnt=1; op.set("t",t).set("v",rand_vals(t,cnt)); op.set("var",var%NVAR); }
  else if(o=="initdt"||o=="setdt"){ if(at(a).number_of_children()&&g.chance(70)) return false; std::string t=rand_type(10); if(t=="char8_str") t="int8"; idx_t w=DataType::default_bytes(DataType::name_to_id(t)); int n=g.range(1,4); idx_t s=w*g.range(1,2)+(g.chance(15)?1:0); idx_t of=g.below(4); op.set("t",t).set("n",n).set("o",(long long)of).set("s",(long long)s); if(o=="setdt"){ J by=J::arr(); for(idx_t i=0;i<of+s*(n-1)+w;i++) by.push(J(g.below(256))); op.set("by",by);} }
  else if(o=="setx"){ if(at(a).number_of_children()&&g.chance(70)) return false; int x=g.range(1,5); if(!TS.empty()&&g.chance(80)) for(int q=1;q<=5;q++) if(TS[0]==xtype(q)) x=q; int n=0,of=0,s=0; if(x==1){ n=g.range(1,4); of=4*g.below(2); s=8; } else if(x==2){ n=g.range(1,8); s=2; if(g.chance(30)) n=8; if(g.chance(30)){ n=g.range(1,4); s=4; of=2*g.below(2);} } else if(x==3){ n=g.chance(40)?4:g.range(1,4); s=8; if(g.chance(30)){ n=g.range(1,2); s=16; of=8*g.below(2);} } else if(x==4){ n=g.chance(40)?4:g.range(1,4); s=8; if(g.chance(30)){ n=g.range(1,2); s=16; of=8*g.below(2);} } else { n=(int)strlen(&X5[0])+1; s=1; } op.set("t",xtype(x)).set("n",n).set("o",of).set("s",s).set("x",x); }
  else if(o=="setn"||o=="compact"||o=="upd"||o=="updc"){ Addr b=pick_addr(3,50); if(nested(a,b)) return false; if(total+count_nodes(at(b))>30||a.size()+b.size()>9) return false; if(o=="upd"||o=="updc"){ a=pick_addr(3,30); b=pick_addr(3,20); if(nested(a,b)) return false; } op.set("a2",aj(b)); }
  else if(o=="setxn"){ Addr b=pick_addr(3,50); a=Addr(1,3); op.set("a2",aj(b)); }
  else if(o=="updx"){ Addr b=pick_addr(3,50); a=Addr(1,3); op.set("a2",aj(b)); }
  else if(o=="setsch"||o=="setschd"){ if(at(a).number_of_children()&&g.chance(70)) return false; idx_t off=0; J sc=rand_schema(2,off); op.set("sc",sc); if(o=="setschd"){ J by=J::arr(); for(idx_t i=0;i<schema_span(sc);i++) by.push(J(g.below(256))); op.set("by",by);} }
  else if(o=="setschx"){ if(at(a).number_of_children()&&g.chance(70)) return false; int x=g.range(2,4); J c=J::obj(); idx_t w=DataType::default_bytes(DataType::name_to_id(xtype(x))); J l1=schema_leaf_for(x),l2=schema_leaf_for(x); l1.set("s",(long long)w*2); l2.set("s",(long long)w*2).set("o",(long long)w); c.set("k",g.chance(50)?"o":"l").set("nm",J::arr()).set("ch",J::arr().push(l1).push(l2)).set("t","").set("n",0).set("o",0).set("s",0); if(c["k"].s=="o") c.set("nm",J::arr().push(J("a")).push(J("b"))); op.set("sc",c).set("x",x); }
  else if(o=="listof"){ if(at(a).number_of_children()&&g.chance(70)) return false; if(g.chance(50)){ idx_t off=0; op.set("sc",rand_schema(1,off)).set("n",g.range(0,3)).set("x",0); } else { int x=g.range(2,4); op.set("sc",schema_leaf_for(x)).set("n",g.range(1,2)).set("x",x);} }
  else if(o=="wrx"){ int x=g.range(1,4); op.set("x",x); idx_t w=DataType::default_bytes(DataType::name_to_id(xtype(x))); int e=g.below((int)(xsz[x-1]/(size_t)w)); op.set("i",(long long)(e*w)).set("by",rand_elem(xtype(x))); a=Addr(1,1); }
  else if(o=="wre"){ a=pick_addr(7,85); Node&n=at(a); const DataType d=n.dtype(); if(!d.is_number()||d.number_of_elements()==0) return false; op.set("i",(long long)g.below((int)d.number_of_elements())).set("by",rand_elem(tname(d.id()))); }
  else if(o=="endian"){ const char*e[]={"big","little","default"}; op.set("en",e[g.below(3)]); }
  else if(o=="ro"){ a=pick_addr(7,30); Addr b=pick_addr(7,30); op.set("a2",aj(b)); const char*w[]={"json","yaml","info","diff","diffc","compact","copy","sizes","iter","conv","desc"}; op.set("w",w[g.below(11)]); }
  else if(o=="iter"){ J mv=J::arr(); const char*m[]={"hn","hp","next","next","next","prev","prev","pn","pp","front","back"}; int c=g.range(4,12); for(int i=0;i<c;i++) mv.push(J(m[g.below(11)])); op.set("mv",mv); a=pick_addr(7,40); }
  else if(o=="qname"||o=="qpar"){ a=pick_addr(7,80); }
  op.set("a",aj(a));
  return true;
}
static std::string outname; 
static void on_alarm(int){ const char m[]="DRIVER-TIMEOUT\n"; if(write(2,m,sizeof(m)-1)){} _exit(86); }
int main(int argc,char**argv){
  quiet(); signal(SIGALRM,on_alarm); alarm(600);
  mem::start(); mem::on=false; init_x();
  std::string mode=argv[1];
  if(mode=="random"){
    std::string prof=argv[2]; uint64_t seed=strtoull(argv[3],0,10); int H=atoi(argv[4]),L=atoi(argv[5]); std::string pre=argv[6]; int S=atoi(argv[7]);
    std::vector<W> ws=PROFILES[prof]; int tot=0; for(size_t i=0;i<ws.size();i++) tot+=ws[i].w;
    std::vector<FILE*> fs; for(int s=0;s<S;s++){ char t[512]; snprintf(t,512,"%s%d.ndjson",pre.c_str(),s); fs.push_back(fopen(t,"w")); setvbuf(fs.back(),0,_IOFBF,1<<16);} 
    for(int h=0;h<H;h++){
      FILE*f=fs[(size_t)(h%S)]; g=Rng(seed*1000003+(uint64_t)h); group_blocks.clear(); fill_x(g);
      { static const char*pool[]={"a","b","c","d","e","f","g","h","i","j","k","l"}; int k=prof=="wide"?g.range(6,12):h%4==3?g.range(5,10):3; NAMES.assign(pool,pool+k); wide=k>3;
        TS.clear(); if(h%3){ static const char*xt[]={"int32","int16","float64","uint64"}; TS.push_back(xt[g.below(4)]); TS.push_back(g.chance(50)?xt[g.below(4)]:TYPES[g.below(11)]); } }
      mem::on=true; for(int r=0;r<3;r++) R[r]=new Node();
      fprintf(f,"%s\n",begin_event().str().c_str()); fflush(f);
      for(int i=0;i<L;i++){
        J op; bool forced=false;
        for(int r=2;r>=0;r--) if(has_dead(*R[r])){ op=J::obj(); op.set("op","reset").set("var",0).set("a",aj(Addr(1,r+1))); forced=true; break; }
        if(!forced){ for(int tr=0;tr<200;tr++){ int q=g.below(tot); size_t k=0; while(q>=ws[k].w){ q-=ws[k].w; k++; } if(gen(ws[k].op,op)) break; op=J(); } if(op.k==J::NUL) continue; }
        // the call about to be made, in case it never returns
        { FILE*c=fopen((pre+"last").c_str(),"w"); fprintf(c,"history %d step %d %s\n",h,i,op.str().c_str()); fclose(c); }
        J ev=execute(op); fprintf(f,"%s\n",ev.str().c_str());
        if(!sane.empty()) { fflush(f); break; }
      }
      // a last reset of everything: nothing may stay allocated
      if(sane.empty()) for(int r=2;r>=0;r--){ J op=J::obj(); op.set("op","reset").set("var",0).set("a",aj(Addr(1,r+1))); fprintf(f,"%s\n",execute(op).str().c_str()); }
      if(sane.empty()) for(int r=0;r<3;r++) delete R[r]; 
      mem::sweep(); mem::on=false;
    }
    for(size_t s=0;s<fs.size();s++) fclose(fs[s]);
  } else {
    std::ifstream in(argv[2]); FILE*f=fopen(argv[3],"w"); std::string line;
    while(std::getline(in,line)){
      if(line.empty()) continue;
      J b=J::parse(line); const J&h=b["h"]; group_blocks.clear();
      for(int i=0;i<NXT;i++) for(size_t q=0;q<xsz[i];q++) xp[i][q]=(char)(q+1); X5[15]=0; X5[3]=0;
      mem::on=true; for(int r=0;r<3;r++) R[r]=new Node();
      { FILE*c=fopen((std::string(argv[3])+".last").c_str(),"w"); fprintf(c,"%s\n",line.c_str()); fclose(c); }
      J ev; for(size_t i=0;i<h.size();i++) ev=execute(h.at(i));
      J o=J::obj(); o.set("ok",ev["ok"]).set("res",ev["res"]).set("post",ev["post"]).set("xs",ev["xs"]).set("lv",ev["lv"]).set("ab",ev["ab"]).set("sane",ev["sane"]);
      fprintf(f,"%s\n",o.str().c_str());
      for(int r=0;r<3;r++) delete R[r]; mem::sweep(); mem::on=false;
    }
    fclose(f);
  }
  return 0;
}
