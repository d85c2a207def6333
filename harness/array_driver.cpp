// Driver for spec/Arrays.tla: DataArray, DataAccessor and Node conversions.
#include "vh_fun.hpp"
using namespace vh; using namespace conduit;
// call f with a value of the C++ type named t
template<class F> static void with(const std::string&t,F f){
  if(t=="int8") f(int8()); else if(t=="int16") f(int16()); else if(t=="int32") f(int32()); else if(t=="int64") f(int64());
  else if(t=="uint8") f(uint8()); else if(t=="uint16") f(uint16()); else if(t=="uint32") f(uint32()); else if(t=="uint64") f(uint64());
  else if(t=="float32") f(float32()); else if(t=="float64") f(float64()); else { fprintf(stderr,"type %s\n",t.c_str()); _exit(99);} }
template<class T> static J by(T v){ return bytes_json(&v,sizeof(T)); }
template<class T> static T val(const J&b){ T v; unsigned char*p=(unsigned char*)&v; for(size_t i=0;i<sizeof(T);i++) p[i]=(unsigned char)b.at(i).i; return v; }
struct View { std::vector<unsigned char> mem; DataType dt; };
static void view(const J&a,View&v){ v.mem.resize(a["mem"].size()); for(size_t i=0;i<v.mem.size();i++) v.mem[i]=(unsigned char)a["mem"].at(i).i; idx_t id=DataType::name_to_id(a["t"].s); v.dt=DataType(id,a["n"].i,a["o"].i,a["s"].i,DataType::default_bytes(id),Endianness::DEFAULT_ID); }
template<class T> static DataArray<T> nodearr(Node&n);
#define NA(T) template<> DataArray<T> nodearr<T>(Node&n){ return n.as_##T##_array(); }
NA(int8) NA(int16) NA(int32) NA(int64) NA(uint8) NA(uint16) NA(uint32) NA(uint64) NA(float32) NA(float64)
template<class T> static DataAccessor<T> nodeacc(Node&n);
#define NC(T) template<> DataAccessor<T> nodeacc<T>(Node&n){ return n.as_##T##_accessor(); }
NC(int8) NC(int16) NC(int32) NC(int64) NC(uint8) NC(uint16) NC(uint32) NC(uint64) NC(float32) NC(float64)
template<class T,class U> static void setlist(DataArray<T>&A,const std::vector<U>&v,bool asg){
  switch(v.size()){
    case 0: { std::initializer_list<U> l={}; if(asg) A=l; else A.set(l); break; }
    case 1: { if(asg) A={v[0]}; else A.set({v[0]}); break; }
    case 2: { if(asg) A={v[0],v[1]}; else A.set({v[0],v[1]}); break; }
    case 3: { if(asg) A={v[0],v[1],v[2]}; else A.set({v[0],v[1],v[2]}); break; }
    case 4: { if(asg) A={v[0],v[1],v[2],v[3]}; else A.set({v[0],v[1],v[2],v[3]}); break; }
    default: { if(asg) A={v[0],v[1],v[2],v[3],v[4]}; else A.set({v[0],v[1],v[2],v[3],v[4]}); } } }
static J scalar(const Node&n,const std::string&t,const std::string&via){
  const Node&c=n; Node&m=const_cast<Node&>(n);
  J r=J::arr();
#define S(T) if(t==#T){ if(via=="to") r.push(by<T>(c.to_##T())); else if(via=="value"){ T x=m.to_value(); r.push(by<T>(x)); } else if(via=="cvalue"){ T x=c.to_value(); r.push(by<T>(x)); } return r; }
  if(via=="to"||via=="value"||via=="cvalue"){ S(int8) S(int16) S(int32) S(int64) S(uint8) S(uint16) S(uint32) S(uint64) S(float32) S(float64) }
  // native C names of the same widths
  if(via=="native"){
    if(t=="int8") r.push(by<signed char>(c.to_signed_char())); else if(t=="int16") r.push(by<short>(c.to_short())); else if(t=="int32") r.push(by<int>(c.to_int())); else if(t=="int64") r.push(by<long>(c.to_long()));
    else if(t=="uint8") r.push(by<unsigned char>(c.to_unsigned_char())); else if(t=="uint16") r.push(by<unsigned short>(c.to_unsigned_short())); else if(t=="uint32") r.push(by<unsigned int>(c.to_unsigned_int())); else if(t=="uint64") r.push(by<unsigned long>(c.to_unsigned_long()));
    else if(t=="float32") r.push(by<float>(c.to_float())); else r.push(by<double>(c.to_double())); return r; }
  if(t=="int8") r.push(by<char>(c.to_char())); else if(t=="int16") r.push(by<signed short>(c.to_signed_short())); else if(t=="int32") r.push(by<signed int>(c.to_signed_int())); else if(t=="int64") r.push(via=="ll"?by<long long>(c.to_long_long()):by<index_t>(c.to_index_t()));
  else if(t=="uint8") r.push(by<unsigned char>(c.to_unsigned_char())); else if(t=="uint16") r.push(by<unsigned short>(c.to_unsigned_short())); else if(t=="uint32") r.push(by<unsigned int>(c.to_unsigned_int())); else if(t=="uint64") r.push(by<unsigned long long>(c.to_unsigned_long_long()));
  else if(t=="float32") r.push(by<float>(c.to_float())); else r.push(by<double>(c.to_double()));
  return r; }
static void toarr(const Node&n,const std::string&t,const std::string&via,Node&res){
  if(via=="dtype"){ n.to_data_type(DataType::name_to_id(t),res); return; }
  if(via=="native"){
    if(t=="int8") n.to_char_array(res); else if(t=="int16") n.to_short_array(res); else if(t=="int32") n.to_int_array(res); else if(t=="int64") n.to_long_array(res);
    else if(t=="uint8") n.to_unsigned_char_array(res); else if(t=="uint16") n.to_unsigned_short_array(res); else if(t=="uint32") n.to_unsigned_int_array(res); else if(t=="uint64") n.to_unsigned_long_array(res);
    else if(t=="float32") n.to_float_array(res); else n.to_double_array(res); return; }
  if(via=="ll"){ if(t=="int64"){ n.to_index_t_array(res); return; } if(t=="uint64"){ n.to_unsigned_long_long_array(res); return; } if(t=="int8"){ n.to_signed_char_array(res); return; } if(t=="int16"){ n.to_signed_short_array(res); return; } if(t=="int32"){ n.to_signed_int_array(res); return; } }
  if(via=="sl"&&t=="int64"){ if(n.dtype().number_of_elements()%2) n.to_signed_long_array(res); else n.to_signed_long_long_array(res); return; }
#define TA(T) if(t==#T) n.to_##T##_array(res);
  TA(int8) TA(int16) TA(int32) TA(int64) TA(uint8) TA(uint16) TA(uint32) TA(uint64) TA(float32) TA(float64) }
static J exec(const J&op){
  const std::string o=op["op"].s, via=op["via"].s; J out=J::obj(),ret=J::arr();
  if(o=="from_string"){ Node n; n.set(op["str"].s); out.set("ret",scalar(n,op["t"].s,via)).set("mem",J::arr()); return out; }
  View d; view(op["d"],d); Node n; n.set_external(d.dt,d.mem.data()); std::string dt=op["d"]["t"].s,t=op["t"].s;
  const Node&cn=n;
  if(o=="read") with(t,[&](auto u){ typedef decltype(u) U; idx_t N=d.dt.number_of_elements();
      if(via=="array"){ DataArray<U> A=nodearr<U>(n); for(idx_t i=0;i<A.number_of_elements();i++) ret.push(by<U>(A[i])); }
      else if(via=="carray"){ const DataArray<U> A((const void*)d.mem.data(),d.dt); for(idx_t i=0;i<A.number_of_elements();i++) ret.push(by<U>(A.element(i))); }
      else if(via=="nodeptr"){ for(idx_t i=0;i<N;i++) ret.push(by<U>(*(const U*)cn.element_ptr(i))); }
      else if(via=="acc"){ DataAccessor<U> A((const void*)d.mem.data(),d.dt); for(idx_t i=0;i<A.number_of_elements();i++) ret.push(by<U>(A[i])); }
      else { DataAccessor<U> A=nodeacc<U>(n); for(idx_t i=0;i<A.number_of_elements();i++) ret.push(by<U>(A.element(i))); } });
  else if(o=="compact") with(dt,[&](auto u){ typedef decltype(u) U; idx_t N=d.dt.number_of_elements(); std::vector<uint8> b((size_t)N*sizeof(U)+8,0x5a); 
      if(via=="array") DataArray<U>(d.mem.data(),d.dt).compact_elements_to(b.data());
      else if(via=="node"){ Node c; n.compact_to(c); for(idx_t i=0;i<N;i++) memcpy(&b[(size_t)i*sizeof(U)],c.element_ptr(i),sizeof(U)); if(!c.is_compact()||c.dtype().number_of_elements()!=N) b[(size_t)N*sizeof(U)]=1; }
      else { std::vector<uint8> sv; n.serialize(sv); if(sv.size()!=(size_t)N*sizeof(U)) b[(size_t)N*sizeof(U)]=1; else if(N) memcpy(b.data(),sv.data(),sv.size()); }
      for(idx_t i=0;i<N;i++) ret.push(bytes_json(&b[(size_t)i*sizeof(U)],sizeof(U))); for(size_t q=0;q<8;q++) if(b[(size_t)N*sizeof(U)+q]!=0x5a) ret.push(J("overrun")); });
  else if(o=="to_scalar") ret=scalar(n,t,via);
  else if(o=="to_array"){ Node res; std::string pre=op["pre"].s; if(pre=="tree") res["a/b"]=2; if(pre=="leaf") with(op["pt"].s,[&](auto u){ typedef decltype(u) U; std::vector<U> v; for(size_t i=0;i<op["pv"].size();i++) v.push_back(val<U>(op["pv"].at(i))); res.set(v); });
      toarr(n,t,via,res); if(res.dtype().name()!=t) ret.push(J("type "+res.dtype().name())); else { idx_t w=res.dtype().element_bytes(); for(idx_t i=0;i<res.dtype().number_of_elements();i++) ret.push(bytes_json(res.element_ptr(i),(size_t)w)); } }
  else if(o=="stats"){ with(t,[&](auto u){ typedef decltype(u) U; size_t p=(size_t)op["pick"].i-1; 
      auto fill=[&](auto&A){ out.set("min",by<U>(A.min())).set("max",by<U>(A.max())).set("sum",by<U>(A.sum())).set("mean",by<double>(A.mean())).set("count",(long long)A.count(A[(idx_t)p])).set("pick",(long long)p+1); };
      if(via=="array"){ DataArray<U> A=nodearr<U>(n); fill(A); } else { DataAccessor<U> A=nodeacc<U>(n); fill(A); } }); }
  else if(via=="node"){ // writes through Node::set on a compatible leaf
  }
  else with(dt,[&](auto x){ typedef decltype(x) T; with(t,[&](auto u){ typedef decltype(u) U;
      DataArray<T> A=nodearr<T>(n); std::vector<U> v; for(size_t i=0;i<op["v"].size();i++) v.push_back(val<U>(op["v"].at(i)));
      if(o=="set_element"){ idx_t i=op["i"].i-1; if(via=="acc"){ DataAccessor<U> C=nodeacc<U>(n); C.set(i,v[0]); } else if(via=="ref") A[i]=(T)v[0]; else A.set(i,v[0]); }
      else if(o=="set_values"){ if(via=="ptr") A.set(v.data(),(idx_t)v.size()); else if(via=="vec") A.set(v); else setlist<T,U>(A,v,via=="asg"); }
      else if(o=="fill"){ if(via=="acc"){ DataAccessor<U> C=nodeacc<U>(n); C.fill(v[0]); } else A.fill(v[0]); }
      else if(o=="set_array"){ View a; view(op["a"],a); DataArray<U> B(a.mem.data(),a.dt); A.set(B); }
      else if(o=="set_accessor"){ View a; view(op["a"],a); DataAccessor<U> B(a.mem.data(),a.dt); A.set(B); } }); });
  J mem=J::arr(); for(size_t i=0;i<d.mem.size();i++) mem.push(J((int)d.mem[i]));
  out.set("mem",mem); if(o!="stats") out.set("ret",ret); return out;
}
// ---- generation
static int bits_of(const std::string&t){ return 8*width_of(t); }
// a value of type t that may be converted to all types in to (in range for float to integer)
static J rnd(Rng&g,const std::string&t,const std::vector<std::string>&to,bool small){
  if(!is_float(t)){ J r; with(t,[&](auto u){ typedef decltype(u) U; U v; if(small) v=(U)g.range(t[0]=='u'?0:-20,20); else { int q=g.below(6); uint64_t b=g.next(); v=q==0?(U)g.range(t[0]=='u'?0:-5,5):q==1?(U)(1ull<<g.below(bits_of(t))):q==2?(U)((1ull<<g.below(bits_of(t)))-1):q==3?(U)~(b>>g.below(60)):q==4?(U)(b>>g.below(60)):(U)b; } r=by<U>(v); }); return r; }
  int mag=100; bool neg=true; for(size_t i=0;i<to.size();i++) if(!is_float(to[i])){ int b=bits_of(to[i])-(to[i][0]=='u'?0:1); mag=std::min(mag,b); if(to[i][0]=='u') neg=false; } if(small) mag=4;
  double v; int q=g.below(4); if(small||q==0) v=(double)g.range(0,mag<4?3:20*4)/4; else if(q==1) v=ldexp(1.0+(double)g.below(8)/8,g.range(-20,mag-1)); else { v=ldexp(1.0+(double)(g.next()>>11)/9007199254740992.0,g.range(-10,mag-1)); }
  if(small&&g.chance(50)) v=(double)g.range(0,40)/16; if(t=="float32"){ float f=(float)v; while(ldexp(1.0,mag)<=f) f/=2; v=f; } if(neg&&g.chance(50)&&v!=0) v=-v;
  return t=="float32"?by<float>((float)v):by<double>(v);
}
static J mkview(Rng&g,const std::string&t,int n,const std::vector<std::string>&to,bool small){
  int w=width_of(t); long long o=0,s=w; int q=g.below(6); if(q==1) o=w*g.range(1,2); if(q==2) s=w*g.range(2,3); if(q==3){ o=w*g.below(3); s=w*g.range(1,3);} if(q==4){ o=g.below(8); s=w+g.below(5);} if(q==5&&n==1) s=0;
  size_t L=(size_t)(o+s*(n>0?n-1:0)+w+g.below(4)); J mem=J::arr(); for(size_t i=0;i<L;i++) mem.push(J(g.below(256)));
  for(int i=0;i<n;i++){ J b=rnd(g,t,to,small); for(int k=0;k<w;k++) mem.a[(size_t)(o+s*i+k)]=b.at((size_t)k); }
  J a=J::obj(); a.set("t",t).set("o",o).set("s",s).set("n",n).set("mem",mem); return a; }
static J gen(Rng&g,const std::string&prof){
  std::vector<std::string> T=num_types(); std::string t=g.pick(T),u=g.pick(T); J op=J::obj(); int q=g.below(100); int n=g.range(0,5); if(g.chance(15)) n=g.range(6,9);
  auto pick=[&](std::vector<std::string> v){ return g.pick(v); };
  if(prof=="conv"){
    if(q<6){ static const std::vector<std::string> TT=num_types(); long long lim=t=="int8"||t=="uint8"?127:t=="int16"||t=="uint16"?30000:1000000; long long x=g.range(0,(int)lim); if(t[0]!='u'&&g.chance(50)) x=-x; std::string s=std::to_string(x); long long k=x*16; if(is_float(t)&&g.chance(60)){ int f=g.below(4); static const char*fr[]={"",".25",".5",".75"}; s+=fr[f]; k+=(x<0||s[0]=='-'?-4:4)*f; }
      op.set("op","from_string").set("t",t).set("str",s).set("q",k).set("via",pick({"to","native","value"})); return op; }
    if(q<50){ op.set("op","to_scalar").set("t",u).set("via",pick({"to","value","cvalue","native","other","ll"})).set("d",mkview(g,t,std::max(1,n),{u},false)); return op; }
    if(q<85){ std::string pre=pick({"","leaf","tree","leaf"}),pt; J pv=J::arr(); if(pre=="leaf"){ pt=g.chance(70)?u:g.pick(T); int m=g.range(1,7); for(int i=0;i<m;i++) pv.push(rnd(g,pt,{},false)); } op.set("op","to_array").set("t",u).set("via",pick({"to","dtype","native","ll","sl"})).set("pre",pre).set("pt",pt).set("pv",pv).set("d",mkview(g,t,n,{u},false)); return op; }
    op.set("op","read").set("t",u).set("via",pick({"acc","nacc"})).set("d",mkview(g,t,n,{u},false)); return op; }
  if(q<10){ op.set("op","read").set("t",t).set("via",pick({"array","carray","nodeptr","acc","nacc"})).set("d",mkview(g,t,n,{},false)); return op; }
  if(q<15){ op.set("op","compact").set("t",t).set("via",pick({"array","node","ser"})).set("d",mkview(g,t,n,{},false)); return op; }
  if(q<30){ bool arr=g.chance(50); bool small=true; if(arr) u=t; else if(u[0]=='u'&&t[0]!='u') u=t[0]=='u'?u:"int32"; op.set("op","stats").set("t",u).set("via",arr?"array":"acc").set("pick",1+g.below(std::max(1,n))).set("d",mkview(g,t,std::max(1,n),{u},small)); return op; }
  if(q<45){ n=std::max(1,n); J v=J::arr(); v.push(rnd(g,u,{t},false)); op.set("op","set_element").set("i",g.range(1,n)).set("t",u).set("via",pick({"set","ref","acc"})).set("v",v).set("d",mkview(g,t,n,{},false)); return op; }
  if(q<65){ n=std::min(n,5); std::string via=pick({"ptr","vec","il","asg"}); int m=g.range(via=="vec"?1:0,(via=="il"||via=="asg")?5:n); if(via=="vec"&&n==0) n=1; if(via=="vec") m=std::min(m,n); J v=J::arr(); for(int i=0;i<m;i++) v.push(rnd(g,u,{t},false)); op.set("op","set_values").set("t",u).set("via",via).set("v",v).set("d",mkview(g,t,n,{},false)); return op; }
  if(q<75){ J v=J::arr(); v.push(rnd(g,u,{t},false)); op.set("op","fill").set("t",u).set("via",pick({"set","acc"})).set("v",v).set("d",mkview(g,t,n,{},false)); return op; }
  if(q<90){ op.set("op","set_array").set("t",u).set("via","").set("v",J::arr()).set("a",mkview(g,u,std::max(0,n+g.below(4)-2),{t},false)).set("d",mkview(g,t,n,{},false)); return op; }
  std::string w=g.pick(T); if(is_float(w)&&u[0]=='i'&&t[0]=='u') w=u; op.set("op","set_accessor").set("t",w).set("via","").set("v",J::arr()).set("a",mkview(g,u,std::max(0,n+g.below(4)-2),{w,t},is_float(w)||is_float(u))).set("d",mkview(g,t,n,{},false)); return op;
}
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
