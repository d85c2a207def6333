// Driver for spec/Types.tla: data types built through every maker, their
// predicates, sizes and texts, in C++ and C; byte order helpers.
#include "vh_fun.hpp"
#include "conduit_cpp_to_c.hpp"
#include "conduit.h"
using namespace vh; using namespace conduit;
struct Mk { std::string f,t; std::function<DataType(int,idx_t,idx_t,idx_t,idx_t,idx_t)> mk; };
static std::vector<Mk> M;
static void fill(){
#define MK(F,T) M.push_back(Mk{#F,T,[](int k,idx_t n,idx_t o,idx_t s,idx_t w,idx_t e)->DataType{ switch(k){ case 0: return DataType::F(); case 1: return DataType::F(n); case 2: return DataType::F(n,o); case 3: return DataType::F(n,o,s); case 4: return DataType::F(n,o,s,w); default: return DataType::F(n,o,s,w,e); } }});
  MK(int8,"int8") MK(int16,"int16") MK(int32,"int32") MK(int64,"int64") MK(uint8,"uint8") MK(uint16,"uint16") MK(uint32,"uint32") MK(uint64,"uint64") MK(float32,"float32") MK(float64,"float64") MK(char8_str,"char8_str") MK(index_t,"int64")
  MK(c_char,"int8") MK(c_short,"int16") MK(c_int,"int32") MK(c_long,"int64") MK(c_long_long,"int64") MK(c_signed_char,"int8") MK(c_signed_short,"int16") MK(c_signed_int,"int32") MK(c_signed_long,"int64") MK(c_signed_long_long,"int64")
  MK(c_unsigned_char,"uint8") MK(c_unsigned_short,"uint16") MK(c_unsigned_int,"uint32") MK(c_unsigned_long,"uint64") MK(c_unsigned_long_long,"uint64") MK(c_float,"float32") MK(c_double,"float64") }
static idx_t eid(const std::string&s){ return s=="big"?(idx_t)Endianness::BIG_ID:s=="little"?(idx_t)Endianness::LITTLE_ID:(idx_t)Endianness::DEFAULT_ID; }
static const std::vector<std::string> ALL={"empty","object","list","int8","int16","int32","int64","uint8","uint16","uint32","uint64","float32","float64","char8_str"};
static const std::vector<std::string> CT={"char","short","int","long","long long","signed char","signed short","signed int","signed long","signed long long","unsigned char","unsigned short","unsigned int","unsigned long","unsigned long long","float","double"};
static J fields(const DataType&d){ J o=J::obj(); o.set("t",DataType::id_to_name(d.id())).set("n",(long long)d.number_of_elements()).set("o",(long long)d.offset()).set("s",(long long)d.stride()).set("w",(long long)d.element_bytes()).set("en",Endianness::id_to_name(d.endianness())); return o; }
static J gen(Rng&g,const std::string&){
  if(M.empty()) fill();
  J op=J::obj(); auto desc=[&](J&o,const std::string&t){ int w=width_of(t); if(t=="object"||t=="list"||t=="empty") w=0; o.set("t",t).set("n",g.range(0,4)).set("o",g.chance(40)?0:g.range(0,40)).set("s",g.chance(40)?w:g.range(0,24)).set("w",w).set("en",g.chance(50)?"default":g.chance(50)?"big":"little"); };
  int q=g.below(10);
  if(q==0){ op.set("op","name").set("t",g.pick(ALL)).set("c",g.pick(CT)).set("en",g.chance(33)?"default":g.chance(50)?"big":"little"); return op; }
  if(q==1){ int w=1<<g.range(1,3); J v=J::arr(); for(int i=0;i<w;i++) v.push(J(g.below(256))); op.set("op","swap").set("v",v).set("via",g.pick(std::vector<std::string>({"in","out"}))); return op; }
  int i=g.below((int)M.size()); J d=J::obj(),e=J::obj(); std::string via=g.pick(std::vector<std::string>({"make","make","make","id","name","set_id","set_name","set","setters","copy","assign","short","default","default_name","node"}));
  std::string t=via=="make"?M[(size_t)i].t:g.pick(ALL); desc(d,t); if(g.chance(50)) e=d; else desc(e,g.chance(60)?t:g.pick(ALL)); if(g.chance(50)){ static const char*K[]={"n","o","s","en"}; std::string k=K[g.below(4)]; if(k=="en") e.set("en",d["en"].s=="big"?"little":"big"); else e.set(k,e[k].i+1); }
  op.set("op","dtype").set("via",via).set("f",via=="make"?M[(size_t)i].f:std::string("")).set("id",i).set("k",g.range(0,5)).set("d",d).set("e",e).set("i",g.range(0,3)); return op; }
static DataType full(const J&j){ return DataType(DataType::name_to_id(j["t"].s),j["n"].i,j["o"].i,j["s"].i,j["w"].i,eid(j["en"].s)); }
static J exec(const J&op){
  if(M.empty()) fill();
  J out=J::obj(); std::string o=op["op"].s;
  if(o=="name"){ idx_t id=DataType::name_to_id(op["t"].s); out.set("t",DataType::id_to_name(id)).set("c",DataType::id_to_name(DataType::c_type_name_to_id(op["c"].s))).set("bytes",(long long)DataType::default_bytes(id)).set("nbytes",(long long)DataType::default_bytes(op["t"].s)).set("en",Endianness::id_to_name(Endianness::name_to_id(op["en"].s)))
      .set("machine",Endianness::machine_default()==(idx_t)Endianness::LITTLE_ID&&Endianness::machine_is_little_endian()&&!Endianness::machine_is_big_endian()).set("ix",DataType::sizeof_index_t()==8&&conduit_datatype_sizeof_index_t()==8); return out; }
  if(o=="swap"){ size_t w=op["v"].size(); std::vector<unsigned char> a(w+2,0x77),b(w+2,0x77); for(size_t i=0;i<w;i++) a[i+1]=(unsigned char)op["v"].at(i).i; void*p=&a[1],*q=&b[1];
    if(op["via"].s=="in"){ if(w==2) Endianness::swap16(p); else if(w==4) Endianness::swap32(p); else Endianness::swap64(p); b=a; } else { if(w==2) Endianness::swap16(p,q); else if(w==4) Endianness::swap32(p,q); else Endianness::swap64(p,q); }
    J r=J::arr(); for(size_t i=0;i<w;i++) r.push(J((int)b[i+1])); out.set("v",r).set("guard",a[0]==0x77&&a[w+1]==0x77&&b[0]==0x77&&b[w+1]==0x77); return out; }
  const J&j=op["d"]; std::string via=op["via"].s; idx_t id=DataType::name_to_id(j["t"].s); DataType d; int k=(int)op["k"].i; idx_t e=eid(j["en"].s);
  if(via=="make") d=M[(size_t)op["id"].i].mk(k,j["n"].i,j["o"].i,j["s"].i,j["w"].i,e);
  else if(via=="id") d=full(j); else if(via=="name") d=DataType(j["t"].s,j["n"].i,j["o"].i,j["s"].i,j["w"].i,e);
  else if(via=="set_id") d.set(id,j["n"].i,j["o"].i,j["s"].i,j["w"].i,e); else if(via=="set_name") d.set(j["t"].s,j["n"].i,j["o"].i,j["s"].i,j["w"].i,e); else if(via=="set") d.set(full(j));
  else if(via=="setters"){ d=full(op["e"]); d.set_id(id); d.set_number_of_elements(j["n"].i); d.set_offset(j["o"].i); d.set_stride(j["s"].i); d.set_element_bytes(j["w"].i); d.set_endianness(e); }
  else if(via=="copy"){ DataType x=full(j); d=DataType(x); } else if(via=="assign"){ DataType x=full(j); d=full(op["e"]); d=x; }
  else if(via=="short"){ if(k%2) d=DataType(id,j["n"].i); else d=DataType(id); }
  else if(via=="default") d=DataType::default_dtype(id); else if(via=="default_name") d=DataType::default_dtype(j["t"].s);
  else { Schema s(full(j)); d=s.dtype(); }
  out=fields(d); const DataType&c=d; DataType x=full(op["e"]); const conduit_datatype*cd=c_datatype(&c);
  J is=J::arr(),cis=J::arr();
#define IS(P) if(c.is_##P()) is.push(J(#P));
  IS(empty) IS(object) IS(list) IS(number) IS(floating_point) IS(integer) IS(signed_integer) IS(unsigned_integer) IS(int8) IS(int16) IS(int32) IS(int64) IS(uint8) IS(uint16) IS(uint32) IS(uint64) IS(float32) IS(float64) IS(index_t)
  IS(char) IS(short) IS(int) IS(long) IS(long_long) IS(signed_char) IS(signed_short) IS(signed_int) IS(signed_long) IS(signed_long_long) IS(unsigned_char) IS(unsigned_short) IS(unsigned_int) IS(unsigned_long) IS(unsigned_long_long) IS(float) IS(double) IS(string) IS(char8_str) IS(little_endian) IS(big_endian)
#define CIS(P) if(conduit_datatype_is_##P(cd)) cis.push(J(#P));
  CIS(empty) CIS(object) CIS(list) CIS(number) CIS(floating_point) CIS(integer) CIS(signed_integer) CIS(unsigned_integer) CIS(int8) CIS(int16) CIS(int32) CIS(int64) CIS(uint8) CIS(uint16) CIS(uint32) CIS(uint64) CIS(float32) CIS(float64)
  CIS(char) CIS(short) CIS(int) CIS(long) CIS(unsigned_char) CIS(unsigned_short) CIS(unsigned_int) CIS(unsigned_long) CIS(float) CIS(double) CIS(string) CIS(char8_str) CIS(little_endian) CIS(big_endian)
  char*nm=conduit_datatype_name(cd); std::string cn=nm; conduit_datatype_name_destroy(nm);
  bool csame= cn==d.name()&&conduit_datatype_id(cd)==d.id()&&conduit_datatype_number_of_elements(cd)==d.number_of_elements()&&conduit_datatype_offset(cd)==d.offset()&&conduit_datatype_stride(cd)==d.stride()&&conduit_datatype_element_bytes(cd)==d.element_bytes()&&conduit_datatype_endianness(cd)==d.endianness()&&conduit_datatype_element_index(cd,op["i"].i)==d.element_index(op["i"].i)&&(conduit_datatype_endianness_matches_machine(cd)!=0)==d.endianness_matches_machine();
  out.set("is",is).set("cis",cis).set("csame",csame).set("strided",(long long)c.strided_bytes()).set("spanned",(long long)c.spanned_bytes()).set("bytes",(long long)c.bytes_compact()).set("compact",c.is_compact()).set("at",(long long)c.element_index(op["i"].i)).set("match",c.endianness_matches_machine()).set("compat",c.compatible(x)).set("eq",c.equals(x));
  DataType z=d; z.compact_to(z); out.set("z",fields(z));
  // the text form describes the same type
  bool text=true; Schema s1(d.to_json()); out.set("back",fields(s1.dtype())); std::ostringstream os; d.to_json_stream(os); text&=os.str()==d.to_json()&&d.to_json_default()==d.to_json()&&d.to_string("json")==d.to_json()&&d.to_string_default()==d.to_string(); std::ostringstream oy; d.to_yaml_stream(oy); text&=oy.str()==d.to_yaml()&&d.to_yaml_default()==d.to_yaml()&&d.to_string("yaml")==d.to_yaml();
  out.set("text",text);
  d.reset(); out.set("reset",fields(d)); return out; }
int main(int argc,char**argv){ return fun_main(argc,argv,gen,exec); }
