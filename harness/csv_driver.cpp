// Driver for spec/Csv.tla: histories of saving tables as CSV, CSV texts written
// by others and loads, on two paths of a scratch directory.
#include "vh_mesh.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_csv.hpp"
#include <sys/stat.h>
#include <dirent.h>
using namespace vh; using conduit::Node; using conduit::DataType;
namespace io=conduit::relay::io;
static std::string dir;
static void wipe(const std::string&p){ if(DIR*d=opendir(p.c_str())){ std::vector<std::string> n; while(dirent*e=readdir(d)){ std::string s=e->d_name; if(s!="."&&s!="..") n.push_back(p+"/"+s); } closedir(d); for(auto&s:n){ wipe(s); if(rmdir(s.c_str())!=0) unlink(s.c_str()); } } }
static std::string fhex(float x){ if(x!=x) return "nan"; return hex(&x,4); }
static std::string dhex(double x){ if(x!=x) return "nan"; return hex(&x,8); }
// the value that a leaf of type t holds, rounded to float and double
static J cell(const std::string&t,uint64_t bits){ J c=J::obj(); std::string h; double d=0; float f=0;
  auto I=[&](auto v){ h=hex(&v,sizeof(v)); d=(double)v; f=(float)v; };
  if(t=="int8") I((int8_t)bits); else if(t=="int16") I((int16_t)bits); else if(t=="int32") I((int32_t)bits); else if(t=="int64") I((int64_t)bits);
  else if(t=="uint8") I((uint8_t)bits); else if(t=="uint16") I((uint16_t)bits); else if(t=="uint32") I((uint32_t)bits); else if(t=="uint64") I((uint64_t)bits);
  else if(t=="float32"){ uint32_t b=(uint32_t)bits; float v; memcpy(&v,&b,4); h=hex(&v,4); d=(double)v; f=v; } else { double v; memcpy(&v,&bits,8); h=hex(&v,8); d=v; f=(float)v; }
  c.set("h",h).set("f",fhex(f)).set("d",dhex(d)); return c; }
static uint64_t rbits(Rng&g,const std::string&t){ int q=g.below(10); if(t=="float32"||t=="float64"){ double v; if(q<2) v=g.range(-20,20); else if(q<4) v=g.range(-100000,100000)/1024.0; else if(q<6) v=(double)(int64_t)(g.next()>>11)/((double)(1ULL<<g.range(0,62)))*(g.chance(50)?-1:1); else if(q==6) v=g.chance(50)?0.1:1.0/3.0; else if(q==7) v=(g.chance(50)?1:-1)*1.2345678912345678e20*(double)g.range(1,999); else if(q==8) v=(g.chance(50)?1:-1)*9.8765432198765e-21*(double)g.range(1,999); else v=g.chance(30)?std::numeric_limits<double>::quiet_NaN():g.chance(50)?std::numeric_limits<double>::infinity():-std::numeric_limits<double>::infinity();
    if(t=="float32"){ float f=(float)v; uint32_t b; memcpy(&b,&f,4); return b; } uint64_t b; memcpy(&b,&v,8); return b; }
  uint64_t r=g.next(); return q<3?(uint64_t)(int64_t)g.range(-5,120):q<6?r:q<8?r>>32:(uint64_t)0-(r>>40); }
static J rtable(Rng&g,bool ok){ static const std::vector<std::string> N={"a","b_1","x y","pressure","2d","-","inf","3","nan","vel","Temp (K)","id:1"}; static const std::vector<std::string> T={"float64","float64","float32","int32","int64","uint8","int8","int16","uint16","uint32","uint64"};
  J tb=J::obj(),cols=J::arr(); bool list=g.chance(20); int nc=g.range(1,4),nr=g.chance(10)?0:g.range(1,5); int badc=ok?-1:g.below(nc); if(!ok&&nc==1){ nc=2; badc=1; } std::vector<std::string> nm=N; for(size_t i=nm.size();i>1;i--) std::swap(nm[i-1],nm[(size_t)g.below((int)i)]); if(!list){ bool word=false; for(int i=0;i<nc;i++) word|=!(nm[(size_t)i]=="inf"||nm[(size_t)i]=="3"||nm[(size_t)i]=="nan"); if(!word) nm[0]="word"; }
    for(int i=0;i<nc;i++){ J c=J::obj(),comps=J::arr(); int k=g.chance(70)?0:g.range(1,3); bool ml=k&&g.chance(30); int rows=i==badc?nr+1:nr; std::string ct=g.pick(T); static const std::vector<std::string> C={"x","y","z","u v","1"}; std::vector<std::string> cn=C; if(g.chance(30)) std::swap(cn[0],cn[(size_t)g.range(1,4)]); for(int q=0;q<(k?k:1);q++){ J p=J::obj(),v=J::arr(); std::string t=g.chance(80)?ct:g.pick(T); for(int r=0;r<rows;r++) v.push(cell(t,rbits(g,t))); p.set("n",k?(ml?"["+std::to_string(q)+"]":cn[(size_t)q]):"").set("t",t).set("v",v); comps.push(p); }
    c.set("n",list?"["+std::to_string(i)+"]":nm[(size_t)i]).set("k",k?(ml?"ml":"m"):"s").set("c",comps); cols.push(c); }
  tb.set("list",list).set("cols",cols).set("ok",ok); return tb; }
static void leaf(Node&n,const J&p,Rng&g,Arena&A,bool vary){ std::string t=p["t"].s; J h=J::arr(); for(size_t i=0;i<p["v"].size();i++) h.push(J(p["v"].at(i)["h"].s)); J j=leaf_j(t,h,0,width_of(t),"own"); layout_j(g,j,vary); build(n,j,A); }
static void make(Node&n,const J&tb,Rng&g,Arena&A,bool vary){ Node&v=n["values"]; for(size_t i=0;i<tb["cols"].size();i++){ const J&c=tb["cols"].at(i); Node&x=tb["list"].b?v.append():v.add_child(c["n"].s); if(c["k"].s=="s") leaf(x,c["c"].at(0),g,A,vary); else for(size_t q=0;q<c["c"].size();q++) leaf(c["k"].s=="ml"?x.append():x.add_child(c["c"].at(q)["n"].s),c["c"].at(q),g,A,vary); } }
static J rd(const Node&n,std::set<std::string>&ty){ J v=J::arr(); ty.insert(n.dtype().name()); for(idx_t i=0;i<n.dtype().number_of_elements();i++){ if(n.dtype().is_float64()) v.push(J(dhex(n.as_float64_array()[i]))); else if(n.dtype().is_float32()) v.push(J(fhex(n.as_float32_array()[i]))); else v.push(J("?")); } return v; }
static J read_table(const Node&n){ J t=J::obj(),cols=J::arr(); std::set<std::string> ty; bool shape=n.number_of_children()==1&&n.has_child("values"); if(shape){ const Node&v=n["values"]; for(idx_t i=0;i<v.number_of_children();i++){ const Node&x=v.child(i); J c=J::obj(),q=J::arr(); if(x.number_of_children()==0){ J p=J::obj(); p.set("n","").set("v",rd(x,ty)); q.push(p); } else for(idx_t k=0;k<x.number_of_children();k++){ J p=J::obj(); p.set("n",x.child(k).name()).set("v",rd(x.child(k),ty)); q.push(p); } c.set("n",x.name()).set("c",q); cols.push(c); } } J types=J::arr(); for(auto&s:ty) types.push(J(s)); t.set("shape",shape).set("ty",types).set("cols",cols); return t; }
static J exec(const J&op){ wipe(dir); J outs=J::arr(); Arena A; Rng g((uint64_t)op["lay"].i);
  for(size_t s=0;s<op["steps"].size();s++){ const J&st=op["steps"].at(s); J o=J::obj(); std::string p=dir+(st["f"].i?"/b.csv":"/a.csv"); o.set("ok",true).set("same",true).set("form","").set("tbs",J::arr()).set("err","");
    try{
      if(st["do"].s=="text"){ FILE*f=fopen(p.c_str(),"w"); if(!f) throw std::runtime_error("harness"); fputs(st["text"].s.c_str(),f); fclose(f); }
      else if(st["do"].s=="save"){ Node n,opts; if(st["form"].s=="single") make(n,st["tbs"].at(0)["t"],g,A,st["vary"].b); else for(size_t i=0;i<st["tbs"].size();i++) make(st["form"].s=="list"?n.append():n.add_child(st["tbs"].at(i)["n"].s),st["tbs"].at(i)["t"],g,A,st["vary"].b);
        std::string b=vtree(n).str(); std::string e; try{ if(st["via"].i==0) io::write_csv(n,p,opts); else if(st["via"].i==1) io::save(n,p); else io::save(n,p,"csv"); } catch(conduit::Error&x){ e=x.message(); o.set("ok",false).set("err",e); } o.set("same",vtree(n).str()==b); }
      else { Node n,opts; if(st["f64"].b) opts["use_float64"]=st["via"].i==1?2:1; else if(st["via"].i==1) opts["use_float64"]=0; const std::string d=st["dest"].s; if(d=="o") n["k/j"]=1; else if(d=="l"){ n.append()=2; n.append()=3; } else if(d=="d") n.set(7); else if(d=="t") n["values/old"].set(DataType::float64(3)); std::string b=opts.to_json(); if(st["via"].i==0) io::read_csv(p,opts,n); else if(st["via"].i==1) io::load(p,opts,n); else io::load(p,"csv",opts,n); o.set("same",opts.to_json()==b);
        J t=J::arr(); if(n.has_child("values")){ J x=J::obj(); x.set("n","").set("t",read_table(n)); t.push(x); o.set("form","single"); } else { o.set("form",n.dtype().is_list()?"list":"object"); for(idx_t i=0;i<n.number_of_children();i++){ J x=J::obj(); x.set("n",n.dtype().is_list()?"":n.child(i).name()).set("t",read_table(n.child(i))); t.push(x); } } o.set("tbs",t); } }
    catch(conduit::Error&x){ o.set("ok",false).set("err",x.message().substr(0,200)); }
    outs.push(o); }
  wipe(dir); return outs; }
static J rtext(Rng&g){ J st=J::obj(),rows=J::arr(),hdr=J::arr(); std::string tx; int nc=g.range(1,4),nr=g.range(g.chance(10)?0:1,4); bool head=g.chance(60)||nr==0; const char*eol=g.chance(20)?"\r\n":"\n"; auto pad=[&](){ return std::string(g.pick(std::vector<std::string>{""," ","","  ","\t"})); };
  static const std::vector<std::string> N={"a","bb","x y","c#","1st"}; if(head){ int o=g.below(5); for(int i=0;i<nc;i++){ std::string n=N[(size_t)((i+o)%5)]; hdr.push(J(n)); tx+=(i?",":"")+pad()+n+pad(); } tx+=eol; }
  int err=g.chance(25)?g.below(nr?nr:1):-1; for(int r=0;r<nr;r++){ J row=J::arr(); int w=nc; bool lng=false,bad=false; if(r==err){ if(g.chance(50)&&(head||r)) lng=true; else bad=true; } if(lng) w+=g.range(1,2); int bc=bad?g.below(nc):-1; for(int i=0;i<w;i++){ std::string c; bool ok=i!=bc; if(!ok) c=g.pick(std::vector<std::string>{"abc",nc>1?"":"x","-"}); else { static const std::vector<std::string> V={"0","1","-2.5","+3","1e3","1E-3",".5","5.","0.1","123456789","-0","inf","nan","1e20","0x10","16777217","3.4028234e38"}; c=g.pick(V); } double d=ok?strtod(c.c_str(),0):0; float f=ok?strtof(c.c_str(),0):0; J x=J::obj(); x.set("ok",ok).set("f",fhex(f)).set("d",dhex(d)); row.push(x); tx+=(i?",":"")+pad()+c+pad(); } rows.push(row); if(r+1<nr||g.chance(80)) tx+=eol; }
  // without a header the first line must not look like one
  if(!head&&nr>0){ bool w=false; for(size_t i=0;i<rows.at(0).size();i++) w|=!rows.at(0).at(i)["ok"].b; if(w) return rtext(g); }
  st.set("do","text").set("hdr",hdr).set("rows",rows).set("text",tx); return st; }
static J gen(Rng&g,const std::string&){ J op=J::obj(),steps=J::arr(); int n=g.range(2,5); bool isdir[2]={false,false}; bool was[2]={false,false}; static const std::vector<std::string> TN={"vertex_data","element_data","t 1","zz"};
  for(int i=0;i<n;i++){ int f=g.chance(75)?0:1; J st; int q=g.below(100); if(i==0) q=g.below(60); if(i==n-1&&q<60) q=99; if(q<45){ st=J::obj(); int k=g.below(10); std::string form=k<6?"single":k<8?"list":"object"; bool bad=g.chance(8); J tbs=J::arr(); int m=form=="single"?1:g.chance(8)?12:g.range(1,3); std::vector<std::string> tn=TN; if(g.chance(50)) std::swap(tn[0],tn[(size_t)g.range(1,3)]); if(form=="object"&&m>4) m=4; int bi=bad?g.below(m):-1; for(int t=0;t<m;t++){ J x=J::obj(); x.set("n",form=="object"?tn[(size_t)t]:form=="list"?"table_list_"+std::to_string(t):"").set("i",(long long)t).set("t",rtable(g,t!=bi)); tbs.push(x); } st.set("do","save").set("form",form).set("tbs",tbs).set("via",g.below(3)).set("vary",g.chance(60)); if(!bad&&!was[f]){ isdir[f]=form!="single"; was[f]=true; } }
    else if(q<60){ st=rtext(g); if(isdir[f]){ f=1-f; } if(isdir[f]) continue; was[f]=true; }
    else { st=J::obj(); st.set("do","load").set("f64",g.chance(60)).set("via",g.below(3)).set("dest",g.pick(std::vector<std::string>{"e","e","o","l","d","t"})); }
    st.set("f",f); steps.push(st); }
  op.set("op","csv").set("lay",(long long)g.range(1,1000000)).set("steps",steps); return op; }
int main(int c,char**v){ char d[]="/tmp/vh_csv_XXXXXX"; if(!mkdtemp(d)) return 99; dir=d; int r=fun_main(c,v,gen,exec); wipe(dir); rmdir(dir.c_str()); return r; }
