// HDF5 datasets written and read in parts (offset, stride, size), recorded for Slab.tla.
#include "vh_fun.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_handle.hpp"
#include "conduit_relay_io_hdf5.hpp"
#include <hdf5.h>
using namespace vh; using namespace conduit; namespace io=conduit::relay::io;
static std::string dir;
static void hdf5_opts(Node&o){ io::hdf5_set_options(o["hdf5"]); }
static void optnode(const J&o,Node&n,bool alt){ for(const char*k:{"size","offset","stride"}){ const J&v=o[k]; if(v.size()==0) continue; std::string nm=k; if(alt) nm+="s"; if(v.size()==1&&!o["arr"].b){ if(o["w"].i==0) n[nm].set((int32)v.at(0).i); else n[nm].set((int64)v.at(0).i); } else { std::vector<int64> a; for(size_t i=0;i<v.size();i++) a.push_back(v.at(i).i); n[nm].set(a); } } }
static J ropt(Rng&g,int rank,const std::vector<int>&dims,bool write){ J o=J::obj(); for(const char*k:{"size","offset","stride"}) o.set(k,J::arr()); o.set("arr",rank>1||(!write&&g.chance(30))).set("w",g.below(2)).set("alt",!write&&g.chance(40));
  J a=J::arr(),b=J::arr(),c=J::arr(); for(int d=0;d<rank;d++){ int N=dims[(size_t)d]; int off=g.chance(85)?g.below(N>0?N:1):g.range(0,N+2); int st=g.chance(3)?0:g.range(1,3); int room=st>0&&off<N?(N-off+st-1)/st:0; int sz=g.chance(20)?0:g.chance(85)?g.range(1,room>0?room:1):g.range(1,N+2); a.push(J(off)); b.push(J(st)); c.push(J(sz)); }
  if(g.chance(70)) o.set("offset",a); if(g.chance(60)) o.set("stride",b); if(!write&&g.chance(60)) o.set("size",c); return o; }
static J leafv(Rng&g,const std::string&t,int lo,int hi){ TreeOpts T; T.types={t}; T.maxn=hi; T.zero=lo==0; for(;;){ J l=rand_leaf(g,T); if((int)l["v"].size()>=lo) return l; } }
static void history(Rng&g,std::function<void(const J&)> put){
  std::string f=dir+"/s.hdf5"; unlink(f.c_str()); J b=J::obj(); b.set("op","begin"); put(b);
  std::string t=g.pick(num_types()), path=g.pick(std::vector<std::string>{"x","g/x","g/h/x"}); int n=0; bool have=false; int len=g.range(3,9);
  bool hnd=g.chance(40); io::IOHandle h; bool open=false;
  auto ensure=[&](bool o){ if(o&&!open){ h.open(f); open=true; } if(!o&&open){ h.close(); open=false; } };
  for(int s=0;s<len;s++){ J ev=J::obj(); Arena A; Node node,opts; bool ok=true; 
    if(!have||g.chance(50)){ std::string tt=g.chance(4)?g.pick(num_types()):t; J l=leafv(g,tt,1,6); J o=ropt(g,1,{n>0?n:4},true); if(!have&&g.chance(40)) o=[&]{ J z=o; for(const char*k:{"offset","stride"}) z.set(k,J::arr()); return z; }(); optnode(o,opts,false); build(node,l,A); ev.set("op","write").set("t",tt).set("v",l["v"]).set("o",o);
      try{ if(hnd&&have){ ensure(true); h.write(node,path,opts); } else { ensure(false); int q=g.below(3); if(q==0) io::hdf5_append(node,f+":"+path,opts); else if(q==1) io::hdf5_write(node,f,path,opts,true); else { io::save_merged(node,f+":"+path,"hdf5",opts); } } have=true; }catch(conduit::Error&e){ ok=false; if(getenv("VH_WHY")) ev.set("why",e.message()); }
      J r=J::arr(); ev.set("ok",ok).set("res",r);
      if(ok){ int off=o["offset"].size()?(int)o["offset"].at(0).i:0, st=o["stride"].size()?(int)o["stride"].at(0).i:1; int c=(int)l["v"].size(); n=std::max(n,off+c+(c-1)*(st-1)); }
    } else { J o=ropt(g,1,{n},false); bool info=g.chance(15); optnode(o,opts,o["alt"].b); Node dest; int dk=g.below(4); if(dk==1){ J l=leafv(g,t,1,8); build(dest,l,A); } if(dk==2) dest["a/b"]=3; ev.set("op",info?"info":"read").set("o",o).set("t","").set("v",J::arr()); if(info) dest.reset(); J pre=vtree(dest);
      try{ if(info){ ensure(false); hid_t id=io::hdf5_open_file_for_read(f); try{ io::hdf5_read_info(id,path,opts,dest); }catch(...){ io::hdf5_close_file(id); throw; } io::hdf5_close_file(id); }
        else if(hnd){ ensure(true); h.read(path,dest,opts); } else { ensure(false); int q=g.below(3); if(q==0) io::hdf5_read(f+":"+path,opts,dest); else if(q==1) io::hdf5_read(f,path,opts,dest); else io::load_merged(f+":"+path,"hdf5",opts,dest); } }
      catch(conduit::Error&e){ ok=false; if(getenv("VH_WHY")) ev.set("why",e.message()); }
      ev.set("ok",ok).set("pre",pre); if(info){ J r=J::arr(); if(ok&&dest.has_child("num_elements")){ index_t_accessor a=dest["num_elements"].as_index_t_accessor(); for(idx_t i=0;i<a.number_of_elements();i++) r.push(J((long long)a[i])); } ev.set("res",r); } else ev.set("res",J::arr().push(vtree(dest))); }
    put(ev); }
  ensure(false);
}
static hid_t h5t(const std::string&t){ if(t=="int8") return H5T_NATIVE_INT8; if(t=="int16") return H5T_NATIVE_INT16; if(t=="int32") return H5T_NATIVE_INT32; if(t=="int64") return H5T_NATIVE_INT64; if(t=="uint8") return H5T_NATIVE_UINT8; if(t=="uint16") return H5T_NATIVE_UINT16; if(t=="uint32") return H5T_NATIVE_UINT32; if(t=="uint64") return H5T_NATIVE_UINT64; if(t=="float32") return H5T_NATIVE_FLOAT; return H5T_NATIVE_DOUBLE; }
static hid_t h5be(const std::string&t){ if(t=="int16") return H5T_STD_I16BE; if(t=="int32") return H5T_STD_I32BE; if(t=="int64") return H5T_STD_I64BE; if(t=="float64") return H5T_IEEE_F64BE; if(t=="float32") return H5T_IEEE_F32BE; if(t=="uint16") return H5T_STD_U16BE; return h5t(t); }
static void nd(Rng&g,std::function<void(const J&)> put){
  std::string f=dir+"/n.hdf5"; int rank=g.range(1,3); std::vector<int> dims; std::vector<hsize_t> hd; int tot=1; for(int d=0;d<rank;d++){ dims.push_back(g.range(1,rank==3?3:5)); hd.push_back((hsize_t)dims.back()); tot*=dims.back(); }
  std::string t=g.pick(num_types()); int w=width_of(t); J v=J::arr(); std::vector<char> buf((size_t)(tot*w)); for(int i=0;i<tot;i++){ std::string x; if(is_float(t)) x=f_hex(t,g.range(-200,200)); else x=le((long long)g.next(),w); v.push(J(x)); unhex(x,&buf[(size_t)(i*w)]); }
  hid_t id=H5Fcreate(f.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT),sp=H5Screate_simple(rank,hd.data(),NULL),ds=H5Dcreate(id,"x",g.chance(30)?h5be(t):h5t(t),sp,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Dwrite(ds,h5t(t),H5S_ALL,H5S_ALL,H5P_DEFAULT,buf.data()); H5Dclose(ds); H5Sclose(sp); H5Fclose(id);
  J o=ropt(g,rank,dims,false),ev=J::obj(); Node opts,dest; optnode(o,opts,o["alt"].b); bool info=g.chance(20),ok=true; ev.set("op",info?"ninfo":"nread").set("o",o).set("t",t).set("v",v).set("dims",J::list(dims));
  try{ if(info){ id=io::hdf5_open_file_for_read(f); try{ io::hdf5_read_info(id,"x",opts,dest); }catch(...){ io::hdf5_close_file(id); throw; } io::hdf5_close_file(id); } else io::hdf5_read(f,"x",opts,dest); }catch(conduit::Error&e){ ok=false; if(getenv("VH_WHY")) ev.set("why",e.message()); }
  ev.set("ok",ok); if(info){ J r=J::arr(); if(ok){ index_t_accessor a=dest["num_elements"].as_index_t_accessor(); for(idx_t i=0;i<a.number_of_elements();i++) r.push(J((long long)a[i])); } ev.set("res",r); } else ev.set("res",J::arr().push(vtree(dest))); ev.set("pre",vtree(Node())); put(ev);
}
int main(int argc,char**argv){
  quiet(); signal(SIGALRM,fun_alarm); alarm(600); char d[]="/tmp/vh_sl_XXXXXX"; if(!mkdtemp(d)) return 99; dir=d; H5Eset_auto(H5E_DEFAULT,NULL,NULL);
  { Node o; o["hdf5/chunking/chunk_size"]=256; o["hdf5/chunking/threshold"]=200; hdf5_opts(o); }
  if(argc<7||std::string(argv[1])!="random") return 99; uint64_t seed=strtoull(argv[3],0,10); int N=atoi(argv[4]); std::string pre=argv[5]; int S=atoi(argv[6]); std::vector<FILE*> fs; for(int s=0;s<S;s++) fs.push_back(fopen((pre+std::to_string(s)+".ndjson").c_str(),"w"));
  for(int i=0;i<N;i++){ Rng g(seed*7919+(uint64_t)i*31+5); FILE*f=fs[(size_t)(i%S)]; auto put=[&](const J&e){ fprintf(f,"%s\n",e.str().c_str()); fflush(f); }; if(i%3==0){ J b=J::obj(); b.set("op","begin"); put(b); for(int k=0;k<6;k++) nd(g,put); } else history(g,put); }
  for(FILE*f:fs) fclose(f); unlink((dir+"/s.hdf5").c_str()); unlink((dir+"/n.hdf5").c_str()); rmdir(dir.c_str()); return 0;
}
