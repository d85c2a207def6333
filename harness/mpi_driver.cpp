// Message passing with nodes, recorded for Mpi.tla: point to point, batches of
// non-blocking messages, communicate_using_schema and the collectives.
#include "vh_mpi.hpp"
#include "conduit_relay_mpi.hpp"
using namespace vh; using namespace conduit; namespace mpi=conduit::relay::mpi;
static TreeOpts topts(){ TreeOpts T; T.types=num_types(); T.types.push_back("char8_str"); T.names={"a","b","c/d","e f","g"}; T.maxn=4; return T; }
// the same structure and types with other values
static J revalue(Rng&g,const J&j){ J r=j; if(j["k"].s=="d"){ J v=j["v"]; size_t n=v.size(); if(j["t"].s=="char8_str") n=n?n-1:0; for(size_t i=0;i<n;i++) if(g.chance(70)){ std::string t=j["t"].s; if(is_float(t)) v.a[i]=J(f_hex(t,g.range(-99,99))); else if(t=="char8_str"){ char c=(char)('k'+g.below(9)); v.a[i]=J(hex(&c,1)); } else v.a[i]=J(le((long long)g.next(),width_of(t))); } r.set("v",v); layout_j(g,r,true); } else { J ch=J::arr(); for(size_t i=0;i<j["ch"].size();i++) ch.push(revalue(g,j["ch"].at(i))); r.set("ch",ch); } return r; }
// a node holding the tree, possibly as a part of a larger compact node
struct Held { Node own,outer; Node*n; Arena A; Held():n(&own){} void make(const J&t,int how){ if(how==0){ build(own,t,A); n=&own; } else { Node p; p["pad"].set((int16)7); build(p.add_child("x"),t,A); p["end"].set((int8)1); if(how==2){ p.compact_to(outer); n=outer.has_child("x")?&outer["x"]:&own; } else { Node q; p.compact_to(q); outer.set(q); n=&outer["x"]; } } } };
static J strip(const J&t){ Node n; Arena A; build(n,t,A); return vtree(n); }
// where the leaves of a destination are, and the bytes between their elements
struct Place { std::string path,t,gaps; const char*p; idx_t n,stride; };
static void places(const Node&n,const std::string&at,std::vector<Place>&o){ if(n.dtype().is_object()){ auto nm=n.child_names(); for(idx_t i=0;i<n.number_of_children();i++) places(n.child(i),at+"/"+nm[(size_t)i],o); } else if(n.dtype().is_list()){ for(idx_t i=0;i<n.number_of_children();i++) places(n.child(i),at+"/["+std::to_string(i)+"]",o); } else if(!n.dtype().is_empty()&&n.dtype().number_of_elements()>0){ Place q; q.path=at; q.t=tname(n.dtype().id()); q.n=n.dtype().number_of_elements(); q.stride=n.dtype().stride(); q.p=(const char*)n.element_ptr(0); idx_t w=n.dtype().element_bytes(); if(q.stride>w) for(idx_t i=0;i+1<q.n;i++) q.gaps+=std::string(q.p+i*q.stride+w,(size_t)(q.stride-w)); o.push_back(q); } }
// leaves of the same type and size that are not where they were, or whose gaps were written
static J moved(const std::vector<Place>&a,const Node&n){ std::vector<Place> b; places(n,"",b); J r=J::arr(); for(auto&x:a) for(auto&y:b) if(x.path==y.path&&x.t==y.t&&x.n==y.n&&(x.p!=y.p||x.stride!=y.stride||x.gaps!=y.gaps)) r.push(J(x.path)); return r; }
static void p2p(Rng&g,MPI_Comm c,std::function<void(const J&)> put){
  int R,N; MPI_Comm_rank(c,&R); MPI_Comm_size(c,&N); TreeOpts T=topts();
  static const char*styles[]={"send","send_schema","isend","comm","any","any_schema","iany"}; std::string st=N==1?styles[2+g.below(2)]:styles[g.below(7)]; bool sch=st=="send_schema"||st=="comm"||st=="any_schema", any=st=="any"||st=="any_schema"||st=="iany";
  std::vector<int> tags={0,1,5,1000000}; int M=g.range(1,st=="comm"?7:5); if(any) M=g.range(1,4); int D=g.below(N); J base=rand_tree(g,T,2);
  std::vector<J> tree,pre; std::vector<int> src,dst,tag,how,hown;
  bool blk=st=="send"||st=="send_schema"||st=="any"||st=="any_schema"; // a blocking send to oneself may wait for ever
  for(int m=0;m<M;m++){ int a=g.below(N), b=any?D:g.below(N); if(blk&&a==b) a=(a+1)%N; src.push_back(a); dst.push_back(b); tag.push_back(g.pick(tags)); J t=sch?rand_tree(g,T,2):any?revalue(g,base):rand_tree(g,T,2); tree.push_back(t); how.push_back(g.below(3)); hown.push_back(g.chance(70)?0:g.below(3)); pre.push_back(sch?(g.chance(50)?kind_j("e"):g.chance(50)?mutate(g,T,t,2):rand_tree(g,T,2)):revalue(g,t)); }
  std::vector<int> order; for(int m=0;m<M;m++) order.push_back(m); for(int m=M-1;m>0;m--) std::swap(order[(size_t)m],order[(size_t)g.below(m+1)]);   // order of the receive calls
  // the k-th receive of a (src,dst,tag) gets the k-th message sent with it: keep the destination's shape in step
  if(!any){ std::vector<int> fix(order); for(int i=0;i<M;i++){ int m=order[(size_t)i]; std::vector<int> same; for(int q=0;q<M;q++) if(src[(size_t)q]==src[(size_t)m]&&dst[(size_t)q]==dst[(size_t)m]&&tag[(size_t)q]==tag[(size_t)m]) same.push_back(q); int k=0; for(int j=0;j<i;j++) for(int q:same) if(order[(size_t)j]==q) k++; fix[(size_t)i]=same[(size_t)k]; } order=fix; }
  bool mix=g.chance(50); int wk=g.below(3);
  std::vector<Held> S((size_t)M),D2((size_t)M); J pres=J::obj();
  for(int m=0;m<M;m++){ if(src[(size_t)m]==R) S[(size_t)m].make(tree[(size_t)m],how[(size_t)m]); if(dst[(size_t)m]==R) D2[(size_t)m].make(pre[(size_t)m],hown[(size_t)m]); }
  std::vector<std::vector<Place> > PL((size_t)M); for(int m=0;m<M;m++) if(dst[(size_t)m]==R) places(*D2[(size_t)m].n,"",PL[(size_t)m]);
  J pv=J::arr(),sv=J::arr(); for(int m=0;m<M;m++){ pv.push(dst[(size_t)m]==R?vtree(*D2[(size_t)m].n):J::arr()); sv.push(src[(size_t)m]==R?vtree(*S[(size_t)m].n):J::arr()); }
  try{
    if(st=="send"||st=="send_schema"||st=="any"||st=="any_schema"){
      for(int m=0;m<M;m++) if(src[(size_t)m]==R){ if(st=="send"||st=="any") mpi::send(*S[(size_t)m].n,dst[(size_t)m],tag[(size_t)m],c); else mpi::send_using_schema(*S[(size_t)m].n,dst[(size_t)m],tag[(size_t)m],c); }
      for(int m:order) if(dst[(size_t)m]==R){ Node&d=*D2[(size_t)m].n; if(st=="send") mpi::recv(d,src[(size_t)m],tag[(size_t)m],c); else if(st=="send_schema") mpi::recv_using_schema(d,src[(size_t)m],tag[(size_t)m],c); else if(st=="any") mpi::recv(d,c); else mpi::recv_using_schema(d,c); }
    } else if(st=="comm"){
      mpi::communicate_using_schema C(c); size_t s=0,r=0; std::vector<int> so; for(int m=0;m<M;m++) so.push_back(m); Rng h(g.next()); while(s<so.size()||r<order.size()){ bool ds=s<so.size()&&(r>=order.size()||h.chance(mix?50:100)); if(ds){ int m=so[s++]; if(src[(size_t)m]==R) C.add_isend(*S[(size_t)m].n,dst[(size_t)m],tag[(size_t)m]); } else { int m=order[r++]; if(dst[(size_t)m]==R) C.add_irecv(*D2[(size_t)m].n,src[(size_t)m],tag[(size_t)m]); } }
      C.execute();
    } else {
      std::vector<mpi::Request> rq((size_t)(2*M)); std::vector<MPI_Status> ss((size_t)(2*M)); int k=0; std::vector<char> isS;
      auto sends=[&]{ for(int m=0;m<M;m++) if(src[(size_t)m]==R){ mpi::isend(*S[(size_t)m].n,dst[(size_t)m],tag[(size_t)m],c,&rq[(size_t)k++]); isS.push_back(1); } };
      auto recvs=[&]{ for(int m:order) if(dst[(size_t)m]==R){ if(st=="iany") mpi::irecv(*D2[(size_t)m].n,c,&rq[(size_t)k++]); else mpi::irecv(*D2[(size_t)m].n,src[(size_t)m],tag[(size_t)m],c,&rq[(size_t)k++]); isS.push_back(0); } };
      if(mix){ recvs(); sends(); } else { sends(); recvs(); }
      if(wk==0) mpi::wait_all(k,rq.data(),ss.data()); else if(wk==1){ for(int i=0;i<k;i++) mpi::wait(&rq[(size_t)i],&ss[(size_t)i]); } else { for(int i=k-1;i>=0;i--) if(isS[(size_t)i]) mpi::wait_send(&rq[(size_t)i],&ss[(size_t)i]); else mpi::wait_recv(&rq[(size_t)i],&ss[(size_t)i]); }
    }
  }catch(conduit::Error&e){ mpi_die(st+": "+e.message()); }
  J after=J::arr(),post=J::arr(),mv=J::arr(); for(int m=0;m<M;m++) mv.push(dst[(size_t)m]==R?moved(PL[(size_t)m],*D2[(size_t)m].n):J::arr()); for(int m=0;m<M;m++){ after.push(src[(size_t)m]==R?vtree(*S[(size_t)m].n):J::arr()); post.push(dst[(size_t)m]==R?vtree(*D2[(size_t)m].n):J::arr()); }
  J mine=J::obj(); mine.set("pre",pv).set("sv",sv).set("after",after).set("post",post).set("moved",mv); std::vector<J> all=collect(mine,c);
  if(R==0){ J ev=J::obj(),ms=J::arr(),rs=J::arr(); for(int m=0;m<M;m++){ J x=J::obj(); x.set("src",src[(size_t)m]).set("dst",dst[(size_t)m]).set("tag",tag[(size_t)m]).set("tree",all[(size_t)src[(size_t)m]]["sv"].at((size_t)m)).set("after",all[(size_t)src[(size_t)m]]["after"].at((size_t)m)); ms.push(x); }
    for(int m:order){ J x=J::obj(); x.set("src",src[(size_t)m]).set("dst",dst[(size_t)m]).set("tag",tag[(size_t)m]).set("pre",all[(size_t)dst[(size_t)m]]["pre"].at((size_t)m)).set("post",all[(size_t)dst[(size_t)m]]["post"].at((size_t)m)).set("moved",all[(size_t)dst[(size_t)m]]["moved"].at((size_t)m)); rs.push(x); }
    ev.set("op","p2p").set("style",st).set("any",any).set("msgs",ms).set("recvs",rs); put(ev); }
}
static J smallleaf(Rng&g,const std::string&t,int n,bool vary){ J v=J::arr(),iv=J::arr(); for(int i=0;i<n;i++){ int x=g.range(t[0]=='u'?0:-3,3); if(x==0&&is_float(t)) x=2; iv.push(J(x)); v.push(J(is_float(t)?f_hex(t,16*x):le(x,width_of(t)))); } J j=leaf_j(t,v,0,width_of(t),"own"); layout_j(g,j,vary); j.set("iv",iv); return j; }
static void coll(Rng&g,MPI_Comm c,std::function<void(const J&)> put){
  int R,N; MPI_Comm_rank(c,&R); MPI_Comm_size(c,&N); TreeOpts T=topts(); static const char*ops[]={"reduce","all_reduce","gather","all_gather","gather_schema","all_gather_schema","broadcast","broadcast_schema"}; std::string op=ops[g.below(8)]; int root=g.below(N); std::string f=g.pick(std::vector<std::string>{"sum","min","max","prod"}); bool named=g.chance(50);
  std::vector<J> snd,rcv; std::vector<int> hs,hr; std::string t=g.pick(num_types()); int n=g.range(1,5); J base=rand_tree(g,T,2);
  for(int r=0;r<N;r++){ hs.push_back(g.below(3)); hr.push_back(g.chance(60)?0:g.below(3));
    if(op=="reduce"||op=="all_reduce"){ snd.push_back(smallleaf(g,t,n,true)); int q=g.below(4); rcv.push_back(q==0?kind_j("e"):q==1?smallleaf(g,t,n,true):q==2?smallleaf(g,t,g.range(1,7),true):rand_tree(g,T,1)); }
    else if(op=="gather"||op=="all_gather"){ snd.push_back(revalue(g,base)); rcv.push_back(g.chance(50)?kind_j("e"):rand_tree(g,T,2)); }
    else if(op=="broadcast"){ snd.push_back(kind_j("e")); rcv.push_back(revalue(g,base)); }
    else if(op=="broadcast_schema"){ snd.push_back(kind_j("e")); rcv.push_back(r==root?base:g.chance(40)?kind_j("e"):g.chance(50)?mutate(g,T,base,2):rand_tree(g,T,2)); }
    else { snd.push_back(g.chance(70)?rand_tree(g,T,2):revalue(g,base)); rcv.push_back(g.chance(50)?kind_j("e"):rand_tree(g,T,2)); } }
  Held S,D; S.make(snd[(size_t)R],hs[(size_t)R]); D.make(rcv[(size_t)R],hr[(size_t)R]); J pre=vtree(*D.n),sv=vtree(*S.n); std::vector<Place> PL; places(*D.n,"",PL); Node&s=*S.n; Node&d=*D.n; MPI_Op mo=f=="sum"?MPI_SUM:f=="min"?MPI_MIN:f=="max"?MPI_MAX:MPI_PROD;
  try{ if(op=="reduce"){ if(!named) mpi::reduce(s,d,mo,root,c); else if(f=="sum") mpi::sum_reduce(s,d,root,c); else if(f=="min") mpi::min_reduce(s,d,root,c); else if(f=="max") mpi::max_reduce(s,d,root,c); else mpi::prod_reduce(s,d,root,c); }
    else if(op=="all_reduce"){ if(!named) mpi::all_reduce(s,d,mo,c); else if(f=="sum") mpi::sum_all_reduce(s,d,c); else if(f=="min") mpi::min_all_reduce(s,d,c); else if(f=="max") mpi::max_all_reduce(s,d,c); else mpi::prod_all_reduce(s,d,c); }
    else if(op=="gather") mpi::gather(s,d,root,c); else if(op=="all_gather") mpi::all_gather(s,d,c); else if(op=="gather_schema") mpi::gather_using_schema(s,d,root,c); else if(op=="all_gather_schema") mpi::all_gather_using_schema(s,d,c); else if(op=="broadcast") mpi::broadcast(d,root,c); else mpi::broadcast_using_schema(d,root,c);
  }catch(conduit::Error&e){ mpi_die(op+": "+e.message()); }
  J mine=J::obj(); mine.set("send",sv).set("sent",vtree(s)).set("pre",pre).set("post",vtree(d)).set("moved",moved(PL,d)).set("iv",snd[(size_t)R].has("iv")?snd[(size_t)R]["iv"]:J::arr()); std::vector<J> all=collect(mine,c);
  if(R==0){ J ev=J::obj(); ev.set("op",op).set("root",root+1).set("f",f); for(const char*k:{"send","sent","pre","post","moved","iv"}){ J a=J::arr(); for(J&x:all) a.push(x[k]); ev.set(k,a); } put(ev); }
}
int main(int argc,char**argv){
  MPI_Init(&argc,&argv); quiet(); signal(SIGALRM,fun_alarm); alarm(getenv("VH_ALARM")?(unsigned)atoi(getenv("VH_ALARM")):300); if(argc<7) return 99; std::string prof=argv[2]; uint64_t seed=strtoull(argv[3],0,10); int N=atoi(argv[4]); std::string pre=argv[5]; int S=atoi(argv[6]); std::vector<FILE*> fs;
  if(wrank()==0) for(int s=0;s<S;s++) fs.push_back(fopen((pre+std::to_string(s)+".ndjson").c_str(),"w"));
  MPI_Comm rev; MPI_Comm_split(MPI_COMM_WORLD,0,wsize()-wrank(),&rev); // all ranks, in reverse order
  for(int i=0;i<N;i++){ Rng g(seed*7919+(uint64_t)i*31+5+(uint64_t)wsize()*1000003); bool useRev=g.chance(25); MPI_Comm c=useRev?rev:MPI_COMM_WORLD; std::string line; auto put=[&](const J&e0){ J e=e0; e.set("out",""); line=e.str(); };
    if(prof=="p2p") p2p(g,c,put); else coll(g,c,put);
    // rank 0 of the reversed communicator is the last rank of the world
    if(useRev&&wsize()>1){ if(wrank()==wsize()-1){ int l=(int)line.size(); MPI_Send(&l,1,MPI_INT,0,77,MPI_COMM_WORLD); MPI_Send((void*)line.data(),l,MPI_CHAR,0,77,MPI_COMM_WORLD); } else if(wrank()==0){ int l; MPI_Recv(&l,1,MPI_INT,wsize()-1,77,MPI_COMM_WORLD,MPI_STATUS_IGNORE); line.resize((size_t)l); MPI_Recv(&line[0],l,MPI_CHAR,wsize()-1,77,MPI_COMM_WORLD,MPI_STATUS_IGNORE); } }
    if(wrank()==0) fprintf(fs[(size_t)(i%S)],"%s\n",line.c_str()); MPI_Barrier(MPI_COMM_WORLD); }
  if(wrank()==0) for(FILE*f:fs) fclose(f); MPI_Comm_free(&rev); MPI_Finalize(); return 0;
}
