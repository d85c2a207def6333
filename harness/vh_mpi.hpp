// MPI helpers of the parallel drivers: every rank draws the same scenario from
// the seed, performs its part, and rank 0 collects what all ranks observed.
#ifndef VH_MPI_HPP
#define VH_MPI_HPP
#include "vh_fun.hpp"
#include <mpi.h>
namespace vh {
inline int wrank(){ int r; MPI_Comm_rank(MPI_COMM_WORLD,&r); return r; }
inline int wsize(){ int r; MPI_Comm_size(MPI_COMM_WORLD,&r); return r; }
// the value of every rank, on rank 0 of the communicator (others get an empty list)
inline std::vector<J> collect(const J&mine,MPI_Comm c){
  int r,n; MPI_Comm_rank(c,&r); MPI_Comm_size(c,&n); std::string s=mine.str(); int len=(int)s.size(); std::vector<int> ls((size_t)n),ds((size_t)n);
  MPI_Gather(&len,1,MPI_INT,ls.data(),1,MPI_INT,0,c); int tot=0; for(int i=0;i<n;i++){ ds[(size_t)i]=tot; tot+=r==0?ls[(size_t)i]:0; } std::vector<char> b((size_t)tot+1);
  MPI_Gatherv((void*)s.data(),len,MPI_CHAR,b.data(),ls.data(),ds.data(),MPI_CHAR,0,c); std::vector<J> out; if(r==0) for(int i=0;i<n;i++) out.push_back(J::parse(std::string(b.data()+ds[(size_t)i],(size_t)ls[(size_t)i]))); return out;
}
inline void mpi_die(const std::string&m){ fprintf(stderr,"rank %d: %s\n",wrank(),m.c_str()); fflush(0); MPI_Abort(MPI_COMM_WORLD,7); _exit(7); }
}
#endif
