// message buffer witness: every member of the MPI classes
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#ifdef XDR_PACK
#include "xdr_pack.cc"
#endif
#include "classdescMP.h"
using namespace classdesc;
size_t f_size(const pack_t& b) { return b.size(); }
size_t f_pos(const pack_t& b) { return b.pos(); }
const char* f_data(const pack_t& b) { return b.data(); }
void w_mpi(MPIbuf& a, MPIbuf& b, unsigned n, int t)
{
  MPIbuf c(a); c=b; c.swap(a); a.sent(); a.wait(); a.send(n,t); a.isend(n,t); a.get(n,t); a.send_recv(n,t,n,t);
  a.bcast(n); a.gather(n); a.scatter(n); a.reset(); a.msg_waiting(n,t); a.myid(); a.nprocs();
  a<<classdesc::send(n,t); a<<classdesc::isend(n,t); a<<classdesc::bcast(n); a<<mark();
}
void w_array(MPIbuf_array& a, unsigned n)
{
  MPIbuf_array b(n); a[n]; a.testall(); a.testany(); a.testsome(); a.waitall(); a.waitany(); a.waitsome();
}
struct Slave { int m; void act(MPIbuf&) {} };
void w_slave(MPIslave<Slave>& s, MPIbuf& b)
{
  s<<&Slave::act; s.exec(b); s.get_returnv(); s.all_idle(); s.wait_all_idle(); s.bcast(b); s.init(); s.finalize();
  MPIslave<Slave> t;
}
void w_spmd(int argc, char** argv) { MPISPMD a, b(argc,argv); a.init(argc,argv); a.finalize(); }
