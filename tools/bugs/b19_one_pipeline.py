PROPERTY="C19"
EDITS=[('src/communication/communicator_grid.cpp', '        return CommunicatorPipeline<CommunicatorType::Row>{row_.clone(), position_, grid_size_};', '        return CommunicatorPipeline<CommunicatorType::Row>{npipelines > 1 ? row_.clone() : row_, position_,\n                                                           grid_size_};')]
NEEDS='a grid with one pipeline per direction, whose row communicator is used besides the pipeline'
BREAKS='the row pipeline and the row communicator are the same MPI communicator: messages on one can be received on the other'
RUNTIME='full'
NP=2
FILES={"demo_rt.hpp":"tools/bugs/demo_rt.hpp"}
DEMO=r'''#include "demo_rt.hpp"
int main(int c,char**v){ return demo(c,v,[]{ comm::CommunicatorGrid g(MPI_COMM_WORLD,1,2,common::Ordering::RowMajor,1); int bad=0;
 auto p=g.row_communicator_pipeline(); auto w=tt::sync_wait(p.exclusive()); int k; MPI_Comm_compare(w.get(),g.rowCommunicator(),&k); bad+=k!=MPI_CONGRUENT; return bad; }); }
'''
