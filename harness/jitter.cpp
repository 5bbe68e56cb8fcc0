// PMPI interposition: seeded random delays around MPI calls, to vary the schedules
#include <mpi.h>
#include <unistd.h>
// ------------------------------------------------------- seeded delays (schedules)
unsigned long long jitterState = 0;
int jitterMax = 0;
static void jitter() {
    if (!jitterMax) return;
    jitterState = jitterState * 6364136223846793005ULL + 1442695040888963407ULL;
    unsigned x = (unsigned)(jitterState >> 33);
    if (x % 3 == 0) usleep((x >> 4) % jitterMax);
}
extern "C" {
int MPI_Send(const void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m) { jitter(); return PMPI_Send(b, c, t, d, g, m); }
int MPI_Isend(const void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request* r) { jitter(); return PMPI_Isend(b, c, t, d, g, m, r); }
int MPI_Recv(void* b, int c, MPI_Datatype t, int s, int g, MPI_Comm m, MPI_Status* st) { jitter(); return PMPI_Recv(b, c, t, s, g, m, st); }
int MPI_Irecv(void* b, int c, MPI_Datatype t, int s, int g, MPI_Comm m, MPI_Request* r) { jitter(); return PMPI_Irecv(b, c, t, s, g, m, r); }
int MPI_Probe(int s, int g, MPI_Comm m, MPI_Status* st) { jitter(); return PMPI_Probe(s, g, m, st); }
int MPI_Barrier(MPI_Comm m) { jitter(); int r = PMPI_Barrier(m); jitter(); return r; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) { jitter(); return PMPI_Waitall(n, r, s); }
int MPI_Allreduce(const void* a, void* b, int c, MPI_Datatype t, MPI_Op o, MPI_Comm m) { jitter(); return PMPI_Allreduce(a, b, c, t, o, m); }
int MPI_Allgather(const void* a, int b, MPI_Datatype c, void* d, int e, MPI_Datatype f, MPI_Comm g) { jitter(); return PMPI_Allgather(a, b, c, d, e, f, g); }
}

