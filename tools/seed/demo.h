#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef P4_TO_P8
#define DIMS 2
#else
#define DIMS 3
#endif
static int bad;
#define CHECK(x) do { if (!(x)) { printf ("rank %d: broken at line %d: %s\n", p_rank, __LINE__, #x); fflush (stdout); bad = 1; } } while (0)
static int p_rank, p_size;
static void demo_begin (int *argc, char ***argv)
{
  MPI_Init (argc, argv);
  MPI_Comm_rank (MPI_COMM_WORLD, &p_rank);
  MPI_Comm_size (MPI_COMM_WORLD, &p_size);
  sc_init (MPI_COMM_WORLD, 0, 0, NULL, SC_LP_SILENT);
  p4est_init (NULL, SC_LP_SILENT);
}
static int demo_end (void)
{
  int all;
  MPI_Allreduce (&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize ();
  return all ? 1 : 0;
}
/* deterministic mesh independent of the partition */
static unsigned h_seed = 1;
static int h_max = 5, h_per = 3, h_mod = 10;
static int hash_refine (p4est_t *p4est, p4est_topidx_t t, p4est_quadrant_t *q)
{
  unsigned h = h_seed * 2654435761u;
  if (q->level >= h_max) return 0;
  h = (h ^ (unsigned) t) * 16777619u;
  h = (h ^ (unsigned) (q->x >> 3)) * 16777619u; h ^= h >> 13;
  h = (h ^ (unsigned) (q->y >> 3)) * 16777619u; h ^= h >> 15;
#ifdef P4_TO_P8
  h = (h ^ (unsigned) (q->z >> 3)) * 16777619u; h ^= h >> 13;
#endif
  h = (h ^ (unsigned) q->level) * 16777619u; h ^= h >> 16;
  return (int) (h % (unsigned) h_mod) < h_per;
}
/* distribute elements in proportion to share[rank] */
static void share_partition (p4est_t *p4est, const int *share)
{
  int P = p4est->mpisize, i; long tot = 0, acc = 0, N = (long) p4est->global_num_quadrants, last = 0;
  p4est_locidx_t *n = (p4est_locidx_t *) malloc (P * sizeof (*n));
  for (i = 0; i < P; i++) tot += share[i];
  for (i = 0; i < P; i++) { long e; acc += share[i]; e = N * acc / tot; n[i] = (p4est_locidx_t) (e - last); last = e; }
  p4est_partition_given (p4est, n);
  free (n);
}
