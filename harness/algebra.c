/* Executes the instructions of spec/Algebra.tla with the functions of
   matrices.h and reports the contents of all registers after each of them.
   Every array is surrounded by guards that must not change.  In an MPI build
   the rows of the field blocks are divided among the processes. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "config.h"
#include <check.h>
#include <mpiglue.h>
#include <mpi_utils.h>
#include <matrices.h>

#define G 16                    /* guard scalars on either side */
#define AP 5
static const real canary = 7.25e77;
static int me = 0, np = 1;
static FILE *in;

static int geti(void) { int x; if (fscanf(in, "%d", &x) != 1) { fprintf(stderr, "input\n"); exit(3); } return x; }
static scalar getz(void) { scalar z; double a, b; if (fscanf(in, "%lf %lf", &a, &b) != 2) exit(3); ASSIGN_SCALAR(z, a, b); (void) b; return z; }

static void stamp(scalar *d, int k) { int i; for (i = 0; i < k; ++i) ASSIGN_SCALAR(d[i], canary, canary); }
static int clean(const scalar *d, int k) {
     int i;
     for (i = 0; i < k; ++i) {
	  if (SCALAR_RE(d[i]) != canary) return 0;
#ifdef SCALAR_COMPLEX
	  if (SCALAR_IM(d[i]) != canary) return 0;
#endif
     }
     return 1;
}
static scalar *galloc(int k) { scalar *b = (scalar *) malloc(sizeof(scalar) * (k + 2 * G)); stamp(b, k + 2 * G); return b + G; }
static void gfree(scalar *d) { free(d - G); }

typedef struct { sqmatrix m; int cap; } Sq;
static evectmatrix E[4];
static int ecap[4];
static Sq Qr[4];
#define Q(i) (Qr[i].m)
static int N, lo, hi;
static int ok = 1;		/* guards intact */
static int have = 0;

static sqmatrix mksq(int p, int cap) {
     sqmatrix m = create_sqmatrix(p);
     free(m.data);
     m.data = galloc(cap * cap);
     m.alloc_p = cap;
     return m;
}
static void ckscratch(sqmatrix m, int cap) { if (!clean(m.data - G, G) || !clean(m.data + cap * cap, G)) ok = 0; gfree(m.data); }
static void tailstamp(void) {
     int i;
     for (i = 1; i <= 3; ++i) {
	  stamp(E[i].data + E[i].n * E[i].p, ecap[i] - E[i].n * E[i].p + G);
	  stamp(Q(i).data + Q(i).p * Q(i).p, AP * AP - Q(i).p * Q(i).p + G);
     }
}
static void guards(int resized) {
     int i;
     for (i = 1; i <= 3; ++i) {
	  int ue = resized ? ecap[i] : E[i].n * E[i].p, uq = resized ? AP * AP : Q(i).p * Q(i).p;
	  if (!clean(E[i].data - G, G) || !clean(E[i].data + ue, ecap[i] - ue + G)) ok = 0;
	  if (!clean(Q(i).data - G, G) || !clean(Q(i).data + uq, AP * AP - uq + G)) ok = 0;
     }
}
/* r c values: the whole matrix, of which this process keeps rows lo..hi-1 */
static void fillE(evectmatrix X, int j0) {
     int i, j, r = geti(), c = geti();
     for (i = 0; i < r; ++i) for (j = 0; j < c; ++j) { scalar z = getz(); if (i >= lo && i < hi && j >= j0) X.data[(i - lo) * X.p + j] = z; }
}
static void fillQ(sqmatrix A, int k0) {
     int i, j, r = geti(), c = geti();
     for (i = 0; i < r; ++i) for (j = 0; j < c; ++j) { scalar z = getz(); if (i >= k0 || j >= k0) A.data[i * A.p + j] = z; }
}
static sqmatrix getQ(void) {
     int i, r = geti(), c = geti(); sqmatrix m = mksq(r, r);
     for (i = 0; i < r * c; ++i) m.data[i] = getz();
     return m;
}

static void num(double x) {
     if (x == floor(x) && fabs(x) < 1e9) printf("%ld", (long) x);
     else { printf("1999999999"); ok = 0; }
}
static void pair(double re, double im) { printf("["); num(re); printf(","); num(im); printf("]"); }
static double q(double x, double s) { x = floor(x * s + 0.5); return x != x || fabs(x) > 9e8 ? 9e8 : x; }
static double IM(scalar z) { (void) z; return SCALAR_IM(z); }
static double RE(scalar z) { return SCALAR_RE(z); }

static void dumpM(const scalar *d, int r, int c, double s) {
     int i, j;
     printf("[");
     for (i = 0; i < r; ++i) {
	  printf(i ? ",[" : "[");
	  for (j = 0; j < c; ++j) {
	       if (j) printf(",");
	       if (s == 0) pair(RE(d[i * c + j]), IM(d[i * c + j])); else pair(q(RE(d[i * c + j]), s), q(IM(d[i * c + j]), s));
	  }
	  printf("]");
     }
     printf("]");
}
static void dumpE(int k) {
     int r, p = E[k].p;
     scalar *all = (scalar *) malloc(sizeof(scalar) * N * p + 8), *sum = (scalar *) malloc(sizeof(scalar) * N * p + 8);
     memset(all, 0, sizeof(scalar) * N * p);
     for (r = 0; r < (hi - lo) * p; ++r) all[lo * p + r] = E[k].data[r];
     mpi_allreduce(all, sum, N * p * SCALAR_NUMVALS, real, SCALAR_MPI_TYPE, MPI_SUM, mpb_comm);
     if (me == 0) dumpM(sum, N, p, 0);
     free(all); free(sum);
}
static scalar ret[64]; static int nret;
static void give(scalar z) { ret[nret++] = z; }
static void giver(real x) { scalar z; ASSIGN_SCALAR(z, x, 0); ret[nret++] = z; }
static void dump(void) {
     int i, okall;
     for (i = 1; i <= 3; ++i) { if (me == 0) printf(i == 1 ? "{\"E\":[" : ","); dumpE(i); }
     if (me == 0) {
	  printf("],\"Q\":[");
	  for (i = 1; i <= 3; ++i) { if (i > 1) printf(","); dumpM(Q(i).data, Q(i).p, Q(i).p, 0); }
	  printf("],\"r\":[");
	  for (i = 0; i < nret; ++i) { if (i) printf(","); pair(RE(ret[i]), IM(ret[i])); }
	  printf("],\"np\":%d,", np);
     }
     mpi_allreduce(&ok, &okall, 1, int, MPI_INT, MPI_MIN, mpb_comm);
     if (me == 0) { printf("\"ok\":%s}", okall ? "true" : "false"); }
     ok = 1;
}
static void reals(real *d, int k) { int i; for (i = 0; i < k; ++i) { scalar z = getz(); d[i] = SCALAR_RE(z); } }
static void cplx(scalar *d, int k) { int i; for (i = 0; i < k; ++i) d[i] = getz(); }
static sqmatrix none(void) { sqmatrix m; m.p = m.alloc_p = 0; m.data = NULL; return m; }

int main(int argc, char **argv) {
     char op[64];
     int i, j;
     MPI_Init(&argc, &argv);
#ifdef HAVE_MPI
     MPI_Comm_rank(mpb_comm, &me); MPI_Comm_size(mpb_comm, &np);
#endif
     in = fopen(argv[1], "r");
     if (!in) return 3;
     while (fscanf(in, "%63s", op) == 1) {
	  real d1[8], d2[8], r1[8 + 2 * G]; scalar z1[8], *zs, *zd;
	  int resized = 0;
	  nret = 0;
	  if (have) tailstamp();
#define IS(s) (!strcmp(op, s))
	  if (IS("start")) {
	       int pe[4], pq[4], cut;
	       N = geti(); cut = geti();
	       lo = np == 1 ? 0 : me == 0 ? 0 : me == 1 ? cut : N;
	       hi = np == 1 ? N : me == 0 ? cut : N;
	       for (i = 1; i <= 3; ++i) pe[i] = geti();
	       for (i = 1; i <= 3; ++i) pq[i] = geti();
	       for (i = 1; i <= 3; ++i) {
		    int save;
		    if (have) { gfree(E[i].data); gfree(Q(i).data); }
		    E[i] = create_evectmatrix(N, 1, AP, hi - lo, lo < N ? lo : N - 1, hi - lo);
		    free(E[i].data);
		    ecap[i] = (hi - lo) * AP; E[i].data = galloc(ecap[i]);
		    if (E[i].n != hi - lo || E[i].p != AP || E[i].alloc_p != AP) ok = 0;
		    evectmatrix_resize(&E[i], pe[i], 0);
		    Qr[i].m = mksq(AP, AP); save = Q(i).alloc_p; sqmatrix_resize(&Q(i), pq[i], 0);
		    if (Q(i).alloc_p != save || E[i].alloc_p != AP) ok = 0;
	       }
	       have = 1;
	       for (i = 1; i <= 3; ++i) fillE(E[i], 0);
	       for (i = 1; i <= 3; ++i) fillQ(Q(i), 0);
	       resized = 1;
	  }
	  else if (IS("ecopy")) { int x = geti(), y = geti(); evectmatrix_copy(E[x], E[y]); }
	  else if (IS("eslice")) { int x = geti(), y = geti(), ix = geti(), iy = geti(), p = geti(); evectmatrix_copy_slice(E[x], E[y], ix, iy, p); }
	  else if (IS("eresize")) {
	       int x = geti(), p = geti(), keep = geti(), old = E[x].p;
	       evectmatrix_resize(&E[x], p, keep); fillE(E[x], keep ? old : 0); resized = 1;
	       if (E[x].p != p || E[x].alloc_p != AP) ok = 0;
	  }
	  else if (IS("eaxpby")) { int a = geti(), b = geti(), x = geti(), y = geti(); evectmatrix_aXpbY(a, E[x], b, E[y]); }
	  else if (IS("eaxpbys")) {
	       int a = geti(), b = geti(), x = geti(), y = geti(), s = geti(), r = geti(), c = geti(), dag = geti();
	       evectmatrix_aXpbYS_sub(a, E[x], b, E[y], Q(s), r * Q(s).p + c, dag);
	  }
	  else if (IS("exeys")) { int x = geti(), y = geti(), s = geti(), dag = geti(); evectmatrix_XeYS(E[x], E[y], s ? Q(s) : none(), dag); }
	  else if (IS("expays")) { int a = geti(), x = geti(), y = geti(), s = geti(), dag = geti(); evectmatrix_XpaYS(E[x], a, E[y], s ? Q(s) : none(), dag); }
	  else if (IS("extx")) {
	       int u = geti(), x = geti(); sqmatrix S = mksq(1, E[x].p); S.p = E[x].p;
	       sqmatrix_resize(&Q(u), E[x].p, 0); resized = 1; evectmatrix_XtX(Q(u), E[x], S); ckscratch(S, E[x].p);
	  }
	  else if (IS("exty")) {
	       int u = geti(), x = geti(), y = geti(); sqmatrix S = mksq(E[x].p, E[x].p);
	       sqmatrix_resize(&Q(u), E[x].p, 0); resized = 1; evectmatrix_XtY(Q(u), E[x], E[y], S); ckscratch(S, E[x].p);
	  }
	  else if (IS("extyslice")) {
	       int u = geti(), x = geti(), y = geti(), ix = geti(), iy = geti(), p = geti(); sqmatrix S = mksq(p, p);
	       sqmatrix_resize(&Q(u), p, 0); resized = 1; evectmatrix_XtY_slice(Q(u), E[x], E[y], ix, iy, p, S); ckscratch(S, p);
	  }
	  else if (IS("extyslice2")) {
	       int u = geti(), x = geti(), y = geti(), ix = geti(), iy = geti(), qq = geti(), iu = geti(), p = Q(u).p; sqmatrix S = mksq(p, p), T = mksq(p, p);
	       evectmatrix_XtY_slice2(Q(u), E[x], E[y], ix, iy, p, qq, iu, S, T); ckscratch(S, p); ckscratch(T, p);
	  }
	  else if (IS("extysub")) {
	       int u = geti(), r = geti(), c = geti(), x = geti(), y = geti(); sqmatrix S = mksq(E[x].p, E[x].p);
	       evectmatrixXtY_sub(Q(u), r * Q(u).p + c, E[x], E[y], S); ckscratch(S, E[x].p);
	  }
	  else if (IS("extydiag")) {
	       int x = geti(), y = geti(), p = E[x].p; zs = galloc(p); zd = galloc(p);
	       evectmatrix_XtY_diag(E[x], E[y], zd, zs);
	       if (!clean(zs - G, G) || !clean(zs + p, G) || !clean(zd - G, G) || !clean(zd + p, G)) ok = 0;
	       for (i = 0; i < p; ++i) give(zd[i]);
	       gfree(zs); gfree(zd);
	  }
	  else if (IS("extydiagre") || IS("extxdiag")) {
	       int x = geti(), y = IS("extydiagre") ? geti() : x, p = E[x].p;
	       for (i = 0; i < 8 + 2 * G; ++i) r1[i] = canary;
	       if (IS("extydiagre")) evectmatrix_XtY_diag_real(E[x], E[y], d1, r1 + G); else evectmatrix_XtX_diag_real(E[x], d1, r1 + G);
	       for (i = 0; i < 8 + 2 * G; ++i) if ((i < G || i >= G + p) && r1[i] != canary) ok = 0;
	       for (i = 0; i < p; ++i) giver(d1[i]);
	  }
	  else if (IS("trxty")) { int x = geti(), y = geti(); give(evectmatrix_traceXtY(E[x], E[y])); }
	  else if (IS("mxpaydiag")) { int a = geti(), x = geti(), y = geti(); geti(); cplx(z1, E[x].p); matrix_XpaY_diag(E[x].data, a, E[y].data, z1, E[x].n, E[x].p); }
	  else if (IS("mxpaydiagre")) { int a = geti(), x = geti(), y = geti(); geti(); reals(d1, E[x].p); matrix_XpaY_diag_real(E[x].data, a, E[y].data, d1, E[x].n, E[x].p); }
	  else if (IS("mxdpyd")) { int x = geti(), y = geti(); geti(); reals(d1, E[x].p); geti(); reals(d2, E[x].p); matrix_X_diag_real_pY_diag_real(E[x].data, d1, E[y].data, d2, E[x].n, E[x].p); }
	  else if (IS("retrad")) { int s = geti(); geti(); reals(d1, Q(s).p); giver(matrix_re_trace_A_diag_real(Q(s).data, d1, Q(s).p)); }
	  else if (IS("dtrace")) { int p = geti(); cplx(z1, p); give(matrix_diag_trace(z1, p)); }
	  else if (IS("dtracere")) { int p = geti(); reals(d1, p); giver(matrix_diag_real_trace(d1, p)); }
	  else if (IS("qtrace")) { int x = geti(); give(sqmatrix_trace(Q(x))); }
	  else if (IS("qtrab")) { int x = geti(), y = geti(); give(sqmatrix_traceAtB(Q(x), Q(y))); }
	  else if (IS("qcopy")) { int x = geti(), y = geti(); sqmatrix_copy(Q(x), Q(y)); }
	  else if (IS("qresize")) {
	       int x = geti(), p = geti(), keep = geti(), old = Q(x).p;
	       sqmatrix_resize(&Q(x), p, keep); fillQ(Q(x), keep ? old : 0); resized = 1;
	       if (Q(x).p != p || Q(x).alloc_p != AP) ok = 0;
	  }
	  else if (IS("qupper")) { int x = geti(), y = geti(); sqmatrix_copy_upper2full(Q(x), Q(y)); }
	  else if (IS("qsym")) {
	       int x = geti(), y = geti(); sqmatrix_symmetrize(Q(x), Q(y));
	       for (i = 0; i < Q(x).p * Q(x).p; ++i) ASSIGN_SCALAR(Q(x).data[i], 2 * SCALAR_RE(Q(x).data[i]), 2 * SCALAR_IM(Q(x).data[i]));
	  }
	  else if (IS("qaebc")) { int x = geti(), y = geti(), dy = geti(), s = geti(), ds = geti(); sqmatrix_AeBC(Q(x), Q(y), dy, Q(s), ds); }
	  else if (IS("qapabc")) { int a = geti(), x = geti(), y = geti(), dy = geti(), s = geti(), ds = geti(); sqmatrix_ApaBC(Q(x), a, Q(y), dy, Q(s), ds); }
	  else if (IS("qapab")) { int a = geti(), x = geti(), y = geti(); sqmatrix_ApaB(Q(x), a, Q(y)); }
	  else if (IS("qaapbb")) { int a = geti(), b = geti(), x = geti(), y = geti(); sqmatrix_aApbB(a, Q(x), b, Q(y)); }
	  else if (IS("inv")) {
	       int pd = geti(), w = geti(), res; sqmatrix U = getQ(), W = mksq(w, w);
	       res = sqmatrix_invert(U, pd, W);
	       ckscratch(W, w);
	       if (me == 0) { printf("{\"res\":%d,\"U\":", res); dumpM(U.data, U.p, U.p, 4096); }
	       ckscratch(U, U.p);
	  }
	  else if (IS("eig") || IS("geig")) {
	       int g = IS("geig"), w = geti(); sqmatrix U = getQ(), B = g ? getQ() : none(), W = mksq(w, w);
	       for (i = 0; i < 8 + 2 * G; ++i) r1[i] = canary;
	       if (g) sqmatrix_gen_eigensolve(U, B, r1 + G, W); else sqmatrix_eigensolve(U, r1 + G, W);
	       for (i = 0; i < 8 + 2 * G; ++i) if ((i < G || i >= G + U.p) && r1[i] != canary) ok = 0;
	       ckscratch(W, w);
	       if (g) ckscratch(B, U.p);
	       if (me == 0) {
		    printf("{\"U\":"); dumpM(U.data, U.p, U.p, 16384);
		    printf(",\"D\":["); for (i = 0; i < U.p; ++i) { if (i) printf(","); num(q(r1[G + i], 1024)); } printf("]");
	       }
	       ckscratch(U, U.p);
	  }
	  else if (IS("evals")) {
	       sqmatrix A = getQ(); scalar_complex ev[8], pw[8];
	       sqmatrix_eigenvalues(A, ev);
	       if (me == 0) printf("{\"S\":[");
	       for (i = 0; i < A.p; ++i) pw[i] = ev[i];
	       for (j = 0; j < A.p; ++j) {
		    double a = 0, b = 0;
		    for (i = 0; i < A.p; ++i) {
			 double x = CSCALAR_RE(pw[i]), y = CSCALAR_IM(pw[i]), u = CSCALAR_RE(ev[i]), v = CSCALAR_IM(ev[i]);
			 a += x; b += y; CASSIGN_SCALAR(pw[i], x * u - y * v, x * v + y * u);
		    }
		    if (me == 0) { if (j) printf(","); pair(q(a, 64), q(b, 64)); }
	       }
	       if (me == 0) { printf("],\"A\":"); dumpM(A.data, A.p, A.p, 0); }
	       ckscratch(A, A.p);
	  }
	  else if (IS("sqrt")) {
	       sqmatrix U = getQ(), W = mksq(U.p, U.p), S = mksq(U.p, U.p);
	       sqmatrix_sqrt(S, U, W);
	       ckscratch(W, U.p);
	       if (me == 0) { printf("{\"U\":"); dumpM(S.data, U.p, U.p, 1024); }
	       ckscratch(S, U.p); ckscratch(U, U.p);
	  }
	  else { fprintf(stderr, "unknown %s\n", op); return 4; }
	  guards(resized);
	  {
	       int rel = IS("inv") || IS("eig") || IS("geig") || IS("evals") || IS("sqrt");
	       if (rel && me == 0) printf(",\"x\":");
	       dump();
	       if (me == 0) { printf(rel ? "}\n" : "\n"); fflush(stdout); }
	  }
     }
     if (me == 0) { printf("end\n"); fflush(stdout); }
     MPI_Finalize();
     return 0;
}
