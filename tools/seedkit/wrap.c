
#include "Mainfile.h"
#include "geometry.h"
#include "init.h"
#include "SU2_rotate.h"
#include "expMat.h"
#include "GLU_malloc.h"
int gl_nd(void){ return ND; } int gl_nc(void){ return NC; } size_t gl_volume(void){ return LVOLUME; }
void gl_init(const size_t *d,int nth){
  int i; for(i=0;i<ND;i++) Latt.dims[i]=d[i];
#ifdef _OPENMP
  omp_set_dynamic(0); omp_set_num_threads(nth);
#endif
  Latt.Seed[0]=1234; Latt.gf_alpha=0.08;
  for(i=0;i<ND-1;i++) Latt.sm_alpha[i]=0.3+0.1*i;
  init_latt(); Latt.Nthreads=nth;
#if NC>3 && !( defined HAVE_LAPACKE_H || defined HAVE_GSL )
  init_factorial();
#endif
}
void gl_alpha(const double *a){ int i; for(i=0;i<ND-1;i++) Latt.sm_alpha[i]=a[i]; }
void gl_head(int h){ Latt.head=h; }
struct site *gl_lat(void){ return allocate_lat(); }
void gl_set(struct site *l,const double complex *u){ size_t i,m,k; for(i=0;i<LVOLUME;i++)for(m=0;m<ND;m++)for(k=0;k<NCNC;k++) l[i].O[m][k]=u[(i*ND+m)*NCNC+k]; }
void gl_get(struct site *l,double complex *u){ size_t i,m,k; for(i=0;i<LVOLUME;i++)for(m=0;m<ND;m++)for(k=0;k<NCNC;k++) u[(i*ND+m)*NCNC+k]=l[i].O[m][k]; }
double complex **gl_mats(size_t n,size_t len){ double complex **g=malloc(n*sizeof(void*)); size_t i; for(i=0;i<n;i++){ void *p=0; posix_memalign(&p,64,len*sizeof(double complex)); memset(p,0,len*sizeof(double complex)); g[i]=p; } return g; }
void gl_mset(double complex **g,size_t n,size_t len,const double complex *u){ size_t i,k; for(i=0;i<n;i++)for(k=0;k<len;k++) g[i][k]=u[i*len+k]; }
void gl_mget(double complex **g,size_t n,size_t len,double complex *u){ size_t i,k; for(i=0;i<n;i++)for(k=0;k<len;k++) u[i*len+k]=g[i][k]; }
void gl_table(struct site *l,size_t i,size_t *o){ int m; for(m=0;m<ND;m++){ o[m]=l[i].neighbor[m]; o[ND+m]=l[i].back[m]; } }
double complex poly(const struct site *,size_t); void gl_poly(struct site *l,size_t d,double *r){ double complex z=poly(l,d); r[0]=creal(z); r[1]=cimag(z); }
void *gl_aligned(size_t b){ void *p=0; posix_memalign(&p,64,b); memset(p,0,b); return p; }
