/* native runtime of the contract language: inputs come from a byte string
   (libFuzzer's, or a replay file) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
typedef unsigned long long u64;
static const uint8_t* D; static size_t N,I; static jmp_buf J; static int verbose; static const char* failed;
static int hp[4096]; /* 1: may be freed */ static void* regs[4096]; static int nregs;
static unsigned char* tabs; 
struct alpha{char name[32]; char chars[200]; int n;}; static struct alpha al[16]; static int nal;
static u64 bytes(int n){u64 v=0;for(int k=0;k<n;k++)v|=(u64)(I<N?D[I++]:0)<<(8*k);return v;}
u64 dv_scalar(const char*n,u64 lo,u64 hi){
  u64 r,span=hi-lo; 
  if(span==0) r=lo;
  else if(span<256) r=lo+bytes(1)%(span+1);
  else { /* mostly small values, sometimes the extremes or anything */
    unsigned m=bytes(1);
    if(m<200) { r=lo+m%48; if(r>hi) r=hi; }
    else if(m<216) r=hi-(m-200);
    else if(m<232) { r=bytes(2); if(r<lo||r>hi) r=lo+r%(span+1); }
    else { r=bytes(8); if(span!=~0ull) r=lo+r%(span+1); else r=lo+r; }
  }
  if(verbose) fprintf(stderr,"  %s = %llu (0x%llx)\n",n,r,r);
  return r;
}
static void cut(void){ longjmp(J,1); }
void* dv_region(const char*n,u64 c,u64 e){
  u64 stride=e>>8?e>>8:(e&255); e&=255;
  u64 total=c*stride;
  if(total>16384||nregs>=4096) cut();
  uint8_t*p=malloc(total?total:1); hp[nregs]=0; regs[nregs++]=p;
  struct alpha*a=0; for(int k=0;k<nal;k++) if(!strcmp(al[k].name,n)) a=&al[k];
  if(a){ for(u64 k=0;k<total/e;k++){ unsigned b=I<N?D[I++]:0; u64 v; if(b&0x80&&(b&0x40)) {v=b; if(e>1) v|=bytes(1)<<8;} else v=(unsigned char)a->chars[b%a->n]; memcpy(p+k*e,&v,e);} }
  else for(u64 k=0;k<total;k++) p[k]=I<N?D[I++]:0;
  if(verbose){ fprintf(stderr,"  %s[%llu] = {",n,c); for(u64 k=0;k<total/e&&k<200;k++){u64 v=0;memcpy(&v,p+k*e,e); if(v>=32&&v<127) fprintf(stderr,"'%c',",(int)v); else fprintf(stderr,"0x%llx,",v);} fprintf(stderr,"}\n"); }
  return p;
}
void* dv_heap_region(const char*n,u64 c,u64 e,unsigned char own){ void*p=dv_region(n,c,e); hp[nregs-1]=own&1; return p; }
void dv_free(void*p){ if(!p) return; for(int k=0;k<nregs;k++) if(regs[k]==p){ if(!hp[k]){fprintf(stderr,"DV-FAILED: free of memory the object does not own\n");abort();} regs[k]=0; } free(p); }
void* dv_undef_region(const char*n,u64 c,u64 e){ return dv_region(n,c,e); }
void dv_alphabet(const char*n,const char*c){ for(int k=0;k<nal;k++) if(!strcmp(al[k].name,n)) return; if(nal<16){strncpy(al[nal].name,n,31);strncpy(al[nal].chars,c,199);al[nal].n=strlen(al[nal].chars);nal++;} }
void dv_assume(unsigned char c){ if(!(c&1)) cut(); }
void dv_cut(void){ cut(); }
void dv_assert(unsigned char c,const char*w){
  if(c&1) return;
  fprintf(stderr,"DV-FAILED: %s\n",w); fflush(stderr); abort();
}
static unsigned long long reached;
void dv_reach(const char*w){ reached++; }
void dv_watchk(u64 k){} void dv_term(u64 k){} void dv_invariant(void*f,...){} void dv_mark(const void*p){} void dv_track(const void*p){} void dv_watch(const void*p,u64 n){}
unsigned dv_prove_mode(void){return 0;}
u64 dv_obj_size(const void*p){return ~0ull;}
unsigned char dv_same_object(const void*a,const void*b){return 1;}
size_t dv_wcslen(const uint16_t*s){size_t n=0;while(s[n])n++;return n;}
size_t dv_strlen(const char*s){size_t n=0;while(s[n])n++;return n;}
void _ZdlPvy(void*p,u64 n){free(p);} void* _Znwy(u64 n){return malloc(n);} void* _Znay(u64 n){return malloc(n);} void _ZdaPvy(void*p,u64 n){free(p);}
extern struct {const char*name; void(*fn)(void);} dv_units[];
static void (*unit)(void);
static void pick(void){
  const char*u=getenv("DV_UNIT"); verbose=getenv("DV_VERBOSE")!=0;
  for(int k=0;dv_units[k].name;k++) if(u&&!strcmp(u,dv_units[k].name)) unit=dv_units[k].fn;
  if(!unit){fprintf(stderr,"no unit\n");_Exit(3);}
}
static unsigned long long runs;
static void summary(void){ const char*f=getenv("DV_STATS"); if(f){FILE*o=fopen(f,"w"); if(o){fprintf(o,"%llu %llu\n",runs,reached);fclose(o);}} }
int LLVMFuzzerInitialize(int*c,char***v){ pick(); atexit(summary); return 0; }
int LLVMFuzzerTestOneInput(const uint8_t*d,size_t n){
  D=d;N=n;I=0;nregs=0; runs++;
  if(!setjmp(J)) unit();
  for(int k=0;k<nregs;k++) free(regs[k]);
  nregs=0;
  return 0;
}
