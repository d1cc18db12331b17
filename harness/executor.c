/* Executor: exposes the library's public C API over a pipe.
 *
 * request : u32 len | u16 namelen | name | u16 nargs | { u32 len | bytes }*
 * response: u32 len | i32 ret | u8 flags | u16 nouts | { u32 len | bytes }*
 * flags bit 0: the call modified one of its inputs.
 *
 * Every argument lives in a heap block of exactly its size, so that any access
 * outside of it is caught by the address sanitizer.  Integers are passed as
 * 8-byte little-endian arguments.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sodium.h>
size_t __sanitizer_get_current_allocated_bytes(void);
#include "oprf.h"
#include "toprf.h"
#include "mpmult.h"
#include "tp-dkg.h"
#include "XK.h"

/* Built a second time with PAR, the executor can serve several requests at once in
 * threads of which one runs at a time; the library's code then contains points where
 * another one may be chosen. */
#ifdef PAR
#include <pthread.h>
#include <semaphore.h>
#define TL _Thread_local
#define RNGLOG 16
#else
#define TL
#define RNGLOG (8<<20)
#endif
/* Built with CT it runs under valgrind and marks secrets as undefined, so that whatever
 * branches on them or uses them in an address is reported. */
#ifdef CT
#include <valgrind/memcheck.h>
size_t __sanitizer_get_current_allocated_bytes(void) { return 0; }
static int ct_on, ct_random, ct_raw; /* raw: outputs and memory handed over for sessions count as never written */
void ct_public(uint64_t *v);
void ct_public(uint64_t *v) { VALGRIND_MAKE_MEM_DEFINED(v,8); }
/* two things that arrive encrypted are public all the same: the public key of a channel's initiator and the index before a share */
int __real_crypto_aead_chacha20poly1305_ietf_decrypt(unsigned char*,unsigned long long*,unsigned char*,const unsigned char*,unsigned long long,const unsigned char*,unsigned long long,const unsigned char*,const unsigned char*);
int __wrap_crypto_aead_chacha20poly1305_ietf_decrypt(unsigned char *m,unsigned long long *ml,unsigned char *ns,const unsigned char *c,unsigned long long cl,const unsigned char *ad,unsigned long long adl,const unsigned char *n,const unsigned char *k);
int __wrap_crypto_aead_chacha20poly1305_ietf_decrypt(unsigned char *m,unsigned long long *ml,unsigned char *ns,const unsigned char *c,unsigned long long cl,const unsigned char *ad,unsigned long long adl,const unsigned char *n,const unsigned char *k) {
  int rc=__real_crypto_aead_chacha20poly1305_ietf_decrypt(m,ml,ns,c,cl,ad,adl,n,k);
  VALGRIND_MAKE_MEM_DEFINED(&rc,sizeof rc);
  if(rc==0 && cl==48) VALGRIND_MAKE_MEM_DEFINED(m,32);
  if(rc==0 && cl==49) VALGRIND_MAKE_MEM_DEFINED(m,1);
  return rc;
}
#endif
extern FILE *log_file;
extern int debug;

/* ---- controlled clock ---- */
static TL int64_t fake_now = 1700000000;
time_t __wrap_time(time_t *t);
int __wrap_gettimeofday(struct timeval *tv, void *tz);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts);
time_t __wrap_time(time_t *t) { if(t) *t=(time_t)fake_now; return (time_t)fake_now; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec=fake_now; tv->tv_usec=0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec=fake_now; ts->tv_nsec=0; return 0; }

/* ---- controlled randomness ---- */
static TL uint8_t rng_key[32];
static TL uint64_t rng_ctr, rng_bytes;
static TL uint8_t rng_log[RNGLOG]; /* every draw of the current case: length, bytes */
static TL size_t rng_loglen;
static TL int64_t rng_flip_draw=-1; static TL uint64_t rng_flip_byte; static TL uint8_t rng_flip_mask; /* one draw may be altered */
static void rng_buf(void * const buf, const size_t size) {
  uint8_t nonce[8];
  memcpy(nonce,&rng_ctr,8);
  rng_ctr++;
  rng_bytes+=size;
  if(size) crypto_stream_chacha20(buf, size, nonce, rng_key);
  if(size && (int64_t)rng_ctr-1==rng_flip_draw) ((uint8_t*)buf)[rng_flip_byte%size]^=rng_flip_mask;
#ifdef CT
  if(ct_on && ct_random) { VALGRIND_MAKE_MEM_UNDEFINED(buf,size); return; }
#endif
  if(rng_loglen+4+size<=sizeof rng_log) {
    uint32_t l=(uint32_t)size; memcpy(rng_log+rng_loglen,&l,4); memcpy(rng_log+rng_loglen+4,buf,size); rng_loglen+=4+size;
  }
}
static uint32_t rng_u32(void) { uint32_t r; rng_buf(&r,4); return r; }
static const char *rng_name(void) { return "seeded"; }
static void rng_stir(void) {}
static int rng_close(void) { return 0; }
static struct randombytes_implementation rng_impl = {
  .implementation_name=rng_name, .random=rng_u32, .stir=rng_stir,
  .uniform=NULL, .buf=rng_buf, .close=rng_close };

/* ---- controlled locking of memory ---- */
#define MAXLOCKS 4096
static TL struct { void *p; size_t n; } lock_now[64];
static TL int lock_cnt; /* regions locked at present */
static TL uint64_t lock_calls, lock_bad; /* bad: released without having been locked like that */
static TL int64_t lock_refuse=-1; /* which request is refused */
static TL int lock_rec; /* contents are recorded, which takes memory */
static TL uint8_t *lock_was[MAXLOCKS]; static TL size_t lock_len[MAXLOCKS]; static TL int lock_ends; /* what regions held when they were released */
int __wrap_sodium_mlock(void * const p, const size_t n);
int __wrap_sodium_munlock(void * const p, const size_t n);
int __wrap_sodium_mlock(void * const p, const size_t n) {
  if((int64_t)lock_calls++==lock_refuse) return -1;
  if(lock_cnt<64) { lock_now[lock_cnt].p=p; lock_now[lock_cnt].n=n; }
  lock_cnt++;
  return 0;
}
int __wrap_sodium_munlock(void * const p, const size_t n) {
  int i;
  for(i=0;i<lock_cnt && i<64;i++) if(lock_now[i].p==p && lock_now[i].n==n) break;
  if(i==lock_cnt || i==64) lock_bad++;
  else lock_now[i]=lock_now[--lock_cnt];
  if(lock_rec && lock_ends<MAXLOCKS) { lock_was[lock_ends]=malloc(n); memcpy(lock_was[lock_ends],p,n); lock_len[lock_ends++]=n; }
  sodium_memzero(p,n);
  return 0;
}

/* ---- request / response ---- */
#define MAXARGS 512
static TL uint8_t *arg[MAXARGS], *argcopy[MAXARGS];
static TL size_t alen[MAXARGS];
static TL int nargs;
#define MAXOUTS 8192
static TL uint8_t *out[MAXOUTS];
static TL size_t olen[MAXOUTS];
static TL int nouts;
static TL int32_t ret;

static void die(const char *m) { fprintf(stderr,"EXECUTOR-ERROR %s\n",m); exit(77); }
static void readn(void *p, size_t n) {
  uint8_t *b=p;
  while(n) { ssize_t r=read(0,b,n); if(r<=0) exit(0); b+=r; n-=(size_t)r; }
}
static void writen(const void *p, size_t n) {
  const uint8_t *b=p;
  while(n) { ssize_t r=write(1,b,n); if(r<=0) exit(0); b+=r; n-=(size_t)r; }
}
static uint64_t I(int i) {
  if(i>=nargs || alen[i]!=8) die("int arg");
  uint64_t v; memcpy(&v,arg[i],8); return v;
}
static uint8_t *B(int i, size_t n) {
  if(i>=nargs || alen[i]!=n) die("fixed arg");
  return arg[i];
}
static uint8_t *O(size_t n) {
  if(nouts>=MAXOUTS) die("outs");
  uint8_t *p=malloc(n);
  memset(p,0xA5,n);
#ifdef CT
  if(ct_on && ct_raw) VALGRIND_MAKE_MEM_UNDEFINED(p,n);
#endif
  out[nouts]=p; olen[nouts]=n; nouts++;
  return p;
}
static void OI(uint64_t v) { uint8_t *p=O(8); memcpy(p,&v,8); }

/* ---- protocol objects ---- */
typedef struct {
  TP_DKG_TPState *st;
  uint8_t *sig_pks,*lt_pks,*commitments,*enc;
  uint16_t *complaints;
  TP_DKG_Cheater *cheaters;
  uint64_t *last_ts;
} TP;
typedef struct {
  TP_DKG_PeerState *st;
  int bufs;
  uint8_t *lt_sk;
  uint8_t *sig_pks,*noise_pks,*commitments,*my_complaints;
  Noise_XK_session_t **outs,**ins;
  TOPRF_Share *shares,*xshares;
  uint16_t *complaints;
  uint64_t *last_ts;
} PEER;
#define MAXOBJ 4096
static void *obj[MAXOBJ];
static int newobj(void *p) {
  for(int i=1;i<MAXOBJ;i++) if(!obj[i]) { obj[i]=p; return i; }
  die("too many objects"); return 0;
}
static void *G(int i) {
  uint64_t h=I(i);
  if(h==0 || h>=MAXOBJ || !obj[h]) die("bad handle");
  return obj[h];
}
static uint8_t fill=0xA5; /* what buffers hold before they are written */
static int scrub; /* refill the stack before every call, too */
static void unwritten(void *p, size_t n) {
  memset(p,fill,n);
#ifdef CT
  if(ct_on && ct_raw) VALGRIND_MAKE_MEM_UNDEFINED(p,n);
#endif
}
/* what a call leaves unwritten of a buffer by intent */
static void spare(void *p, size_t n) {
  (void)p; (void)n;
#ifdef CT
  VALGRIND_MAKE_MEM_DEFINED(p,n);
#endif
}
static void spare_text(char *m, size_t n) { size_t l=strnlen(m,n); spare(m+l,n-l); }
static void *junk(size_t n) { uint8_t *p=malloc(n); unwritten(p,n); return p; }
static void *zero(size_t n) { uint8_t *p=malloc(n); memset(p,0,n); return p; }
static void *jalign(size_t n) { uint8_t *p=NULL; n=(n+63)/64*64; if(posix_memalign((void**)&p,64,n)) die("align"); unwritten(p,n); return p; }

static void put_session_result(Noise_XK_rcode rc, uint32_t len, uint8_t *buf) {
  ret = Noise_XK_rcode_is_success(rc) ? 0 : 1;
  if(ret==0) {
    uint8_t *o=O(len);
    if(len) memcpy(o,buf,len);
    if(buf) free(buf);
  } else {
    if(buf!=NULL || len!=0) ret=2; /* documented: NULL/0 on failure */
  }
}

typedef struct { const char *name; void (*fn)(void); } OP;
#define D(n) static void op_##n(void)

static void lock_clear(void);
D(seed) { lock_clear(); uint8_t s[8]; uint64_t v=I(0); memcpy(s,&v,8); crypto_generichash(rng_key,32,s,8,NULL,0); rng_ctr=0; rng_bytes=0; rng_loglen=0; rng_flip_draw=-1; }
D(rngflip) { rng_flip_draw=(int64_t)I(0); rng_flip_byte=I(1); rng_flip_mask=(uint8_t)I(2); }
D(fill) { fill=(uint8_t)I(0); scrub=1; }
D(rngbytes) { OI(rng_bytes); }
D(rnglog) { memcpy(O(rng_loglen),rng_log,rng_loglen); }
D(settime) { fake_now=(int64_t)I(0); }
D(heap) { OI(__sanitizer_get_current_allocated_bytes()); }
static void lock_clear(void) { for(int i=0;i<lock_ends;i++) free(lock_was[i]); lock_ends=0; lock_cnt=0; lock_calls=lock_bad=0; }
D(locks) { lock_clear(); lock_rec=1; lock_refuse=(int64_t)I(0); }
D(lock_log) { /* -> requests, still locked, released wrongly, contents of released regions */
  OI(lock_calls); OI((uint64_t)lock_cnt); OI(lock_bad);
  for(int i=0;i<lock_ends;i++) memcpy(O(lock_len[i]),lock_was[i],lock_len[i]);
  lock_clear(); lock_refuse=-1; lock_rec=0;
}
static FILE *devnull;
static char logbuf[65536];
static FILE *logmem;
static char *logtext;
static size_t loglen,logtaken;
D(log) { if(logmem) { log_file=NULL; fclose(logmem); free(logtext); logmem=NULL; }
  if(I(0)==3) { logmem=open_memstream(&logtext,&loglen); log_file=logmem; logtaken=0; debug=0; return; }
  if(!devnull) { devnull=fopen("/dev/null","w"); setvbuf(devnull,logbuf,_IOFBF,sizeof logbuf); } log_file=I(0)?devnull:NULL; debug=(I(0)>1); }

/* what has been logged since the last time */
D(log_take) { if(!logmem) die("no log"); fflush(logmem); memcpy(O(loglen-logtaken),logtext+logtaken,loglen-logtaken); logtaken=loglen; }

D(keygen) { oprf_KeyGen(O(32)); }
D(finalize) { uint8_t *o=O(64); ret=oprf_Finalize(arg[0],(uint16_t)alen[0],B(1,32),o); }
D(expand) { uint8_t *o=O(I(2)); ret=expand_message_xmd(arg[0],(uint16_t)alen[0],arg[1],(uint8_t)alen[1],(uint8_t)I(2),o); }
D(h2g) { uint8_t *o=O(32); ret=voprf_hash_to_group(arg[0],(uint16_t)alen[0],o); }
D(blind) { uint8_t *r=O(32),*b=O(32); ret=oprf_Blind(arg[0],(uint16_t)alen[0],r,b); }
D(evaluate) { uint8_t *o=O(32); ret=oprf_Evaluate(B(0,32),B(1,32),o); }
D(unblind) { uint8_t *o=O(32); ret=oprf_Unblind(B(0,32),B(1,32),o); }

D(coeff) { uint8_t *o=O(32); coeff((uint8_t)I(0),alen[1],arg[1],o); }
D(create_shares) { uint8_t n=(uint8_t)I(1); uint8_t *o=O((size_t)n*33); toprf_create_shares(B(0,32),n,(uint8_t)I(2),(uint8_t(*)[TOPRF_Share_BYTES])o); }
D(thresholdmult) { uint8_t *o=O(32); ret=toprf_thresholdmult(alen[0]/33,(const uint8_t(*)[TOPRF_Part_BYTES])arg[0],o); }
D(tevaluate) { uint8_t *o=O(33); ret=toprf_Evaluate(B(0,33),B(1,32),(uint8_t)I(2),arg[3],(uint16_t)alen[3],o); }
D(thresholdcombine) { uint8_t *o=O(32); ret=toprf_thresholdcombine(alen[0]/33,(const uint8_t(*)[TOPRF_Part_BYTES])arg[0],o); }
D(tdh) { uint8_t *o=O(33); ret=toprf_3hashtdh(B(0,33),B(1,33),B(2,32),arg[3],(uint16_t)alen[3],o); }

D(dkg_start) { uint8_t n=(uint8_t)I(0),t=(uint8_t)I(1); uint8_t *c=O((size_t)t*32), *s=O((size_t)n*33); ret=dkg_start(n,t,(uint8_t(*)[32])c,(TOPRF_Share*)s); }
D(dkg_verify1) { TOPRF_Share s; memcpy(&s,B(5,33),33); uint8_t t=(uint8_t)I(1); ret=dkg_verify_commitment((uint8_t)I(0),t,(uint8_t)I(2),(uint8_t)I(3),(const uint8_t(*)[32])B(4,(size_t)t*32),s); }
D(dkg_verify) {
  uint8_t n=(uint8_t)I(0),t=(uint8_t)I(1); uint8_t *f=O(n),*fl=O(1); *fl=0;
  ret=dkg_verify_commitments(n,t,(uint8_t)I(2),(const uint8_t(*)[t][32])B(3,(size_t)n*t*32),(const TOPRF_Share*)B(4,(size_t)n*33),f,fl);
  if(*fl<n) spare(f+*fl,n-*fl); }
D(dkg_finish) { uint8_t n=(uint8_t)I(0); uint8_t *x=O(33); x[0]=0; dkg_finish(n,(const TOPRF_Share*)B(1,(size_t)n*33),(uint8_t)I(2),(TOPRF_Share*)x); }
D(dkg_reconstruct) { uint8_t *o=O(32); dkg_reconstruct(alen[0]/33,(const TOPRF_Share*)arg[0],o); }

D(vdm) { uint8_t d=(uint8_t)alen[0]; uint8_t *o=O((size_t)d*d*32); invertedVDMmatrix(d,arg[0],(uint8_t(*)[d][32])o); }
D(mul_start) { uint8_t n=(uint8_t)I(2); uint8_t *o=O((size_t)n*33); ret=toprf_mpc_mul_start(B(0,33),B(1,33),n,(uint8_t)I(3),(uint8_t(*)[TOPRF_Share_BYTES])o); }
D(mul_finish) { uint8_t d=(uint8_t)alen[0]; uint8_t *o=O(33); toprf_mpc_mul_finish(d,arg[0],(uint8_t)I(1),(const uint8_t(*)[TOPRF_Share_BYTES])B(2,(size_t)d*33),o); }

/* tp_new(eps,n,t,name,lt_pks,cheater_max,msg0len) -> handle,msg0 */
D(tp_new) {
  uint8_t n=(uint8_t)I(1),t=(uint8_t)I(2);
  size_t cm=I(5);
  TP *p=calloc(1,sizeof *p);
  p->st=jalign(sizeof *p->st);
  uint8_t *m=O(I(6));
  /* terminated copy: the name is a C string with an explicit length */
  char *name=malloc(alen[3]);
  memcpy(name,arg[3],alen[3]);
  ret=tpdkg_start_tp(p->st,I(0),n,t,name,alen[3],I(6),(TP_DKG_Message*)m);
  free(name);
  if(ret) { free(p->st); free(p); OI(0); return; }
  p->sig_pks=junk((size_t)n*32); p->lt_pks=malloc((size_t)n*32); memcpy(p->lt_pks,B(4,(size_t)n*32),(size_t)n*32);
  p->commitments=junk((size_t)n*t*32); p->complaints=junk((size_t)n*n*2); p->enc=junk((size_t)n*n*tpdkg_msg8_SIZE);
  p->cheaters=zero(cm*sizeof(TP_DKG_Cheater)); p->last_ts=junk((size_t)n*8);
  tpdkg_tp_set_bufs(p->st,(uint8_t(*)[][32])p->commitments,(uint16_t(*)[])p->complaints,(uint8_t(*)[][tpdkg_msg8_SIZE])p->enc,
                    (TP_DKG_Cheater(*)[])p->cheaters,cm,(uint8_t(*)[][32])p->sig_pks,(uint8_t(*)[][32])p->lt_pks,p->last_ts);
  OI((uint64_t)newobj(p));
}
D(tp_sizes) {
  TP *p=G(0); size_t n=p->st->n;
  OI(tpdkg_tp_input_size(p->st)); OI(tpdkg_tp_output_size(p->st)); OI((uint64_t)tpdkg_tp_not_done(p->st));
  size_t *s=(size_t*)O(n*sizeof(size_t));
  ret=tpdkg_tp_input_sizes(p->st,s);
}
D(tp_next) { /* handle,input,outlen */
  TP *p=G(0); size_t ol=I(2);
  uint8_t *o=O(ol);
  ret=tpdkg_tp_next(p->st,alen[1]?arg[1]:NULL,alen[1],ol?o:NULL,ol);
  OI((uint64_t)tpdkg_tp_not_done(p->st)); OI(p->st->cheater_len);
}
D(tp_next_raw) { /* handle,input (never NULL),outlen */
  TP *p=G(0); size_t ol=I(2);
  uint8_t *o=O(ol);
  ret=tpdkg_tp_next(p->st,arg[1],alen[1],o,ol);
  OI((uint64_t)tpdkg_tp_not_done(p->st)); OI(p->st->cheater_len);
}
D(tp_msgs) { /* handle,base -> per peer messages */
  TP *p=G(0); uint8_t n=p->st->n;
  uint32_t total=0; uint8_t *buf=malloc(alen[1]*n+4*n+4); 
  for(uint8_t i=0;i<n;i++) {
    const uint8_t *m=NULL; size_t l=0;
    ret=tpdkg_tp_peer_msg(p->st,arg[1],alen[1],i,&m,&l);
    if(ret) break;
    if(l && (m<arg[1] || m+l>arg[1]+alen[1])) { ret=1000+i; break; }
    uint32_t l32=(uint32_t)l;
    memcpy(buf+total,&l32,4); if(l) memcpy(buf+total+4,m,l); total+=4+l32;
  }
  uint8_t *o=O(total); if(total) memcpy(o,buf,total); free(buf);
}
D(tp_peer_msg) { /* handle,base,peer -> offset,len */
  TP *p=G(0); const uint8_t *m=NULL; size_t l=0;
  ret=tpdkg_tp_peer_msg(p->st,arg[1],alen[1],(uint8_t)I(2),&m,&l);
  OI((uint64_t)(m?m-arg[1]:-1)); OI(l);
}
D(tp_cheaters) { /* handle -> entries: step,error,peer,other,msgret,msg */
  TP *p=G(0); size_t k=p->st->cheater_len;
  OI(k);
  for(size_t i=0;i<k && i<(MAXOUTS-4)/2;i++) {
    TP_DKG_Cheater *c=&p->cheaters[i];
    uint8_t *e=O(20);
    int32_t v[5]={c->step,c->error,c->peer,c->other_peer,0};
    char *m=(char*)O(tpdkg_max_err_SIZE);
    v[4]=tpdkg_cheater_msg(c,m,tpdkg_max_err_SIZE);
    memcpy(e,v,20); spare_text(m,tpdkg_max_err_SIZE);
  }
}
D(cheater_msg) { /* step,error,peer,other,outlen */
  TP_DKG_Cheater c; memset(&c,0,sizeof c);
  c.step=(int)I(0); c.error=(int)I(1); c.peer=(uint8_t)I(2); c.other_peer=(uint8_t)I(3);
  char *m=(char*)O(I(4));
  ret=tpdkg_cheater_msg(&c,m,I(4)); spare_text(m,I(4));
}
D(tp_free) {
  TP *p=G(0); obj[I(0)]=NULL;
  free(p->st); free(p->sig_pks); free(p->lt_pks); free(p->commitments); free(p->complaints); free(p->enc); free(p->cheaters); free(p->last_ts); free(p);
}

static void peer_drop(PEER *p) {
  if(p->bufs) {
    free(p->sig_pks); free(p->noise_pks); free(p->outs); free(p->ins); free(p->shares); free(p->xshares);
    free(p->commitments); free(p->complaints); free(p->my_complaints); free(p->last_ts);
  }
  free(p->lt_sk); free(p->st); free(p);
}
/* peer_new(eps,lt_sk,msg0) -> handle,n,t */
D(peer_new) {
  PEER *p=calloc(1,sizeof *p);
  p->st=jalign(sizeof *p->st);
  p->lt_sk=malloc(64); memcpy(p->lt_sk,B(1,64),64);
  ret=tpdkg_start_peer(p->st,I(0),p->lt_sk,(TP_DKG_Message*)B(2,tpdkg_msg0_SIZE));
  if(ret) { peer_drop(p); OI(0); OI(0); OI(0); return; }
  size_t n=p->st->n,t=p->st->t;
  p->sig_pks=junk(n*32); p->noise_pks=junk(n*32);
  p->outs=junk(n*sizeof(void*)); p->ins=junk(n*sizeof(void*));
  if(I(3)) { memset(p->outs,0,n*sizeof(void*)); memset(p->ins,0,n*sizeof(void*)); }
  p->shares=junk(n*33); p->xshares=junk(n*33);
  p->commitments=junk(n*t*32); p->complaints=junk(n*n*2); p->my_complaints=junk(n); p->last_ts=junk(n*8);
  p->bufs=1;
  tpdkg_peer_set_bufs(p->st,(uint8_t(*)[][32])p->sig_pks,(uint8_t(*)[][32])p->noise_pks,
                      (Noise_XK_session_t*(*)[])p->outs,(Noise_XK_session_t*(*)[])p->ins,
                      (TOPRF_Share(*)[])p->shares,(TOPRF_Share(*)[])p->xshares,
                      (uint8_t(*)[][32])p->commitments,p->complaints,p->my_complaints,p->last_ts);
  OI((uint64_t)newobj(p)); OI(n); OI(t);
}
D(peer_sizes) {
  PEER *p=G(0);
  OI(tpdkg_peer_input_size(p->st)); OI(tpdkg_peer_output_size(p->st)); OI((uint64_t)tpdkg_peer_not_done(p->st));
}
D(peer_next) { /* handle,input,outlen */
  PEER *p=G(0); size_t ol=I(2);
  uint8_t *o=O(ol);
  ret=tpdkg_peer_next(p->st,alen[1]?arg[1]:NULL,alen[1],ol?o:NULL,ol);
  OI((uint64_t)tpdkg_peer_not_done(p->st));
}
D(peer_next_raw) { /* handle,input (never NULL),outlen */
  PEER *p=G(0); size_t ol=I(2);
  uint8_t *o=O(ol);
  ret=tpdkg_peer_next(p->st,arg[1],alen[1],o,ol);
  OI((uint64_t)tpdkg_peer_not_done(p->st));
}
D(peer_share) { PEER *p=G(0); memcpy(O(33),&p->st->share,33); OI(p->st->index); }
D(peer_set_share) { PEER *p=G(0); memcpy(&p->st->share,B(1,33),33); }
D(peer_secrets) { /* for the confidentiality oracle: shares dealt, session signing key, channel private key */
  PEER *p=G(0); size_t n=p->st->n;
  memcpy(O(n*33),p->shares,n*33); memcpy(O(64),p->st->sig_sk,64); memcpy(O(32),p->st->noise_sk,32); memcpy(O(32),p->st->sig_pk,32);
}
D(peer_free) { PEER *p=G(0); obj[I(0)]=NULL; tpdkg_peer_free(p->st); peer_drop(p); }
D(peer_drop) { PEER *p=G(0); obj[I(0)]=NULL; peer_drop(p); }

/* ---- channel ---- */
D(nx_dev) { /* prologue,name,srlzkey,priv -> handle,pub */
  char *name=malloc(alen[1]+1); memcpy(name,arg[1],alen[1]); name[alen[1]]=0;
  Noise_XK_device_t *d=Noise_XK_device_create((uint32_t)alen[0],arg[0],(uint8_t*)name,B(2,32),B(3,32));
  free(name);
  uint8_t *pub=O(32);
  if(!d) { ret=1; OI(0); return; }
  Noise_XK_device_get_static_pub(pub,d);
  OI((uint64_t)newobj(d));
}
D(nx_dev_secret) { /* prologue,name,srlzkey,blob -> handle,pub */
  char *name=malloc(alen[1]+1); memcpy(name,arg[1],alen[1]); name[alen[1]]=0;
  Noise_XK_device_t *d=Noise_XK_device_create_from_secret((uint32_t)alen[0],arg[0],(uint8_t*)name,B(2,32),arg[3]);
  free(name);
  uint8_t *pub=O(32);
  if(!d) { ret=1; OI(0); return; }
  Noise_XK_device_get_static_pub(pub,d);
  OI((uint64_t)newobj(d));
}
D(nx_ser_dev) { uint32_t l=0; uint8_t *b=NULL; Noise_XK_serialize_device_secret(&l,&b,G(0)); uint8_t *o=O(l); if(l) memcpy(o,b,l); free(b); }
D(nx_add_peer) { /* dev,name,pub -> id */
  char *name=malloc(alen[1]+1); memcpy(name,arg[1],alen[1]); name[alen[1]]=0;
  Noise_XK_peer_t *p=Noise_XK_device_add_peer(G(0),(uint8_t*)name,B(2,32));
  free(name);
  if(!p) { ret=1; OI(0); return; }
  OI(Noise_XK_peer_get_id(p));
}
D(nx_rm_peer) { Noise_XK_device_remove_peer(G(0),(uint32_t)I(1)); }
D(nx_ser_peer) { /* dev,id */
  Noise_XK_peer_t *p=Noise_XK_device_lookup_peer_by_id(G(0),(uint32_t)I(1)); if(!p) { ret=1; O(0); return; }
  uint32_t l=0; uint8_t *b=NULL; Noise_XK_serialize_peer_secret(&l,&b,G(0),p); uint8_t *o=O(l); if(l) memcpy(o,b,l); free(b); }
D(nx_deser_peer) { /* dev,name,blob -> id,pub */
  char *name=malloc(alen[1]+1); memcpy(name,arg[1],alen[1]); name[alen[1]]=0;
  Noise_XK_peer_t *p=Noise_XK_deserialize_peer_secret(G(0),(uint8_t*)name,(uint32_t)alen[2],arg[2]);
  free(name);
  if(!p) { ret=1; OI(0); O(0); return; }
  OI(Noise_XK_peer_get_id(p)); Noise_XK_peer_get_static(O(32),p);
}
D(nx_lookup) { /* dev,pub -> id */
  Noise_XK_peer_t *p=Noise_XK_device_lookup_peer_by_static(G(0),B(1,32));
  OI(p?Noise_XK_peer_get_id(p):0);
}
D(nx_init) { Noise_XK_session_t *s=Noise_XK_session_create_initiator(G(0),(uint32_t)I(1)); if(!s) { ret=1; OI(0); return; } OI((uint64_t)newobj(s)); }
D(nx_resp) { Noise_XK_session_t *s=Noise_XK_session_create_responder(G(0)); if(!s) { ret=1; OI(0); return; } OI((uint64_t)newobj(s)); }
D(nx_write) { /* session,conf,msg -> ct */
  Noise_XK_encap_message_t *e=Noise_XK_pack_message_with_conf_level((uint8_t)I(1),(uint32_t)alen[2],arg[2]);
  uint32_t l=0; uint8_t *b=NULL;
  Noise_XK_rcode rc=Noise_XK_session_write(e,G(0),&l,&b);
  Noise_XK_encap_message_p_free(e);
  put_session_result(rc,l,b);
}
D(nx_read) { /* session,auth,ct -> ok,pt */
  Noise_XK_encap_message_t *e=NULL;
  Noise_XK_rcode rc=Noise_XK_session_read(&e,G(0),(uint32_t)alen[2],arg[2]);
  if(!Noise_XK_rcode_is_success(rc)) { ret=1; if(e) { ret=2; Noise_XK_encap_message_p_free(e); } return; }
  uint32_t l=0; uint8_t *b=NULL;
  if(!Noise_XK_unpack_message_with_auth_level(&l,&b,(uint8_t)I(1),e)) { ret=3; Noise_XK_encap_message_p_free(e); return; }
  Noise_XK_encap_message_p_free(e);
  uint8_t *o=O(l); if(l) memcpy(o,b,l); if(b) free(b);
}
D(nx_status) { Noise_XK_session_t *s=G(0); OI(Noise_XK_session_get_status(s)); OI(Noise_XK_session_get_peer_id(s)); OI(Noise_XK_session_reached_max_security(s)); Noise_XK_session_get_hash(O(64),s); }
D(nx_nextlen) { uint32_t l=0; ret=!Noise_XK_session_compute_next_message_len(&l,G(0),(uint32_t)I(1)); OI(l); }
D(nx_sfree) { Noise_XK_session_t *s=G(0); obj[I(0)]=NULL; Noise_XK_session_free(s); }
D(nx_dfree) { Noise_XK_device_t *d=G(0); obj[I(0)]=NULL; Noise_XK_device_free(d); }

/* names come back as a copy, or nothing for no name */
static void put_name(Noise_XK_noise_string s) { size_t l=s?strlen((char*)s):0; OI(s!=NULL); uint8_t *o=O(l); if(l) memcpy(o,s,l); if(s) free(s); }
D(nx_xwrite) { /* session,conf,msg -> code,ct */
  Noise_XK_encap_message_t *e=Noise_XK_pack_message_with_conf_level((uint8_t)I(1),(uint32_t)alen[2],arg[2]);
  uint32_t l=77; uint8_t *b=(uint8_t*)e;
  Noise_XK_rcode rc=Noise_XK_session_write(e,G(0),&l,&b);
  Noise_XK_encap_message_p_free(e);
  OI(rc.tag);
  if(!Noise_XK_rcode_is_success(rc)) { ret=(b!=NULL || l!=0)?2:1; return; }
  uint8_t *o=O(l); if(l) memcpy(o,b,l); if(b) free(b);
}
D(nx_xread) { /* session,auth,ct -> code,handed out,pt,level,pt regardless of the level */
  Noise_XK_encap_message_t *e=(void*)arg;
  Noise_XK_rcode rc=Noise_XK_session_read(&e,G(0),(uint32_t)alen[2],arg[2]);
  OI(rc.tag);
  if(!Noise_XK_rcode_is_success(rc)) { ret=e?2:1; return; }
  uint32_t l=0; uint8_t *b=NULL;
  bool ok=Noise_XK_unpack_message_with_auth_level(&l,&b,(uint8_t)I(1),e);
  if(!ok && b) ret=3;
  OI(ok); if(!ok) l=0; uint8_t *o=O(l); if(l) memcpy(o,b,l); if(ok && b) free(b);
  Noise_XK_ac_level_t lv; l=0; b=NULL; Noise_XK_unsafe_unpack_message(&lv,&l,&b,e);
  OI(lv.tag==Noise_XK_Auth_level?lv.val.case_Auth_level:255); o=O(l); if(l) memcpy(o,b,l); if(b) free(b);
  Noise_XK_encap_message_p_free(e);
}
D(nx_sinfo) { /* session -> status,id,peer id,peer known,has name,name,has peer name,peer name,max security,hash */
  Noise_XK_session_t *s=G(0); Noise_XK_noise_string n=NULL,pn=NULL;
  OI(Noise_XK_session_get_status(s)); OI(Noise_XK_session_get_id(s)); OI(Noise_XK_session_get_peer_id(s));
  Noise_XK_session_get_info(&n,s); OI(Noise_XK_session_get_peer_info(&pn,s)); put_name(n); put_name(pn);
  OI(Noise_XK_session_reached_max_security(s)); Noise_XK_session_get_hash(O(64),s);
}
D(nx_dinfo) { /* device -> has name,name,sessions,saturated,peers,saturated,priv,pub */
  Noise_XK_device_t *d=G(0); Noise_XK_noise_string n=NULL;
  Noise_XK_device_get_info(&n,d); put_name(n);
  OI(Noise_XK_device_get_sessions_counter(d)); OI(Noise_XK_device_sessions_counter_is_saturated(d));
  OI(Noise_XK_device_get_peers_counter(d)); OI(Noise_XK_device_peers_counter_is_saturated(d));
  Noise_XK_device_get_static_priv(O(32),d); Noise_XK_device_get_static_pub(O(32),d);
}
D(nx_pinfo) { /* device,id -> found,id,has name,name,static */
  Noise_XK_peer_t *p=Noise_XK_device_lookup_peer_by_id(G(0),(uint32_t)I(1)); Noise_XK_noise_string n=NULL;
  OI(p!=NULL); if(!p) return;
  OI(Noise_XK_peer_get_id(p)); Noise_XK_peer_get_info(&n,p); put_name(n); Noise_XK_peer_get_static(O(32),p);
}

#ifdef PAR
static void op_par(void);
#else
D(par) { die("par"); }
#endif
#ifdef CT
static void op_ct(void);
#else
D(ct) { die("ct"); }
#endif
#define E(n) { #n, op_##n }
static OP ops[]={ E(seed),E(rngbytes),E(rnglog),E(rngflip),E(fill),E(settime),E(heap),E(locks),E(lock_log),E(log_take),E(log),E(keygen),E(finalize),E(expand),E(h2g),E(blind),E(evaluate),E(unblind),
  E(coeff),E(create_shares),E(thresholdmult),E(tevaluate),E(thresholdcombine),E(tdh),E(dkg_start),E(dkg_verify1),E(dkg_verify),E(dkg_finish),
  E(dkg_reconstruct),E(vdm),E(mul_start),E(mul_finish),E(tp_new),E(tp_sizes),E(tp_next),E(tp_next_raw),E(tp_msgs),E(tp_peer_msg),E(tp_cheaters),
  E(cheater_msg),E(tp_free),E(peer_new),E(peer_sizes),E(peer_next),E(peer_next_raw),E(peer_share),E(peer_set_share),E(peer_secrets),E(peer_free),E(peer_drop),
  E(nx_dev),E(nx_dev_secret),E(nx_ser_dev),E(nx_add_peer),E(nx_rm_peer),E(nx_ser_peer),E(nx_deser_peer),E(nx_lookup),E(nx_init),E(nx_resp),E(nx_write),
  E(nx_read),E(nx_status),E(nx_nextlen),E(nx_sfree),E(nx_dfree),E(nx_xwrite),E(nx_xread),E(nx_sinfo),E(nx_dinfo),E(nx_pinfo),E(par),E(ct) };

static void __attribute__((noinline)) fill_stack(void) {
  uint8_t b[1<<18]; memset(b,fill,sizeof b);
  __asm__ volatile("" : : "r"(b) : "memory");
}

#ifdef CT
static size_t ct_n; static uint32_t ct_spec[3*4096]; /* argument, offset and length of secrets */
#endif
/* carries out a request and returns the response */
static uint8_t *serve(const uint8_t *req, size_t *len) {
  size_t o=0; uint16_t nl,na;
  memcpy(&nl,req,2); o=2; char name[64]; if(nl>=sizeof name) die("name"); memcpy(name,req+o,nl); name[nl]=0; o+=nl;
  memcpy(&na,req+o,2); o+=2; if(na>MAXARGS) die("nargs"); nargs=na;
  for(int i=0;i<nargs;i++) { uint32_t l; memcpy(&l,req+o,4); o+=4; arg[i]=malloc(l); argcopy[i]=malloc(l); if(l) { memcpy(arg[i],req+o,l); memcpy(argcopy[i],req+o,l);} alen[i]=l; o+=l; }
  nouts=0; ret=0;
  OP *op=NULL;
  for(size_t i=0;i<sizeof ops/sizeof ops[0];i++) if(!strcmp(ops[i].name,name)) { op=&ops[i]; break; }
  if(!op) die(name);
  if(scrub) fill_stack();
#ifdef CT
  if(ct_on) for(size_t i=0;i<ct_n;i++) {
    uint32_t a=ct_spec[3*i], from=ct_spec[3*i+1], n=ct_spec[3*i+2];
    if(a<(uint32_t)nargs && from<=alen[a]) VALGRIND_MAKE_MEM_UNDEFINED(arg[a]+from,n<alen[a]-from?n:alen[a]-from);
  }
#endif
  op->fn();
#ifdef CT
  if(ct_on) {
    if(ct_raw && ret==0) for(int i=0;i<nouts;i++) (void)VALGRIND_CHECK_MEM_IS_DEFINED(out[i],olen[i]);
    for(int i=0;i<nargs;i++) VALGRIND_MAKE_MEM_DEFINED(arg[i],alen[i]);
    for(int i=0;i<nouts;i++) VALGRIND_MAKE_MEM_DEFINED(out[i],olen[i]);
    VALGRIND_MAKE_MEM_DEFINED(&ret,sizeof ret);
  }
#endif
  uint8_t flags=0;
  for(int i=0;i<nargs;i++) { if(memcmp(arg[i],argcopy[i],alen[i])) flags|=1; free(arg[i]); free(argcopy[i]); }
  uint32_t rl=4+1+2; for(int i=0;i<nouts;i++) rl+=4+(uint32_t)olen[i];
  uint8_t *res=malloc(rl); size_t w=0;
  memcpy(res+w,&ret,4); w+=4; res[w++]=flags; uint16_t no=(uint16_t)nouts; memcpy(res+w,&no,2); w+=2;
  for(int i=0;i<nouts;i++) { uint32_t l=(uint32_t)olen[i]; memcpy(res+w,&l,4); w+=4; if(l) memcpy(res+w,out[i],l); w+=l; free(out[i]); }
  *len=rl;
  return res;
}

#ifdef CT
static void op_ct(void) { /* secrets, request, 1: random values are secret, 2: memory counts as never written -> reports, valgrind, response */
  size_t l; ct_random=I(2)==1; ct_raw=I(2)==2; ct_n=alen[0]/12; if(ct_n>4096) die("ct");
  memcpy(ct_spec,arg[0],ct_n*12);
  uint8_t *a[3],*c[3]; size_t al[3];
  for(int i=0;i<3;i++) { a[i]=arg[i]; c[i]=argcopy[i]; al[i]=alen[i]; }
  unsigned before=VALGRIND_COUNT_ERRORS;
  ct_on=1;
  uint8_t *res=serve(a[1],&l);
  ct_on=0;
  unsigned after=VALGRIND_COUNT_ERRORS;
  for(int i=0;i<3;i++) { arg[i]=a[i]; argcopy[i]=c[i]; alen[i]=al[i]; }
  nargs=3;
  nouts=0; ret=0;
  OI(after-before); OI(RUNNING_ON_VALGRIND); memcpy(O(l),res,l); free(res);
}
#endif

#ifdef PAR
#define MAXPAR 8
static struct { pthread_t th; sem_t go; const uint8_t *req; uint8_t *res; size_t len; int live; } par[MAXPAR];
static int par_n, par_live;
static uint64_t par_seed, par_gap, par_step, par_switches;
static sem_t par_end;
static TL int par_me=-1;
void par_yield(void);
void __sanitizer_cov_trace_pc(void);
void __sanitizer_cov_trace_pc(void) { par_yield(); }
static uint64_t par_mix(uint64_t x) {
  x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31);
}
/* the k-th of the others that still run */
static int par_pick(uint64_t k, int but) {
  int c=par_live-(but>=0);
  k%=(uint64_t)c;
  for(int i=0;i<par_n;i++) if(par[i].live && i!=but && k--==0) return i;
  die("pick"); return 0;
}
void par_yield(void) {
  if(par_me<0 || par_live<2) return;
  uint64_t v=par_mix(par_seed^par_mix(++par_step));
  if(v%par_gap) return;
  int me=par_me, next=par_pick(v>>32,me);
  par_switches++;
  sem_post(&par[next].go);
  while(sem_wait(&par[me].go)) ;
}
static void *par_thread(void *p) {
  int me=(int)(intptr_t)p;
  while(sem_wait(&par[me].go)) ;
  memcpy(&fake_now,par[me].req+8,8);
  uint64_t s; memcpy(&s,par[me].req,8);
  crypto_generichash(rng_key,32,(uint8_t*)&s,8,NULL,0);
  par_me=me;
  par[me].res=serve(par[me].req+16,&par[me].len);
  par_me=-1;
  lock_clear();
  par[me].live=0;
  if(--par_live) sem_post(&par[par_pick(par_mix(++par_step),-1)].go); else sem_post(&par_end);
  return NULL;
}
static void op_par(void) { /* seed, mean gap between switches, { random seed | time | request }* -> switches, responses */
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,64<<20);
  par_seed=I(0); par_gap=I(1); par_step=par_switches=0;
  par_n=par_live=nargs-2;
  if(par_n<1 || par_n>MAXPAR || par_gap<1) die("par");
  sem_init(&par_end,0,0);
  for(int i=0;i<par_n;i++) { par[i].live=1; par[i].req=arg[i+2]; sem_init(&par[i].go,0,0); }
  for(int i=0;i<par_n;i++) if(pthread_create(&par[i].th,&at,par_thread,(void*)(intptr_t)i)) die("thread");
  sem_post(&par[par_pick(par_mix(par_seed),-1)].go);
  while(sem_wait(&par_end)) ;
  for(int i=0;i<par_n;i++) pthread_join(par[i].th,NULL);
  OI(par_switches);
  for(int i=0;i<par_n;i++) { memcpy(O(par[i].len),par[i].res,par[i].len); free(par[i].res); sem_destroy(&par[i].go); }
  sem_destroy(&par_end); pthread_attr_destroy(&at);
}
#endif

int main(void) {
  randombytes_set_implementation(&rng_impl);
  if(sodium_init()<0) die("sodium");
  memset(rng_key,7,32);
  for(;;) {
    uint32_t total; readn(&total,4);
    uint8_t *req=malloc(total); readn(req,total);
    size_t l; uint8_t *res=serve(req,&l);
    uint32_t rl=(uint32_t)l; uint8_t *all=malloc(l+4); memcpy(all,&rl,4); memcpy(all+4,res,l);
    free(req); free(res);
    writen(all,l+4); free(all);
  }
}
