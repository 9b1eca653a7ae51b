// Memory environment of the encodings: replaces Kani's allocator model.
// Every allocation is a fixed-size object ("bank") whose contents are unconstrained; the pointer
// handed to the program is aligned to exactly the requested alignment and no more.  One guard byte
// position per allocation, outside the requested range, is chosen by the solver when the memory is
// handed out and must still hold its (arbitrary) value when the memory is resized or freed.
#include <stddef.h>
#include <stdint.h>
void free(void *ptr);
void *malloc(size_t size);
struct Unit; extern struct Unit VoidUnit;
#ifndef BANK
#define BANK 64
#endif
#ifndef MAXCPY
#define MAXCPY 32
#endif
#ifndef PAD
#define PAD 16
#endif
#define A(c,m) {__CPROVER_bool t=(c);__CPROVER_assert(t,m);__CPROVER_assume(t);}
#ifdef SYMSIZE
#define TOTAL(n) (PAD+(n)+1)
#else
#define TOTAL(n) (PAD+BANK)
#endif
struct meta { size_t size; size_t align; size_t gpos; uint8_t gval; };
struct meta vp_meta[__CPROVER_constant_infinity_uint];
#define META(p) (vp_meta[__CPROVER_POINTER_OBJECT(p)])
size_t nondet_size(void);
static uint8_t *vp_l_ptr;
uint8_t *vp_last_block(void){return vp_l_ptr;}
static size_t vp_n_live, vp_n_allocs, vp_n_reqs, vp_l_size, vp_l_align, vp_l_addr, vp_fail_at_, vp_n_copied;
static __CPROVER_bool pow2(size_t i){return i!=0&&(i&(i-1))==0;}
uint64_t vp_live(void){return vp_n_live;}
uint64_t vp_allocs(void){return vp_n_allocs;}
uint64_t vp_last_size(void){return vp_l_size;}
uint64_t vp_last_align(void){return vp_l_align;}
uint64_t vp_last_addr(void){return vp_l_addr;}
struct Unit vp_fail_at(uint64_t n){vp_n_reqs=0;vp_fail_at_=n;return VoidUnit;}
uint64_t vp_failed(void){return vp_fail_at_!=0&&vp_n_reqs>=vp_fail_at_;}
struct Unit vp_log(uint64_t v){ __CPROVER_input("nd", v); return VoidUnit; }

static uint8_t *hand_out(uint8_t *b,size_t size,size_t align){
  struct meta m; m.size=size; m.align=align; m.gpos=0; m.gval=0;
#ifndef NOGUARD
  size_t g=nondet_size();
  __CPROVER_assume(g<TOTAL(size) && (g<align || g-align>=size));
  m.gpos=g; m.gval=b[g];
#endif
  META(b)=m;
  vp_n_allocs++; vp_l_size=size; vp_l_align=align; 
  uint8_t *r=b+align;
  vp_l_addr=(size_t)r; vp_l_ptr=r;
  return r;
}
static void request(size_t size,size_t align){
  A(size>0,"VPMEM zero-size request to the allocator");
  A(align<=PAD,"VPBOUND alignment exceeds the modelled maximum");
#if !defined(NULLBIG) && !defined(BIGOK) && !defined(SYMSIZE)
  A(size<=BANK,"VPBOUND allocation exceeds the modelled block size");
#endif
// SYMSIZE: blocks have exactly the requested size, whatever it is (below 2^46)
#ifdef SYMSIZE
  A(size<((size_t)1<<46),"VPBOUND allocation exceeds the modelled block size");
#endif
// BIGOK: storage of any claimed size is handed out; only its first BANK bytes exist
}
static void valid(size_t size,size_t align){
  A(pow2(align),"VPMEM alignment is not a power of two");
  A(size<=(size_t)-1/2-(align-1),"VPMEM request larger than the address space allows");
}
// NULLBIG: requests that exceed the modelled block size fail, as they would for lack of memory.
#ifdef NULLBIG
#define TOOBIG(n) if((n)>BANK) return 0;
#else
#define TOOBIG(n)
#endif
uint8_t *__rust_alloc(size_t size,size_t align){
  valid(size,align);
  TOOBIG(size)
#ifdef ALLOCFAIL
  vp_n_reqs++;
  A(size>0,"VPMEM zero-size request to the allocator");
  if(vp_n_reqs==vp_fail_at_) return 0;
#endif
  request(size,align);
  uint8_t *b=malloc(TOTAL(size));
  vp_n_live++;
  return hand_out(b,size,align);
}
uint8_t *__rust_alloc_zeroed(size_t size,size_t align){
  uint8_t *p=__rust_alloc(size,align);
  if(p) for(size_t i=0;i<BANK;i++) if(i<size) p[i]=0;
  return p;
}
static uint8_t* chk(uint8_t*ptr,size_t size,size_t align){
  A(ptr!=0 && __CPROVER_DYNAMIC_OBJECT(ptr),"VPMEM free or resize of memory that was not allocated");
  A(__CPROVER_POINTER_OFFSET(ptr)==align,"VPMEM free or resize of an address or alignment the allocator did not hand out");
  uint8_t *b=ptr-align;
  struct meta m=META(b);
  A(m.align==align,"VPMEM free or resize with a different alignment");
  A(m.size==size,"VPMEM free or resize with a different size");
#ifndef NOGUARD
  A(b[m.gpos]==m.gval,"VPMEM write outside the allocated range");
#endif
  return b;
}
struct Unit __rust_dealloc(uint8_t*ptr,size_t size,size_t align){
  uint8_t *b=chk(ptr,size,align);
  vp_n_live--;
  free(b); return VoidUnit;
}
uint8_t *__rust_realloc(uint8_t *ptr,size_t old,size_t align,size_t neu){
  uint8_t *b=chk(ptr,old,align);
#ifdef ALLOCFAIL
  vp_n_reqs++;
  if(vp_n_reqs==vp_fail_at_) return 0;
#endif
  valid(neu,align);
  TOOBIG(neu)
  request(neu,align);
  uint8_t *n=malloc(TOTAL(neu));
  __CPROVER_array_copy(n,b); // bytes beyond the old size carry the old block's unconstrained (guarded) contents
  free(b);
  return hand_out(n,neu,align);
}
struct Unit __rust_no_alloc_shim_is_unstable_v2(void){return VoidUnit;}
void *memcpy(void *d,const void*s,size_t n){
  A(n<=MAXCPY,"VPBOUND copy exceeds the modelled length");
  uint8_t*dd=d;const uint8_t*ss=s;
  for(size_t i=0;i<MAXCPY;i++) if(i<n) dd[i]=ss[i];
  return d;}
void *memmove(void *d,const void*s,size_t n){
  A(n<=MAXCPY,"VPBOUND copy exceeds the modelled length");
  uint8_t tmp[MAXCPY];
  uint8_t*dd=d;const uint8_t*ss=s;
  for(size_t i=0;i<MAXCPY;i++) if(i<n) tmp[i]=ss[i];
  for(size_t i=0;i<MAXCPY;i++) if(i<n) dd[i]=tmp[i];
  return d;}
void *memset(void *d,int c,size_t n){
  A(n<=MAXCPY,"VPBOUND fill exceeds the modelled length");
  uint8_t*dd=d;
  for(size_t i=0;i<MAXCPY;i++) if(i<n) dd[i]=c;
  return d;}
