/* Storage knobs: libnetcdf calls libhdf5 through these wrappers (symbols of the executable come
 * first), so that the files it creates also use the storage forms that other versions of the
 * libraries and other tools choose. What the files contain does not change. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>

typedef int64_t hid_t;
typedef int herr_t;
static struct { const char *name; long v[2]; int set; } K[] = {
  {"libver"}, {"linkorder"}, {"attrorder"}, {"linkphase"}, {"attrphase"}, {"symk"}, {"istorek"},
  {"sizes"}, {"compact"}, {"alloc"}, {"times"}, {"paged"}, {"align"}, {"metablock"}, {"shared"},
  {"estlink"}, {"heaphint"}, {"datk"}, {"dsattrphase"}, {"skipfilter"}, {NULL}};
void knob_reset(void){ for(int i=0;K[i].name;i++) K[i].set=0; }
int knob_set(const char*n,long a,long b){ for(int i=0;K[i].name;i++) if(!strcmp(K[i].name,n)){ K[i].set=1; K[i].v[0]=a; K[i].v[1]=b; return 0; } return -1; }
static int get(const char*n,long*a,long*b){ for(int i=0;K[i].name;i++) if(!strcmp(K[i].name,n)){ if(!K[i].set) return 0; *a=K[i].v[0]; *b=K[i].v[1]; return 1; } return 0; }
#define REAL(name) static __typeof__(&name) real; if(!real) real=(__typeof__(&name))dlsym(RTLD_NEXT,#name)

extern herr_t H5Pset_link_phase_change(hid_t,unsigned,unsigned);
extern herr_t H5Pset_attr_phase_change(hid_t,unsigned,unsigned);
extern herr_t H5Pset_est_link_info(hid_t,unsigned,unsigned);
extern herr_t H5Pset_local_heap_size_hint(hid_t,size_t);
extern herr_t H5Pset_sym_k(hid_t,unsigned,unsigned);
extern herr_t H5Pset_istore_k(hid_t,unsigned);
extern herr_t H5Pset_sizes(hid_t,size_t,size_t);
extern herr_t H5Pset_alloc_time(hid_t,int);
extern herr_t H5Pset_file_space_strategy(hid_t,int,int,uint64_t);
extern herr_t H5Pset_file_space_page_size(hid_t,uint64_t);
extern herr_t H5Pset_shared_mesg_nindexes(hid_t,unsigned);
extern herr_t H5Pset_shared_mesg_index(hid_t,unsigned,unsigned,unsigned);
extern herr_t H5Pset_meta_block_size(hid_t,uint64_t);
extern herr_t H5Pset_alignment(hid_t,uint64_t,uint64_t);
extern herr_t H5Pset_layout(hid_t,int);
extern int H5Pget_layout(hid_t);
extern int H5Pget_nfilters(hid_t);
extern size_t H5Tget_size(hid_t);
extern int64_t H5Sget_simple_extent_npoints(hid_t);
extern int H5Sget_simple_extent_dims(hid_t,uint64_t*,uint64_t*);
extern int H5Tdetect_class(hid_t,int);

herr_t H5Pset_libver_bounds(hid_t p,int lo,int hi){ REAL(H5Pset_libver_bounds); long a,b; if(get("libver",&a,&b)){ lo=a; hi=b; } return real(p,lo,hi); }
herr_t H5Pset_link_creation_order(hid_t p,unsigned f){
  REAL(H5Pset_link_creation_order); long a,b;
  if(get("linkphase",&a,&b)) H5Pset_link_phase_change(p,a,b);
  if(get("estlink",&a,&b)) H5Pset_est_link_info(p,a,b);
  if(get("heaphint",&a,&b)) H5Pset_local_heap_size_hint(p,a);
  if(get("linkorder",&a,&b)) f=a;
  return real(p,f); }
herr_t H5Pset_attr_creation_order(hid_t p,unsigned f){
  REAL(H5Pset_attr_creation_order); long a,b;
  if(get("attrphase",&a,&b)) H5Pset_attr_phase_change(p,a,b);
  if(get("attrorder",&a,&b)) f=a;
  return real(p,f); }
/* Filters that fail when writing a chunk are left out of it, if they are optional, as shuffle and
   deflate are. Here they "fail" now and then. */
struct zclass { int version, id; unsigned enc, dec; const char*name; void*can_apply, *set_local; size_t (*filter)(unsigned,size_t,const unsigned*,size_t,size_t*,void**); };
extern struct zclass*H5Z_find(int);
static size_t (*zreal[4])(unsigned,size_t,const unsigned*,size_t,size_t*,void**);
static unsigned zcount;
static size_t zskip(int id,unsigned fl,size_t n,const unsigned*cd,size_t nb,size_t*bs,void**buf){
  long a,b;
  if(!(fl&0x100) && get("skipfilter",&a,&b) && (b&id)){ zcount=zcount*1103515245u+12345u; if((zcount>>16)%a==0) return 0; }
  return zreal[id](fl,n,cd,nb,bs,buf); }
static size_t zdeflate(unsigned fl,size_t n,const unsigned*cd,size_t nb,size_t*bs,void**buf){ return zskip(1,fl,n,cd,nb,bs,buf); }
static size_t zshuffle(unsigned fl,size_t n,const unsigned*cd,size_t nb,size_t*bs,void**buf){ return zskip(2,fl,n,cd,nb,bs,buf); }
extern herr_t H5open(void);
static void zhook(void){
  H5open();
  for(int id=1;id<=2;id++){ struct zclass*z=H5Z_find(id); if(!z||zreal[id]) continue; zreal[id]=z->filter; z->filter=id==1?zdeflate:zshuffle; } }
herr_t H5Pset_obj_track_times(hid_t p,unsigned t){ REAL(H5Pset_obj_track_times); long a,b; if(get("times",&a,&b)) t=a; return real(p,t); }
hid_t H5Fcreate(const char*n,unsigned fl,hid_t fcpl,hid_t fapl){
  REAL(H5Fcreate); long a,b;
  if(get("skipfilter",&a,&b)){ zhook(); zcount=a*7+b; }
  if(get("symk",&a,&b)) H5Pset_sym_k(fcpl,a,b);
  if(get("istorek",&a,&b)) H5Pset_istore_k(fcpl,a);
  if(get("sizes",&a,&b)) H5Pset_sizes(fcpl,a,b);
  if(get("paged",&a,&b)){ H5Pset_file_space_strategy(fcpl,a,b&1,1); if(b>>1) H5Pset_file_space_page_size(fcpl,b>>1<<9); }
  if(get("shared",&a,&b)){ H5Pset_shared_mesg_nindexes(fcpl,1); H5Pset_shared_mesg_index(fcpl,0,a,b); }
  if(get("align",&a,&b)) H5Pset_alignment(fapl,a,b);
  if(get("metablock",&a,&b)) H5Pset_meta_block_size(fapl,a);
  return real(n,fl,fcpl,fapl); }
hid_t H5Dcreate2(hid_t g,const char*n,hid_t t,hid_t s,hid_t lcpl,hid_t dcpl,hid_t dapl){
  REAL(H5Dcreate2); long a,b; uint64_t d[64],m[64];
  int lay=H5Pget_layout(dcpl);
  int r=H5Sget_simple_extent_dims(s,d,m), fixed=1;
  for(int i=0;i<r;i++) if(m[i]!=d[i]) fixed=0;
  if(get("alloc",&a,&b)) H5Pset_alloc_time(dcpl,a);
  if(get("compact",&a,&b) && fixed && lay!=2 && H5Pget_nfilters(dcpl)==0){
    int64_t k=H5Sget_simple_extent_npoints(s);
    if(k>=0 && (uint64_t)k*H5Tget_size(t)<(uint64_t)a){ H5Pset_alloc_time(dcpl,1); H5Pset_layout(dcpl,0); }
  }
  if(get("dsattrphase",&a,&b)) H5Pset_attr_phase_change(dcpl,a,b);
  return real(g,n,t,s,lcpl,dcpl,dapl); }

/* Objects that libnetcdf does not create, but reads. */
extern hid_t H5Fopen(const char*,unsigned,hid_t); extern herr_t H5Fclose(hid_t);
extern hid_t H5T_C_S1_g, H5P_CLS_DATASET_CREATE_ID_g, H5P_CLS_FILE_ACCESS_ID_g;
extern hid_t H5Tcopy(hid_t); extern herr_t H5Tset_size(hid_t,size_t); extern herr_t H5Tset_strpad(hid_t,int); extern herr_t H5Tset_cset(hid_t,int); extern herr_t H5Tclose(hid_t);
extern hid_t H5Screate_simple(int,const uint64_t*,const uint64_t*); extern hid_t H5Screate(int); extern herr_t H5Sclose(hid_t);
extern herr_t H5Dwrite(hid_t,hid_t,hid_t,hid_t,hid_t,const void*); extern herr_t H5Dclose(hid_t);
extern hid_t H5Oopen(hid_t,const char*,hid_t); extern herr_t H5Oclose(hid_t);
extern hid_t H5Acreate2(hid_t,const char*,hid_t,hid_t,hid_t,hid_t); extern herr_t H5Awrite(hid_t,hid_t,const void*); extern herr_t H5Aclose(hid_t);
extern hid_t H5Pcreate(hid_t); extern herr_t H5Pclose(hid_t); extern herr_t H5Pset_chunk(hid_t,int,const uint64_t*);
extern herr_t H5Pset_deflate(hid_t,unsigned); extern herr_t H5Pset_shuffle(hid_t); extern herr_t H5Pset_fletcher32(hid_t);
static hid_t hf=-1;
int h5_open(const char*p){ H5open(); hid_t fapl=H5Pcreate(H5P_CLS_FILE_ACCESS_ID_g); long a,b; if(get("libver",&a,&b)) H5Pset_libver_bounds(fapl,a,b); hf=H5Fopen(p,1,fapl); H5Pclose(fapl); return hf<0; }
extern int H5Ldelete(hid_t,const char*,hid_t);
int h5_close(void);
int h5_unlink(const char*p,const char*n){ if(h5_open(p)) return -1; int e=H5Ldelete(hf,n,0)<0; return h5_close()||e?-1:0; }
int h5_close(void){ herr_t e=H5Fclose(hf); hf=-1; return e<0; }
static hid_t strtype(long size,long pad,long cset){ hid_t t=H5Tcopy(H5T_C_S1_g); H5Tset_size(t,size); H5Tset_strpad(t,pad); H5Tset_cset(t,cset); return t; }
static hid_t space(int nd,const uint64_t*d,const uint64_t*m){ return nd==0?H5Screate(0):H5Screate_simple(nd,d,m); }
/* fixed-length strings: filters is 1 shuffle, 2 deflate, 4 fletcher32; chunked when chunk[0]>0 */
int h5_strvar(const char*path,long size,long pad,long cset,int nd,const uint64_t*d,const uint64_t*m,const uint64_t*chunk,int filters,const void*data){
  hid_t t=strtype(size,pad,cset), s=space(nd,d,m), p=H5Pcreate(H5P_CLS_DATASET_CREATE_ID_g); int bad=0;
  if(nd&&chunk[0]){ H5Pset_chunk(p,nd,chunk); if(filters&1) H5Pset_shuffle(p); if(filters&2) H5Pset_deflate(p,4); if(filters&4) H5Pset_fletcher32(p); }
  hid_t v=H5Dcreate2(hf,path,t,s,0,p,0);
  if(v<0) bad=1; else { if(H5Dwrite(v,t,0,0,0,data)<0) bad=1; H5Dclose(v); }
  H5Tclose(t); H5Sclose(s); H5Pclose(p); return bad; }
int h5_stratt(const char*path,const char*name,long size,long pad,long cset,int nd,const uint64_t*d,const void*data){
  hid_t o=H5Oopen(hf,path,0); if(o<0) return 1;
  hid_t t=strtype(size,pad,cset), s=space(nd,d,NULL); int bad=0;
  hid_t a=H5Acreate2(o,name,t,s,0,0); if(a<0) bad=1; else { if(H5Awrite(a,t,data)<0) bad=1; H5Aclose(a); }
  H5Tclose(t); H5Sclose(s); H5Oclose(o); return bad; }

/* where the chunks of a dataset with checksums are: n lines of mask, address, size; order is the
   position of the checksum filter among the filters */
extern hid_t H5Dopen2(hid_t,const char*,hid_t); extern hid_t H5Dget_create_plist(hid_t); extern int H5Pget_nfilters(hid_t);
extern int H5Pget_filter2(hid_t,unsigned,unsigned*,size_t*,unsigned*,size_t,char*,unsigned*);
extern hid_t H5Dget_space(hid_t); extern herr_t H5Dget_num_chunks(hid_t,hid_t,uint64_t*); extern herr_t H5Dget_chunk_info(hid_t,hid_t,uint64_t,uint64_t*,unsigned*,uint64_t*,uint64_t*);
int h5_chunks(const char*file,const char*path,FILE*out){
  H5open(); hf=H5Fopen(file,0,0); if(hf<0){ fprintf(out,"{\"error\":\"no file\"}\n"); return 1; }
  int bad=1; hid_t d=H5Dopen2(hf,path,0);
  if(d>=0){
    hid_t p=H5Dget_create_plist(d); int n=H5Pget_nfilters(p), at=-1;
    for(int i=0;i<n;i++){ unsigned fl,cf; size_t k=0; int id=H5Pget_filter2(p,i,&fl,&k,NULL,0,NULL,&cf); if(id==3) at=i; }
    bad=0;
    fprintf(out,"{\"filters\":%d,\"at\":%d,\"chunks\":[",n<0?0:n,at);
    hid_t sp=H5Dget_space(d);
    uint64_t nc=0; if(at>=0&&H5Dget_num_chunks(d,sp,&nc)>=0) for(uint64_t i=0;i<nc;i++){ uint64_t off[33],addr,size; unsigned m; if(H5Dget_chunk_info(d,sp,i,off,&m,&addr,&size)<0){ bad=2; break; } fprintf(out,"%s[%u,%llu,%llu]",i?",":"",m,(unsigned long long)addr,(unsigned long long)size); }
    fprintf(out,"]}\n");
    H5Sclose(sp); H5Pclose(p); H5Dclose(d); }
  h5_close(); if(bad==1) fprintf(out,"{\"error\":\"no dataset\"}\n"); return bad; }

/* h5val: a type and a value as libhdf5 reports them. Arrays and variable-length sequences look the
   same, as does every kind of string; an array of characters is a string. */
extern hid_t H5Dget_type(hid_t); extern hid_t H5Aopen(hid_t,const char*,hid_t); extern hid_t H5Aget_type(hid_t); extern hid_t H5Aget_space(hid_t);
extern herr_t H5Aread(hid_t,hid_t,void*); extern herr_t H5Dread(hid_t,hid_t,hid_t,hid_t,hid_t,void*);
extern int H5Sget_simple_extent_ndims(hid_t); extern int H5Sget_simple_extent_dims(hid_t,uint64_t*,uint64_t*); extern int H5Sget_simple_extent_type(hid_t);
extern hid_t H5Tget_native_type(hid_t,int); extern int H5Tget_class(hid_t); extern size_t H5Tget_size(hid_t); extern int H5Tget_sign(hid_t);
extern int H5Tis_variable_str(hid_t); extern int H5Tget_nmembers(hid_t); extern char*H5Tget_member_name(hid_t,unsigned); extern size_t H5Tget_member_offset(hid_t,unsigned);
extern hid_t H5Tget_member_type(hid_t,unsigned); extern herr_t H5Tget_member_value(hid_t,unsigned,void*); extern hid_t H5Tget_super(hid_t);
extern int H5Tget_array_ndims(hid_t); extern int H5Tget_array_dims2(hid_t,uint64_t*); extern herr_t H5free_memory(void*);
enum { cINT=0,cFLOAT=1,cSTRING=3,cOPAQUE=5,cCOMPOUND=6,cREF=7,cENUM=8,cVLEN=9,cARRAY=10 };
static int ischar(hid_t t){ return H5Tget_class(t)==cSTRING&&!H5Tis_variable_str(t)&&H5Tget_size(t)==1; }
static void vhex(FILE*o,const unsigned char*p,size_t n){ for(size_t i=0;i<n;i++) fprintf(o,"%02x",p[i]); }
static void vdesc(FILE*o,hid_t t){
  switch(H5Tget_class(t)){
  case cINT: fprintf(o,"%c%zu",H5Tget_sign(t)?'i':'u',H5Tget_size(t)); break;
  case cFLOAT: fprintf(o,"f%zu",H5Tget_size(t)); break;
  case cSTRING: fprintf(o,"str"); break;
  case cOPAQUE: fprintf(o,"opaque%zu",H5Tget_size(t)); break;
  case cENUM: { hid_t b=H5Tget_super(t); fprintf(o,"enum "); vdesc(o,b); fprintf(o," "); size_t n=H5Tget_size(b); H5Tclose(b); for(int i=0;i<H5Tget_nmembers(t);i++){ unsigned char v[16]; char*m=H5Tget_member_name(t,i); H5Tget_member_value(t,i,v); vhex(o,(unsigned char*)m,strlen(m)); fprintf(o,"="); vhex(o,v,n); fprintf(o,","); H5free_memory(m); } break; }
  case cCOMPOUND: fprintf(o,"{"); for(int i=0;i<H5Tget_nmembers(t);i++){ char*m=H5Tget_member_name(t,i); hid_t f=H5Tget_member_type(t,i); vhex(o,(unsigned char*)m,strlen(m)); fprintf(o,":"); vdesc(o,f); fprintf(o,";"); H5Tclose(f); H5free_memory(m); } fprintf(o,"}"); break;
  case cVLEN: { hid_t b=H5Tget_super(t); fprintf(o,"["); vdesc(o,b); fprintf(o,"]"); H5Tclose(b); break; }
  case cARRAY: { hid_t b=H5Tget_super(t); int n=H5Tget_array_ndims(t)-ischar(b); for(int i=0;i<n;i++) fprintf(o,"["); vdesc(o,b); for(int i=0;i<n;i++) fprintf(o,"]"); H5Tclose(b); break; }
  default: fprintf(o,"class%d",H5Tget_class(t)); } }
static void vstr(FILE*o,const char*p,size_t n){ fprintf(o,"\""); vhex(o,(const unsigned char*)p,p?strnlen(p,n):0); fprintf(o,"\""); }
static void vval(FILE*o,hid_t t,const unsigned char*p);
static const unsigned char*vdims(FILE*o,hid_t t,int nd,const uint64_t*d,const unsigned char*p){
  size_t sz=H5Tget_size(t);
  if(nd==0){ vval(o,t,p); return p+sz; }
  if(nd==1&&ischar(t)){ vstr(o,(const char*)p,d[0]); return p+d[0]; }
  fprintf(o,"["); for(uint64_t i=0;i<d[0];i++){ if(i) fprintf(o,","); p=vdims(o,t,nd-1,d+1,p); } fprintf(o,"]"); return p; }
static void vval(FILE*o,hid_t t,const unsigned char*p){
  size_t sz=H5Tget_size(t);
  switch(H5Tget_class(t)){
  case cSTRING: if(H5Tis_variable_str(t)){ char*s; memcpy(&s,p,sizeof s); vstr(o,s,s?strlen(s):0); } else vstr(o,(const char*)p,sz); break;
  case cCOMPOUND: fprintf(o,"{"); for(int i=0;i<H5Tget_nmembers(t);i++){ hid_t f=H5Tget_member_type(t,i); fprintf(o,"%s\"%d\":",i?",":"",i); vval(o,f,p+H5Tget_member_offset(t,i)); H5Tclose(f); } fprintf(o,"}"); break;
  case cVLEN: { struct { size_t len; void*p; } h; memcpy(&h,p,sizeof h); hid_t b=H5Tget_super(t); size_t n=H5Tget_size(b); fprintf(o,"["); for(size_t i=0;i<h.len;i++){ if(i) fprintf(o,","); vval(o,b,(unsigned char*)h.p+i*n); } fprintf(o,"]"); H5Tclose(b); break; }
  case cARRAY: { hid_t b=H5Tget_super(t); uint64_t d[33]; int n=H5Tget_array_ndims(t); H5Tget_array_dims2(t,d); vdims(o,b,n,d,p); H5Tclose(b); break; }
  default: fprintf(o,"\""); vhex(o,p,sz); fprintf(o,"\""); } }
static void vprint(FILE*out,hid_t ft,hid_t s,hid_t obj,int isatt){
  hid_t t=H5Tget_native_type(ft,1); uint64_t d[33]={0}; int kind=H5Sget_simple_extent_type(s), nd=kind==1?H5Sget_simple_extent_dims(s,d,NULL):0; size_t n=1; for(int i=0;i<nd;i++) n*=d[i];
  if(t<0||nd<0||kind<0){ fprintf(out,"{\"error\":\"type or space\"}\n"); if(t>=0) H5Tclose(t); return; }
  unsigned char*p=calloc(n+1,H5Tget_size(t));
  int bad=kind==2||n==0?0:isatt?H5Aread(obj,t,p)<0:H5Dread(obj,t,0,0,0,p)<0;
  if(bad) fprintf(out,"{\"error\":\"read\"}\n");
  else { fprintf(out,"{\"dims\":["); for(int i=0;i<nd;i++) fprintf(out,"%s%llu",i?",":"",(unsigned long long)d[i]); fprintf(out,"],\"type\":\""); vdesc(out,t); fprintf(out,"\",\"val\":"); if(kind==2||n==0) fprintf(out,"[]"); else vdims(out,t,nd,d,p); fprintf(out,"}\n"); }
  free(p); H5Tclose(t); }
int h5_val(const char*file,const char*path,const char*att,FILE*out){
  H5open(); hf=H5Fopen(file,0,0); if(hf<0){ fprintf(out,"{\"error\":\"no file\"}\n"); return 1; }
  if(att){ hid_t o=H5Oopen(hf,path,0), a=o<0?o:H5Aopen(o,att,0);
    if(a<0) fprintf(out,"{\"error\":\"no attribute\"}\n"); else { hid_t t=H5Aget_type(a), s=H5Aget_space(a); vprint(out,t,s,a,1); H5Tclose(t); H5Sclose(s); H5Aclose(a); }
    if(o>=0) H5Oclose(o); }
  else { hid_t d=H5Dopen2(hf,path,0);
    if(d<0) fprintf(out,"{\"error\":\"no dataset\"}\n"); else { hid_t t=H5Dget_type(d), s=H5Dget_space(d); vprint(out,t,s,d,0); H5Tclose(t); H5Sclose(s); H5Dclose(d); } }
  return h5_close(); }
