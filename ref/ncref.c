/* Reference oracle: creates and dumps NetCDF files through the installed libnetcdf (the C reference
 * implementation). Driven over stdin, one command per line; one reply line per top-level command.
 *
 * Values travel in a "wire" form that does not depend on memory layout: numbers are little-endian,
 * a string is u32 length + bytes, a vlen is u32 count + elements, a compound is its fields in
 * order (array fields element by element), opaque is its bytes, an enum is its base integer.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>

typedef int nc_type;
typedef struct { size_t len; void *p; } nc_vlen_t;
extern const char *nc_strerror(int);
extern int nc_create(const char*, int, int*);
extern int nc_open(const char*, int, int*);
extern int nc_close(int);
extern int nc_enddef(int);
extern int nc_redef(int);
extern int nc_sync(int);
extern int nc_set_fill(int,int,int*);
extern int nc_def_grp(int,const char*,int*);
extern int nc_def_dim(int,const char*,size_t,int*);
extern int nc_def_var(int,const char*,nc_type,int,const int*,int*);
extern int nc_def_var_chunking(int,int,int,const size_t*);
extern int nc_def_var_deflate(int,int,int,int,int);
extern int nc_def_var_fletcher32(int,int,int);
extern int nc_def_var_endian(int,int,int);
extern int nc_def_var_fill(int,int,int,const void*);
extern int nc_put_att(int,int,const char*,nc_type,size_t,const void*);
extern int nc_get_att(int,int,const char*,void*);
extern int nc_put_vara(int,int,const size_t*,const size_t*,const void*);
extern int nc_get_var(int,int,void*);
extern int nc_get_vara(int,int,const size_t*,const size_t*,void*);
extern int nc_inq_grp_parent(int,int*);
extern int nc_inq_format(int,int*);
extern int nc_inq_grps(int,int*,int*);
extern int nc_inq_grpname(int,char*);
extern int nc_inq_dimids(int,int*,int*,int);
extern int nc_inq_dim(int,int,char*,size_t*);
extern int nc_inq_unlimdims(int,int*,int*);
extern int nc_inq_unlimdim(int,int*);
extern int nc_inq_varids(int,int*,int*);
extern int nc_inq_var(int,int,char*,nc_type*,int*,int*,int*);
extern int nc_inq_natts(int,int*);
extern int nc_inq_attname(int,int,int,char*);
extern int nc_inq_att(int,int,const char*,nc_type*,size_t*);
extern int nc_inq_typeids(int,int*,int*);
extern int nc_inq_type(int,nc_type,char*,size_t*);
extern int nc_inq_user_type(int,nc_type,char*,size_t*,nc_type*,size_t*,int*);
extern int nc_inq_compound_field(int,nc_type,int,char*,size_t*,nc_type*,int*,int*);
extern int nc_inq_enum_member(int,nc_type,int,char*,void*);
extern int nc_def_compound(int,size_t,const char*,nc_type*);
extern int nc_insert_compound(int,nc_type,const char*,size_t,nc_type);
extern int nc_insert_array_compound(int,nc_type,const char*,size_t,nc_type,int,const int*);
extern int nc_def_vlen(int,const char*,nc_type,nc_type*);
extern int nc_def_opaque(int,size_t,const char*,nc_type*);
extern int nc_def_enum(int,nc_type,const char*,nc_type*);
extern int nc_insert_enum(int,nc_type,const char*,const void*);

static char errbuf[1024];
#define CK(e) do{int _s=(e); if(_s){snprintf(errbuf,sizeof errbuf,"%s: %s (line %d)",#e,nc_strerror(_s),__LINE__);return -1;}}while(0)

/* ---------- growable buffer ---------- */
typedef struct { unsigned char*b; size_t n,cap; } buf;
static void bput(buf*b,const void*p,size_t n){ if(b->n+n>b->cap){b->cap=(b->n+n)*2+64;b->b=realloc(b->b,b->cap);} memcpy(b->b+b->n,p,n); b->n+=n; }
static void bs(buf*b,const char*s){ bput(b,s,strlen(s)); }
static void bi(buf*b,long long v){ char t[32]; snprintf(t,sizeof t,"%lld",v); bs(b,t); }
static void bhex(buf*b,const unsigned char*p,size_t n){ static const char*h="0123456789abcdef"; for(size_t i=0;i<n;i++){char c[2]={h[p[i]>>4],h[p[i]&15]};bput(b,c,2);} }
static void bq(buf*b,const char*s){ bs(b,"\""); bhex(b,(const unsigned char*)s,strlen(s)); bs(b,"\""); } /* names travel in hex */

static size_t primsize(nc_type t){ switch(t){case 1:case 2:case 7:return 1;case 3:case 8:return 2;case 4:case 5:case 9:return 4;case 6:case 10:case 11:return 8;case 12:return sizeof(char*);} return 0; }
static size_t primalign(nc_type t){ return primsize(t); }

/* ---------- encode memory -> wire ---------- */
static int enc(int nc,nc_type t,const unsigned char*m,buf*w){
  if(t<=11){ bput(w,m,primsize(t)); return 0; }
  if(t==12){ const char*s=*(char*const*)m; uint32_t n=s?strlen(s):0; bput(w,&n,4); if(n) bput(w,s,n); return 0; }
  char nm[300]; size_t sz,nf; nc_type base; int cl;
  CK(nc_inq_user_type(nc,t,nm,&sz,&base,&nf,&cl));
  switch(cl){
  case 13: { nc_vlen_t v; memcpy(&v,m,sizeof v); uint32_t n=v.len; bput(w,&n,4); size_t es; CK(nc_inq_type(nc,base,nm,&es)); for(size_t i=0;i<v.len;i++) if(enc(nc,base,(unsigned char*)v.p+i*es,w)) return -1; return 0; }
  case 14: bput(w,m,sz); return 0;
  case 15: bput(w,m,primsize(base)); return 0;
  case 16: for(size_t i=0;i<nf;i++){ size_t off; nc_type ft; int nd, ds[64]; CK(nc_inq_compound_field(nc,t,i,nm,&off,&ft,&nd,ds)); size_t k=1; for(int d=0;d<nd;d++) k*=ds[d]; size_t es; char n2[300]; CK(nc_inq_type(nc,ft,n2,&es)); for(size_t j=0;j<k;j++) if(enc(nc,ft,m+off+j*es,w)) return -1; } return 0;
  }
  snprintf(errbuf,sizeof errbuf,"class %d",cl); return -1;
}
/* ---------- decode wire -> memory ---------- */
static int dec(int nc,nc_type t,unsigned char*m,const unsigned char**p,const unsigned char*e){
  if(t<=11){ size_t n=primsize(t); if(*p+n>e){strcpy(errbuf,"wire short");return -1;} memcpy(m,*p,n); *p+=n; return 0; }
  if(t==12){ uint32_t n; memcpy(&n,*p,4); *p+=4; char*s=malloc(n+1); memcpy(s,*p,n); s[n]=0; *p+=n; memcpy(m,&s,sizeof s); return 0; }
  char nm[300]; size_t sz,nf; nc_type base; int cl;
  CK(nc_inq_user_type(nc,t,nm,&sz,&base,&nf,&cl));
  switch(cl){
  case 13: { nc_vlen_t v; uint32_t n; memcpy(&n,*p,4); *p+=4; size_t es; CK(nc_inq_type(nc,base,nm,&es)); v.len=n; v.p=calloc(n?n:1,es); for(size_t i=0;i<n;i++) if(dec(nc,base,(unsigned char*)v.p+i*es,p,e)) return -1; memcpy(m,&v,sizeof v); return 0; }
  case 14: memcpy(m,*p,sz); *p+=sz; return 0;
  case 15: memcpy(m,*p,primsize(base)); *p+=primsize(base); return 0;
  case 16: for(size_t i=0;i<nf;i++){ size_t off; nc_type ft; int nd, ds[64]; CK(nc_inq_compound_field(nc,t,i,nm,&off,&ft,&nd,ds)); size_t k=1; for(int d=0;d<nd;d++) k*=ds[d]; size_t es; char n2[300]; CK(nc_inq_type(nc,ft,n2,&es)); for(size_t j=0;j<k;j++) if(dec(nc,ft,m+off+j*es,p,e)) return -1; } return 0;
  }
  strcpy(errbuf,"class"); return -1;
}
/* ---------- type descriptor as JSON ---------- */
static const char*primname(nc_type t){ static const char*n[]={"","byte","char","short","int","float","double","ubyte","ushort","uint","int64","uint64","string"}; return n[t]; }
static int tdesc(int nc,nc_type t,buf*o){
  if(t<=12){ bs(o,"{\"k\":\""); bs(o,primname(t)); bs(o,"\"}"); return 0; }
  char nm[300]; size_t sz,nf; nc_type base; int cl;
  CK(nc_inq_user_type(nc,t,nm,&sz,&base,&nf,&cl));
  bs(o,"{\"k\":\""); bs(o,cl==13?"vlen":cl==14?"opaque":cl==15?"enum":"compound"); bs(o,"\",\"name\":"); bq(o,nm);
  switch(cl){
  case 13: bs(o,",\"base\":"); if(tdesc(nc,base,o)) return -1; break;
  case 14: bs(o,",\"size\":"); bi(o,sz); break;
  case 15: bs(o,",\"base\":"); if(tdesc(nc,base,o)) return -1; bs(o,",\"members\":["); for(size_t i=0;i<nf;i++){ unsigned char v[8]; char mn[300]; CK(nc_inq_enum_member(nc,t,i,mn,v)); if(i)bs(o,","); bs(o,"{\"name\":"); bq(o,mn); bs(o,",\"val\":\""); bhex(o,v,primsize(base)); bs(o,"\"}"); } bs(o,"]"); break;
  case 16: bs(o,",\"fields\":["); for(size_t i=0;i<nf;i++){ size_t off; nc_type ft; int nd, ds[64]; char fn[300]; CK(nc_inq_compound_field(nc,t,i,fn,&off,&ft,&nd,ds)); if(i)bs(o,","); bs(o,"{\"name\":"); bq(o,fn); bs(o,",\"dims\":["); for(int d=0;d<nd;d++){if(d)bs(o,",");bi(o,ds[d]);} bs(o,"],\"type\":"); if(tdesc(nc,ft,o)) return -1; bs(o,"}"); } bs(o,"]"); break;
  }
  bs(o,"}"); return 0;
}
static int datts(int nc,int var,int n,buf*o){
  bs(o,"\"atts\":[");
  for(int i=0;i<n;i++){ char nm[300]; nc_type t; size_t len; CK(nc_inq_attname(nc,var,i,nm)); CK(nc_inq_att(nc,var,nm,&t,&len));
    size_t es; char tn[300]; CK(nc_inq_type(nc,t,tn,&es)); unsigned char*m=calloc(len?len:1,es+1); CK(nc_get_att(nc,var,nm,m));
    buf w={0}; for(size_t k=0;k<len;k++) if(enc(nc,t,m+k*es,&w)) return -1;
    if(i)bs(o,","); bs(o,"{\"name\":"); bq(o,nm); bs(o,",\"type\":"); if(tdesc(nc,t,o)) return -1; bs(o,",\"n\":"); bi(o,len); bs(o,",\"data\":\""); bhex(o,w.b,w.n); bs(o,"\"}"); free(m); free(w.b); }
  bs(o,"]"); return 0;
}
static int is_unlim(int nc,int id){ int n=0,ids[1024]; if(nc_inq_unlimdims(nc,&n,ids)){ int u; if(nc_inq_unlimdim(nc,&u)) return 0; return u==id; } for(int i=0;i<n;i++) if(ids[i]==id) return 1; return 0; }
static int dgrp(int nc,buf*o,int fmt){
  char nm[300]="/"; nc_inq_grpname(nc,nm);
  bs(o,"{\"name\":"); bq(o,nm);
  int nd=0,dids[1024]; CK(nc_inq_dimids(nc,&nd,dids,0)); bs(o,",\"dims\":[");
  for(int i=0;i<nd;i++){ size_t len; CK(nc_inq_dim(nc,dids[i],nm,&len)); if(i)bs(o,","); bs(o,"{\"name\":"); bq(o,nm); bs(o,",\"len\":"); bi(o,len); bs(o,",\"unlim\":"); bs(o,is_unlim(nc,dids[i])?"true":"false"); bs(o,",\"id\":"); bi(o,dids[i]); bs(o,"}"); }
  bs(o,"],\"types\":[");
  int nt=0,tids[1024]; if(nc_inq_typeids(nc,&nt,tids)) nt=0;
  for(int i=0;i<nt;i++){ if(i)bs(o,","); if(tdesc(nc,tids[i],o)) return -1; }
  bs(o,"],"); int na; CK(nc_inq_natts(nc,&na)); if(datts(nc,-1,na,o)) return -1;
  bs(o,",\"vars\":["); int nv=0; CK(nc_inq_varids(nc,&nv,NULL)); int*vids=malloc(sizeof(int)*(nv+1)); CK(nc_inq_varids(nc,&nv,vids));
  for(int i=0;i<nv;i++){ nc_type t; int vnd,vd[1024],vna; CK(nc_inq_var(nc,vids[i],nm,&t,&vnd,vd,&vna));
    if(i)bs(o,","); bs(o,"{\"name\":"); bq(o,nm); bs(o,",\"type\":"); if(tdesc(nc,t,o)) return -1;
    size_t tot=1; bs(o,",\"dims\":["); buf shp={0}; for(int d=0;d<vnd;d++){ size_t len; CK(nc_inq_dim(nc,vd[d],nm,&len)); tot*=len; if(d){bs(o,",");bs(&shp,",");} bq(o,nm); bi(&shp,len);} bs(o,"],\"dimids\":["); for(int d=0;d<vnd;d++){if(d)bs(o,",");bi(o,vd[d]);} bs(o,"],\"shape\":["); if(shp.n) bput(o,shp.b,shp.n); free(shp.b); bs(o,"],");
    if(datts(nc,vids[i],vna,o)) return -1;
    size_t es; char tn[300]; CK(nc_inq_type(nc,t,tn,&es)); unsigned char*m=calloc(tot?tot:1,es); 
    /* The library mixes up what it reads when less than the dimension is stored along any dimension but the first, except in single elements */
    int inner=0; if(fmt>=3&&fmt<=4) for(int d=1;d<vnd;d++) for(int g=nc,up=0;;g=up){ if(is_unlim(g,vd[d])){ inner=1; break; } if(nc_inq_grp_parent(g,&up)) break; }
    if(inner){ size_t ix[64]={0},one[64]; for(int d=0;d<vnd;d++) one[d]=1;
      for(size_t k=0;k<tot;k++){ CK(nc_get_vara(nc,vids[i],ix,one,m+k*es)); for(int d=vnd-1;d>=0;d--){ size_t len; CK(nc_inq_dim(nc,vd[d],nm,&len)); if(++ix[d]<len) break; ix[d]=0; } }
    } else if(tot) CK(nc_get_var(nc,vids[i],m));
    buf w={0}; if(t<=11) bput(&w,m,tot*es); else for(size_t k=0;k<tot;k++) if(enc(nc,t,m+k*es,&w)) return -1;
    bs(o,",\"data\":\""); bhex(o,w.b,w.n); bs(o,"\"}"); free(m); free(w.b); }
  free(vids);
  bs(o,"],\"groups\":["); if(fmt>=3 && fmt<=4){ int ng=0; CK(nc_inq_grps(nc,&ng,NULL)); int*g=malloc(sizeof(int)*(ng+1)); CK(nc_inq_grps(nc,&ng,g)); for(int i=0;i<ng;i++){ if(i)bs(o,","); if(dgrp(g[i],o,fmt)) return -1; } free(g);} 
  bs(o,"]}"); return 0;
}
static int dump(const char*path,buf*o){
  int nc; CK(nc_open(path,0,&nc)); int f; CK(nc_inq_format(nc,&f));
  bs(o,"{\"format\":"); bi(o,f); bs(o,",\"root\":"); int r=dgrp(nc,o,f); nc_close(nc); if(r) return -1; bs(o,"}"); return 0;
}
/* ---------- script ---------- */
extern int h5_unlink(const char*,const char*),h5_open(const char*),h5_close(void),h5_strvar(const char*,long,long,long,int,const uint64_t*,const uint64_t*,const uint64_t*,int,const void*),h5_stratt(const char*,const char*,long,long,long,int,const uint64_t*,const void*);
extern int h5_chunks(const char*,const char*,FILE*); extern int h5_val(const char*,const char*,const char*,FILE*);
extern int knob_set(const char*,long,long); extern void knob_reset(void);
static char *line; static size_t lcap; static char*cur;
static char*tok(void){ while(*cur==' ')cur++; if(!*cur||*cur=='\n') return NULL; char*s=cur; while(*cur&&*cur!=' '&&*cur!='\n')cur++; if(*cur)*cur++=0; return s; }
static int hv(int c){ return c<='9'?c-'0':c-'a'+10; }
static unsigned char*unhex(const char*s,size_t*n){ if(!s||!strcmp(s,"-")){*n=0;return calloc(1,1);} size_t l=strlen(s)/2; unsigned char*b=malloc(l+1); for(size_t i=0;i<l;i++) b[i]=hv(s[2*i])*16+hv(s[2*i+1]); b[l]=0; *n=l; return b; }
static char*name(void){ size_t n; return (char*)unhex(tok(),&n); }
static long num(void){ char*t=tok(); return t?atol(t):0; }
static int grps[4096],ngrps; static nc_type utypes[4096]; static int nut; static int vars_g[8192],vars_v[8192],nvars; static int dims[8192],ndims_;
static nc_type typeref(void){ char*t=tok(); if(t[0]=='u') return utypes[atoi(t+1)]; return atoi(t); }
static size_t talign(int nc,nc_type t){ if(t<=12) return primalign(t); char nm[300]; size_t sz,nf; nc_type base; int cl; if(nc_inq_user_type(nc,t,nm,&sz,&base,&nf,&cl)) return 8; if(cl==13) return 8; if(cl==14) return 1; if(cl==15) return primalign(base); size_t a=1; for(size_t i=0;i<nf;i++){ size_t off; nc_type ft; int nd,ds[64]; if(nc_inq_compound_field(nc,t,i,nm,&off,&ft,&nd,ds)) return 8; size_t x=talign(nc,ft); if(x>a)a=x; } return a; }
static int mkline(int *ncp){
  char*c=tok(); if(!c) return 0;
  if(!strcmp(c,"create")){ char*p=name(); int mode=num(); CK(nc_create(p,mode,ncp)); grps[0]=*ncp; ngrps=1; nut=nvars=ndims_=0; return 0; }
  if(!strcmp(c,"knob")){ char*n=tok(); long a=num(),b=num(); if(knob_set(n,a,b)) return 1; return 0; }
  if(!strcmp(c,"h5open")){ char*p=name(); if(*ncp>=0) CK(nc_close(*ncp)); *ncp=-1; if(h5_open(p)){ snprintf(errbuf,sizeof errbuf,"h5open"); return -1; } return 0; }
  if(!strcmp(c,"h5close")){ if(h5_close()){ snprintf(errbuf,sizeof errbuf,"h5close"); return -1; } return 0; }
  if(!strcmp(c,"h5strvar")){ char*p=name(); long z=num(),pad=num(),cs=num(); int nd=num(); uint64_t d[32],m[32],ch[32]={0}; for(int i=0;i<nd;i++){ d[i]=num(); m[i]=num(); ch[i]=num(); if((long)m[i]<0) m[i]=~0ull; } int fl=num(); size_t l; unsigned char*w=unhex(tok(),&l); if(h5_strvar(p,z,pad,cs,nd,d,m,ch,fl,w)){ snprintf(errbuf,sizeof errbuf,"h5strvar"); return -1; } return 0; }
  if(!strcmp(c,"h5stratt")){ char*p=name(),*n=name(); long z=num(),pad=num(),cs=num(); int nd=num(); uint64_t d[32]; for(int i=0;i<nd;i++) d[i]=num(); size_t l; unsigned char*w=unhex(tok(),&l); if(h5_stratt(p,n,z,pad,cs,nd,d,w)){ snprintf(errbuf,sizeof errbuf,"h5stratt"); return -1; } return 0; }
  if(!strcmp(c,"nofill")){ int old; CK(nc_set_fill(*ncp,0x100,&old)); return 0; }
  if(!strcmp(c,"enddef")){ CK(nc_enddef(*ncp)); return 0; }
  if(!strcmp(c,"redef")){ CK(nc_redef(*ncp)); return 0; }
  if(!strcmp(c,"sync")){ CK(nc_sync(*ncp)); return 0; }
  if(!strcmp(c,"grp")){ int p=num(); CK(nc_def_grp(grps[p],name(),&grps[ngrps])); ngrps++; return 0; }
  if(!strcmp(c,"dim")){ int g=num(); char*n=name(); size_t l=num(); CK(nc_def_dim(grps[g],n,l,&dims[ndims_])); ndims_++; return 0; }
  if(!strcmp(c,"enum")){ int g=num(); char*n=name(); nc_type b=num(); int k=num(); CK(nc_def_enum(grps[g],b,n,&utypes[nut])); for(int i=0;i<k;i++){ char*mn=name(); size_t l; unsigned char*v=unhex(tok(),&l); CK(nc_insert_enum(grps[g],utypes[nut],mn,v)); } nut++; return 0; }
  if(!strcmp(c,"opaque")){ int g=num(); char*n=name(); size_t s=num(); CK(nc_def_opaque(grps[g],s,n,&utypes[nut])); nut++; return 0; }
  if(!strcmp(c,"vlen")){ int g=num(); char*n=name(); nc_type b=typeref(); CK(nc_def_vlen(grps[g],n,b,&utypes[nut])); nut++; return 0; }
  if(!strcmp(c,"compound")){ int g=num(); char*n=name(); int k=num(); char*fn[600]; nc_type ft[600]; int nd[600],ds[600][8]; size_t off[600],o=0,al=1;
    for(int i=0;i<k;i++){ fn[i]=name(); ft[i]=typeref(); nd[i]=num(); size_t m=1; for(int d=0;d<nd[i];d++){ds[i][d]=num(); m*=ds[i][d];} size_t es; char tn[300]; CK(nc_inq_type(*ncp,ft[i],tn,&es)); size_t a=talign(*ncp,ft[i]); if(a>al)al=a; o=(o+a-1)/a*a; off[i]=o; o+=es*m; }
    o=(o+al-1)/al*al; CK(nc_def_compound(grps[g],o,n,&utypes[nut])); for(int i=0;i<k;i++){ if(nd[i]) CK(nc_insert_array_compound(grps[g],utypes[nut],fn[i],off[i],ft[i],nd[i],ds[i])); else CK(nc_insert_compound(grps[g],utypes[nut],fn[i],off[i],ft[i])); } nut++; return 0; }
  if(!strcmp(c,"var")){ int g=num(); char*n=name(); nc_type t=typeref(); int nd=num(); int d[64]; for(int i=0;i<nd;i++) d[i]=dims[num()]; CK(nc_def_var(grps[g],n,t,nd,d,&vars_v[nvars])); vars_g[nvars]=grps[g]; nvars++; return 0; }
  if(!strcmp(c,"chunk")){ int v=num(); int st=num(); int k=num(); size_t s[64]; for(int i=0;i<k;i++) s[i]=num(); CK(nc_def_var_chunking(vars_g[v],vars_v[v],st,k?s:NULL)); return 0; }
  if(!strcmp(c,"deflate")){ int v=num(); int sh=num(); int df=num(); int lv=num(); CK(nc_def_var_deflate(vars_g[v],vars_v[v],sh,df,lv)); return 0; }
  if(!strcmp(c,"fletcher")){ int v=num(); CK(nc_def_var_fletcher32(vars_g[v],vars_v[v],1)); return 0; }
  if(!strcmp(c,"endian")){ int v=num(); int e=num(); CK(nc_def_var_endian(vars_g[v],vars_v[v],e)); return 0; }
  if(!strcmp(c,"varfill")){ int v=num(); int nofill=num(); char*h=tok(); nc_type t; int x; char nm[300]; int dd[1024],na; CK(nc_inq_var(vars_g[v],vars_v[v],nm,&t,&x,dd,&na)); if(h&&strcmp(h,"-")){ size_t l; unsigned char*w=unhex(h,&l); const unsigned char*p=w; unsigned char*m=calloc(1,65536); if(dec(*ncp,t,m,&p,w+l)) return -1; CK(nc_def_var_fill(vars_g[v],vars_v[v],nofill,m)); } else CK(nc_def_var_fill(vars_g[v],vars_v[v],nofill,NULL)); return 0; }
  if(!strcmp(c,"att")){ int g=num(); int v=num(); char*n=name(); nc_type t=typeref(); size_t k=num(); size_t l; unsigned char*w=unhex(tok(),&l); const unsigned char*p=w; size_t es; char tn[300]; CK(nc_inq_type(*ncp,t,tn,&es)); unsigned char*m=calloc(k?k:1,es); for(size_t i=0;i<k;i++) if(dec(*ncp,t,m+i*es,&p,w+l)) return -1; if(v<0) CK(nc_put_att(grps[g],-1,n,t,k,m)); else CK(nc_put_att(vars_g[v],vars_v[v],n,t,k,m)); free(m); free(w); return 0; }
  if(!strcmp(c,"put")){ int v=num(); int r=num(); size_t st[64],ct[64],tot=1; for(int i=0;i<r;i++) st[i]=num(); for(int i=0;i<r;i++){ct[i]=num();tot*=ct[i];} size_t l; unsigned char*w=unhex(tok(),&l); const unsigned char*p=w; nc_type t; int x; char nm[300]; int dd[1024],na; CK(nc_inq_var(vars_g[v],vars_v[v],nm,&t,&x,dd,&na)); size_t es; CK(nc_inq_type(*ncp,t,nm,&es)); unsigned char*m=calloc(tot?tot:1,es); for(size_t i=0;i<tot;i++) if(dec(*ncp,t,m+i*es,&p,w+l)) return -1; CK(nc_put_vara(vars_g[v],vars_v[v],st,ct,m)); free(m); free(w); return 0; }
  /* Changes to a file that exists: everything is found by name, since the numbers may have changed. */
  if(!strcmp(c,"edit")){ char*p=name(); if(*ncp>=0){ int e=nc_close(*ncp); *ncp=-1; CK(e); } CK(nc_open(p,1,ncp)); return 0; }
  if(!strcmp(c,"h5del")){ char*p=name(); char*o=name(); if(*ncp>=0){ int e=nc_close(*ncp); *ncp=-1; CK(e); } return h5_unlink(p,o); }
  if(!strcmp(c,"minfree")){ size_t a[4]; for(int i=0;i<4;i++) a[i]=num(); CK(nc__enddef(*ncp,a[0],a[1],a[2],a[3])); return 0; }
  if(c[0]=='e'&&c[1]=='-'){
    char*gp=name(); int g=*ncp, v=-1; if(*gp&&strcmp(gp,"/")) CK(nc_inq_grp_full_ncid(*ncp,gp,&g));
    char*vn=name(); if(*vn) CK(nc_inq_varid(g,vn,&v));
    c+=2;
    if(!strcmp(c,"att")){ char*n=name(); nc_type t=num(); size_t k=num(); size_t l; unsigned char*w=unhex(tok(),&l); const unsigned char*p=w; size_t es; char tn[300]; CK(nc_inq_type(*ncp,t,tn,&es)); unsigned char*m=calloc(k?k:1,es); for(size_t i=0;i<k;i++) if(dec(*ncp,t,m+i*es,&p,w+l)) return -1; CK(nc_put_att(g,v,n,t,k,m)); free(m); free(w); return 0; }
    if(!strcmp(c,"del")){ CK(nc_del_att(g,v,name())); return 0; }
    if(!strcmp(c,"ren")){ char*o=name(); CK(nc_rename_att(g,v,o,name())); return 0; }
    if(!strcmp(c,"vren")){ CK(nc_rename_var(g,v,name())); return 0; }
    if(!strcmp(c,"dren")){ char*o=name(); int d; CK(nc_inq_dimid(g,o,&d)); CK(nc_rename_dim(g,d,name())); return 0; }
    if(!strcmp(c,"dim")){ char*n=name(); int d; CK(nc_def_dim(g,n,num(),&d)); return 0; }
    if(!strcmp(c,"var")){ char*n=name(); nc_type t=num(); int nd=num(), d[64], x; for(int i=0;i<nd;i++) CK(nc_inq_dimid(g,name(),&d[i])); CK(nc_def_var(g,n,t,nd,d,&x)); return 0; }
    if(!strcmp(c,"put")){ int r=num(); size_t st[64],ct[64],tot=1; for(int i=0;i<r;i++) st[i]=num(); for(int i=0;i<r;i++){ct[i]=num();tot*=ct[i];} size_t l; unsigned char*w=unhex(tok(),&l); const unsigned char*p=w; nc_type t; int x; char nm[300]; int dd[1024],na; CK(nc_inq_var(g,v,nm,&t,&x,dd,&na)); size_t es; CK(nc_inq_type(*ncp,t,nm,&es)); unsigned char*m=calloc(tot?tot:1,es); for(size_t i=0;i<tot;i++) if(dec(*ncp,t,m+i*es,&p,w+l)) return -1; CK(nc_put_vara(g,v,st,ct,m)); free(m); free(w); return 0; }
  }
  snprintf(errbuf,sizeof errbuf,"unknown command %s",c); return -1;
}
int main(void){
  int making=0,failed=0,nc=-1;
  for(;;){ ssize_t n=getline(&line,&lcap,stdin); if(n<0) break; cur=line;
    if(!making){ char*c=tok(); if(!c) continue; if(!strcmp(c,"make")){ knob_reset(); making=1; failed=0; nc=-1; continue; }
      if(!strcmp(c,"dump")){ buf o={0}; if(dump(name(),&o)){ printf("{\"error\":\""); for(char*p=errbuf;*p;p++) if(*p!='"'&&*p!='\\') putchar(*p); printf("\"}\n"); } else { fwrite(o.b,1,o.n,stdout); putchar('\n'); } free(o.b); fflush(stdout); continue; }
      if(!strcmp(c,"chunks")){ char*f=name(),*d=name(); h5_chunks(f,d,stdout); fflush(stdout); continue; }
      if(!strcmp(c,"h5val")){ char*f=name(),*d=name(),*a=name(); h5_val(f,d,*a?a:NULL,stdout); fflush(stdout); continue; }
      printf("{\"error\":\"bad command\"}\n"); fflush(stdout); continue; }
    if(!strncmp(line,"end\n",4)){ making=0; int s=0; if(nc>=0) s=nc_close(nc); if(s&&!failed){ snprintf(errbuf,sizeof errbuf,"close: %s",nc_strerror(s)); failed=1; } if(failed){ printf("{\"error\":\""); for(char*p=errbuf;*p;p++) if(*p!='"'&&*p!='\\') putchar(*p); printf("\"}\n"); } else printf("{\"ok\":true}\n"); fflush(stdout); continue; }
    if(!failed && mkline(&nc)) failed=1;
  }
  return 0;
}
