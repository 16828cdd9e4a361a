// ffsolve: a decision procedure for conjunctions of polynomial equations and
// disequalities over a prime field (QF_FF): elimination, case splitting,
// Groebner bases and root finding.  Reads one problem on stdin:
//   p <hex prime>
//   v <nvars>
//   e <poly>        equation  poly = 0
//   n <poly>        disequation poly != 0
//   <poly> := terms separated by ';', each  hexcoef[,var^exp]*
// Prints: unsat | sat followed by "m <var> <hex>" lines | unknown <reason>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace std;
typedef unsigned __int128 u128;
typedef uint64_t u64;
struct F { u64 l[4]; };
static u64 MODL[4], NINV; static F R1, R2;
static inline bool ge(const u64*a,const u64*b){for(int i=3;i>=0;i--){if(a[i]!=b[i])return a[i]>b[i];}return true;}
static inline void subm(u64*a,const u64*b){u128 br=0;for(int i=0;i<4;i++){u128 t=(u128)a[i]-b[i]-br;a[i]=(u64)t;br=(t>>64)&1;}}
static inline F fadd(const F&a,const F&b){F r;u128 c=0;for(int i=0;i<4;i++){c+=(u128)a.l[i]+b.l[i];r.l[i]=(u64)c;c>>=64;}if(c||ge(r.l,MODL))subm(r.l,MODL);return r;}
static inline bool fz(const F&a){return !(a.l[0]|a.l[1]|a.l[2]|a.l[3]);}
static inline F fneg(const F&a){if(fz(a))return a;F r;u64 t[4];memcpy(t,MODL,32);subm(t,a.l);memcpy(r.l,t,32);return r;}
static inline F fsub(const F&a,const F&b){return fadd(a,fneg(b));}
static inline F fmul(const F&a,const F&b){u64 t[6]={0};for(int i=0;i<4;i++){u128 c=0;for(int j=0;j<4;j++){c+=(u128)a.l[i]*b.l[j]+t[j];t[j]=(u64)c;c>>=64;}c+=t[4];t[4]=(u64)c;t[5]=(u64)(c>>64);
 u64 m=t[0]*NINV;c=(u128)m*MODL[0]+t[0];c>>=64;for(int j=1;j<4;j++){c+=(u128)m*MODL[j]+t[j];t[j-1]=(u64)c;c>>=64;}c+=t[4];t[3]=(u64)c;t[4]=t[5]+(u64)(c>>64);}
 F r;memcpy(r.l,t,32);if(t[4]||ge(r.l,MODL))subm(r.l,MODL);return r;}
static inline bool feq(const F&a,const F&b){return !memcmp(a.l,b.l,32);}
static F fpow(F b,const u64*e){F r=R1;for(int i=255;i>=0;i--){r=fmul(r,r);if((e[i/64]>>(i%64))&1)r=fmul(r,b);}return r;}
static F finv(const F&a){u64 e[4];memcpy(e,MODL,32);u64 two[4]={2,0,0,0};subm(e,two);return fpow(a,e);}
static F fromhex(const string&s0){string s=s0;if(s.rfind("0x",0)==0)s=s.substr(2);F r;memset(&r,0,32);for(char c:s){int d=c<='9'?c-'0':(c|32)-'a'+10;u64 cy=d;for(int i=0;i<4;i++){u64 n=(r.l[i]<<4)|cy;cy=r.l[i]>>60;r.l[i]=n;}}while(ge(r.l,MODL))subm(r.l,MODL);return fmul(r,R2);}
static string tohex(const F&a){F o;memset(&o,0,32);o.l[0]=1;F x=fmul(a,o);char b[80];sprintf(b,"0x%016lx%016lx%016lx%016lx",x.l[3],x.l[2],x.l[1],x.l[0]);return b;}
static F fint(u64 v){F o;memset(&o,0,32);o.l[0]=v;return fmul(o,R2);}
static int legendre(const F&a){if(fz(a))return 0;u64 e[4];memcpy(e,MODL,32);e[0]-=1;for(int i=0;i<4;i++){e[i]=(e[i]>>1)|(i<3?e[i+1]<<63:0);}F r=fpow(a,e);return feq(r,R1)?1:-1;}

#define NV 128
struct M { uint16_t d; uint8_t e[NV]; M(){memset(this,0,sizeof(*this));} };
static int nv; // vars in use (<=NV)
static inline bool meq(const M&a,const M&b){return a.d==b.d&&!memcmp(a.e,b.e,nv);}
// grevlex: a > b
static inline int mcmp(const M&a,const M&b){if(a.d!=b.d)return a.d>b.d?1:-1;for(int i=nv-1;i>=0;i--)if(a.e[i]!=b.e[i])return a.e[i]<b.e[i]?1:-1;return 0;}
struct MG{bool operator()(const M&a,const M&b)const{return mcmp(a,b)>0;}};
static inline bool mdiv(const M&a,const M&b){if(a.d>b.d)return false;for(int i=0;i<nv;i++)if(a.e[i]>b.e[i])return false;return true;}
static inline M mmul(const M&a,const M&b){M r;r.d=a.d+b.d;for(int i=0;i<nv;i++){int s=a.e[i]+b.e[i];if(s>255)throw string("degree overflow");r.e[i]=s;}return r;}
static inline M mquo(const M&a,const M&b){M r;r.d=a.d-b.d;for(int i=0;i<nv;i++)r.e[i]=a.e[i]-b.e[i];return r;}
static inline M mlcm(const M&a,const M&b){M r;r.d=0;for(int i=0;i<nv;i++){r.e[i]=max(a.e[i],b.e[i]);r.d+=r.e[i];}return r;}
typedef vector<pair<M,F>> P; // descending
typedef map<M,F,MG> PM;
static P frommap(const PM&m){P r;r.reserve(m.size());for(auto&x:m)r.push_back(x);return r;}
static void addto(PM&m,const M&k,const F&c){auto it=m.find(k);if(it==m.end()){if(!fz(c))m.emplace(k,c);}else{it->second=fadd(it->second,c);if(fz(it->second))m.erase(it);}}
static P padd(const P&a,const P&b,const F&cb){P r;r.reserve(a.size()+b.size());size_t i=0,j=0;while(i<a.size()||j<b.size()){int c=i==a.size()?-1:j==b.size()?1:mcmp(a[i].first,b[j].first);if(c>0)r.push_back(a[i++]);else if(c<0){r.push_back({b[j].first,fmul(b[j].second,cb)});j++;}else{F s=fadd(a[i].second,fmul(b[j].second,cb));if(!fz(s))r.push_back({a[i].first,s});i++;j++;}}return r;}
static P pmul(const P&a,const P&b){PM m;for(auto&x:a)for(auto&y:b)addto(m,mmul(x.first,y.first),fmul(x.second,y.second));return frommap(m);}
static P pmulm(const P&a,const M&mm,const F&c){P r;r.reserve(a.size());for(auto&x:a)r.push_back({mmul(x.first,mm),fmul(x.second,c)});return r;}
static void monic(P&p){if(p.empty())return;F i=finv(p[0].second);if(feq(p[0].second,R1))return;for(auto&x:p)x.second=fmul(x.second,i);}
static bool isconst(const P&p){return p.empty()||(p.size()==1&&p[0].first.d==0);}
static P pone(){P r;r.push_back({M(),R1});return r;}
static P pvar(int v){P r;M m;m.d=1;m.e[v]=1;r.push_back({m,R1});return r;}
static chrono::steady_clock::time_point T0; static double TL=60;
static void tick(){static int c=0;if((++c&255)==0){if(chrono::duration<double>(chrono::steady_clock::now()-T0).count()>TL)throw string("time");}}
// substitution var -> poly
static P psubst(const P&p,int v,const P&s){bool any=false;for(auto&x:p)if(x.first.e[v]){any=true;break;}if(!any)return p;vector<P> pw;pw.push_back(pone());PM m;for(auto&x:p){int e=x.first.e[v];if(!e){addto(m,x.first,x.second);continue;}while((int)pw.size()<=e)pw.push_back(pmul(pw.back(),s));M k=x.first;k.d-=e;k.e[v]=0;for(auto&y:pw[e])addto(m,mmul(k,y.first),fmul(x.second,y.second));tick();}return frommap(m);}
static set<int> pvars(const P&p){set<int> s;for(auto&x:p)for(int i=0;i<nv;i++)if(x.first.e[i])s.insert(i);return s;}
static P preduce(const P&p,const vector<P>&G,bool full=true){PM m;for(auto&x:p)m.emplace(x);P r;while(!m.empty()){tick();auto it=m.begin();M k=it->first;F c=it->second;const P*g=0;for(auto&q:G)if(!q.empty()&&mdiv(q[0].first,k)){g=&q;break;}if(!g){r.push_back(*it);m.erase(it);if(!full){for(auto&x:m)r.push_back(x);break;}continue;}M qm=mquo(k,(*g)[0].first);F f=fneg(c);m.erase(it);for(size_t i=1;i<g->size();i++)addto(m,mmul((*g)[i].first,qm),fmul((*g)[i].second,f));}return r;}
// Buchberger; polys made monic.  Returns reduced GB.
struct Pair{int i,j;M l;int sugar;};
static vector<P> groebner(vector<P> in,size_t maxb=4000){vector<P> G;vector<int> sug;vector<Pair> B;vector<char> dead;
 auto insert=[&](P h,int sg){monic(h);int k=G.size();const M&hk=h[0].first;// update (Gebauer-Moeller)
  vector<Pair> nb;for(int i=0;i<k;i++){if(dead[i])continue;Pair p;p.i=i;p.j=k;p.l=mlcm(G[i][0].first,hk);p.sugar=max(sug[i]+p.l.d-G[i][0].first.d,sg+p.l.d-hk.d);nb.push_back(p);}
  // chain criterion on old pairs
  vector<Pair> B2;for(auto&p:B){if(mdiv(hk,p.l)&&!meq(mlcm(G[p.i][0].first,hk),p.l)&&!meq(mlcm(G[p.j][0].first,hk),p.l))continue;B2.push_back(p);}
  // among new
  vector<char> rem(nb.size(),0);for(size_t a=0;a<nb.size();a++){bool cop=nb[a].l.d==G[nb[a].i][0].first.d+hk.d;if(cop)continue;for(size_t b=0;b<nb.size();b++){if(a==b||rem[b])continue;if(mdiv(nb[b].l,nb[a].l)&&(!meq(nb[b].l,nb[a].l)||b<a)){rem[a]=1;break;}}}
  // same-lcm coprime removal
  for(size_t a=0;a<nb.size();a++){if(rem[a])continue;bool cop=nb[a].l.d==G[nb[a].i][0].first.d+hk.d;if(cop){rem[a]=1;}}
  for(size_t a=0;a<nb.size();a++)if(!rem[a])B2.push_back(nb[a]);
  for(int i=0;i<k;i++)if(!dead[i]&&mdiv(hk,G[i][0].first))dead[i]=1;
  B.swap(B2);G.push_back(h);sug.push_back(sg);dead.push_back(0);};
 sort(in.begin(),in.end(),[](const P&a,const P&b){if(a.empty()||b.empty())return a.size()<b.size();return mcmp(a[0].first,b[0].first)<0;});
 auto live=[&](){vector<P> L;for(size_t i=0;i<G.size();i++)if(!dead[i])L.push_back(G[i]);return L;};
 for(auto&p:in){P r=preduce(p,live());if(r.empty())continue;if(isconst(r)){return {pone()};}insert(r,r[0].first.d);}
 while(!B.empty()){tick();size_t bi=0;for(size_t i=1;i<B.size();i++){if(B[i].sugar<B[bi].sugar||(B[i].sugar==B[bi].sugar&&mcmp(B[i].l,B[bi].l)<0))bi=i;}
  Pair p=B[bi];B[bi]=B.back();B.pop_back();
  P s=padd(pmulm(G[p.i],mquo(p.l,G[p.i][0].first),R1),pmulm(G[p.j],mquo(p.l,G[p.j][0].first),R1),fneg(R1));
  P r=preduce(s,live());if(r.empty())continue;if(isconst(r))return {pone()};if(G.size()>maxb)throw string("basis size");insert(r,p.sugar);}
 vector<P> L=live();vector<P> out;for(size_t i=0;i<L.size();i++){vector<P> o;for(size_t j=0;j<L.size();j++)if(j!=i)o.push_back(L[j]);P r=preduce(L[i],o);if(!r.empty()){monic(r);out.push_back(r);}}
 return out;}
// univariate polys: vector<F> low->high
typedef vector<F> U;
static void utrim(U&a){while(!a.empty()&&fz(a.back()))a.pop_back();}
static U urem(U a,const U&b){F bi=finv(b.back());while(a.size()>=b.size()){F c=fmul(a.back(),bi);size_t s=a.size()-b.size();for(size_t i=0;i<b.size();i++)a[s+i]=fsub(a[s+i],fmul(c,b[i]));utrim(a);if(a.empty())break;}return a;}
static U uquo(U a,const U&b){U q;if(a.size()<b.size())return q;q.assign(a.size()-b.size()+1,fint(0));F bi=finv(b.back());while(a.size()>=b.size()){F c=fmul(a.back(),bi);size_t s=a.size()-b.size();q[s]=c;for(size_t i=0;i<b.size();i++)a[s+i]=fsub(a[s+i],fmul(c,b[i]));utrim(a);if(a.empty())break;}return q;}
static U umulm(const U&a,const U&b,const U&m){if(a.empty()||b.empty())return U();U r(a.size()+b.size()-1,fint(0));for(size_t i=0;i<a.size();i++)for(size_t j=0;j<b.size();j++)r[i+j]=fadd(r[i+j],fmul(a[i],b[j]));utrim(r);return urem(r,m);}
static U ugcd(U a,U b){utrim(a);utrim(b);while(!b.empty()){U t=urem(a,b);a=b;b=t;}if(!a.empty()){F i=finv(a.back());for(auto&x:a)x=fmul(x,i);}return a;}
static U upowm(U b,const u64*e,const U&m){U r={R1};r=urem(r,m);b=urem(b,m);for(int i=255;i>=0;i--){r=umulm(r,r,m);if((e[i/64]>>(i%64))&1)r=umulm(r,b,m);}return r;}
static void usplit(const U&f,vector<F>&out,int seed){if(f.size()<=1)return;if(f.size()==2){out.push_back(fneg(fmul(f[0],finv(f[1]))));return;}
 u64 e[4];memcpy(e,MODL,32);e[0]-=1;for(int i=0;i<4;i++)e[i]=(e[i]>>1)|(i<3?e[i+1]<<63:0);
 for(int s=seed;;s++){U b={fint(s*7+3),R1};U h=upowm(b,e,f);if(h.empty())h={fint(0)};h[0]=fsub(h[0],R1);utrim(h);U g=ugcd(f,h);if(g.size()>1&&g.size()<f.size()){usplit(g,out,s+1);usplit(uquo(f,g),out,s+1);return;}}}
static vector<F> uroots(U f){utrim(f);vector<F> out;if(f.size()<=1)return out;U x={fint(0),R1};U xp=upowm(x,MODL,f);U d=xp;while(d.size()<2)d.push_back(fint(0));d[1]=fsub(d[1],R1);utrim(d);U g=d.empty()?f:ugcd(f,d);usplit(g,out,1);return out;}

struct Prob{vector<P> eq,ne;vector<pair<int,P>> sub;}; // sub in order of elimination
enum Res{UNSAT,SAT,UNK};
static map<int,F> model; static string unkreason; static long nsplit=0,ngb=0;
static F peval(const P&p,const map<int,F>&m){F s=fint(0);for(auto&x:p){F t=x.second;for(int i=0;i<nv;i++)for(int k=0;k<x.first.e[i];k++){auto it=m.find(i);t=fmul(t,it==m.end()?fint(0):it->second);}s=fadd(s,t);}return s;}
static bool univar(const P&p,int&v){v=-1;for(auto&x:p)for(int i=0;i<nv;i++)if(x.first.e[i]){if(v==-1)v=i;else if(v!=i)return false;}return v>=0;}
static U touni(const P&p,int v){U u;for(auto&x:p){int e=x.first.e[v];if((int)u.size()<=e)u.resize(e+1,fint(0));u[e]=x.second;}return u;}
static Res solve(Prob pr,int depth);
static bool apply(Prob&pr,int v,const P&s){pr.sub.push_back({v,s});for(auto&p:pr.eq)p=psubst(p,v,s);for(auto&p:pr.ne)p=psubst(p,v,s);return true;}
static P pconst(const F&c){P r;if(!fz(c))r.push_back({M(),c});return r;}
static bool proportional(const P&a,const P&b){if(a.size()!=b.size()||a.empty())return false;F r=fmul(b[0].second,finv(a[0].second));for(size_t i=0;i<a.size();i++){if(!meq(a[i].first,b[i].first)||!feq(b[i].second,fmul(r,a[i].second)))return false;}return true;}
// simplification; returns UNSAT if contradiction found, else SAT meaning "continue"
static bool simp(Prob&pr,bool aggressive){
 bool ch=true;while(ch){ch=false;tick();
  vector<P> e2;for(auto&p:pr.eq){if(p.empty())continue;if(isconst(p))return false;e2.push_back(p);}pr.eq.swap(e2);
  vector<P> n2;for(auto&p:pr.ne){if(p.empty())return false;if(isconst(p))continue;monic(p);bool dup=false;for(auto&q:n2)if(proportional(p,q)){dup=true;break;}if(!dup)n2.push_back(p);}pr.ne.swap(n2);
  // divide equations by monomial factors known non-zero
  vector<char> nzv(nv,0);for(auto&p:pr.ne)if(p.size()==1)for(int i=0;i<nv;i++)if(p[0].first.e[i])nzv[i]=1;
  for(auto&p:pr.eq){M g=p[0].first;for(auto&x:p){for(int i=0;i<nv;i++)g.e[i]=min(g.e[i],x.first.e[i]);}bool any=false;for(int i=0;i<nv;i++)if(g.e[i]&&nzv[i]){for(auto&x:p){x.first.e[i]-=g.e[i];x.first.d-=g.e[i];}any=true;}if(any)ch=true;
   // x^k*... = 0 with single term: drop powers
   if(p.size()==1){for(int i=0;i<nv;i++)if(p[0].first.e[i]>1){p[0].first.d-=p[0].first.e[i]-1;p[0].first.e[i]=1;ch=true;}}}
  if(ch)continue;
  for(auto&p:pr.eq)for(auto&q:pr.ne)if(proportional(p,q))return false;
  // linear elimination
  int bi=-1,bv=-1;long best=-1;for(size_t k=0;k<pr.eq.size();k++){const P&p=pr.eq[k];if(p.size()>(aggressive?12:40)&&p[0].first.d>1)continue;vector<int> cnt(nv,0),lin(nv,0);for(auto&x:p)for(int i=0;i<nv;i++)if(x.first.e[i]){cnt[i]++;if(x.first.d==1)lin[i]=1;}
   for(int i=0;i<nv;i++)if(lin[i]&&cnt[i]==1){int rest=p.size()-1;int deg=0;for(auto&x:p)if(!x.first.e[i])deg=max<int>(deg,x.first.d);
     long occ=0;int maxe=0;for(size_t q=0;q<pr.eq.size();q++)if(q!=k)for(auto&x:pr.eq[q])if(x.first.e[i]){occ++;maxe=max<int>(maxe,x.first.e[i]);}for(auto&q:pr.ne)for(auto&x:q)if(x.first.e[i]){occ++;maxe=max<int>(maxe,x.first.e[i]);}
     if(deg>1&&(rest>8||deg>3||maxe>2)&&occ>0&&!(rest==1&&maxe<=2))continue;
     long cost=(long)occ*rest*(deg+1)*max(1,maxe);if(best<0||cost<best){best=cost;bi=k;bv=i;}}}
  if(bi>=0){P p=pr.eq[bi];F c;P s;for(auto&x:p){if(x.first.e[bv])c=x.second;else s.push_back(x);}F k=fneg(finv(c));for(auto&x:s)x.second=fmul(x.second,k);pr.eq.erase(pr.eq.begin()+bi);apply(pr,bv,s);ch=true;}
 }
 return true;}
static bool finishmodel(const Prob&pr,const map<int,F>&free_){map<int,F> m=free_;for(int i=(int)pr.sub.size()-1;i>=0;i--){for(int v:pvars(pr.sub[i].second))if(!m.count(v))m[v]=fint(0);m[pr.sub[i].first]=peval(pr.sub[i].second,m);}model=m;return true;}
static Res solve(Prob pr,int depth){
 tick();if(!simp(pr,false))return UNSAT;
 // split on monomial factors: x*g = 0
 for(size_t k=0;k<pr.eq.size();k++){P&p=pr.eq[k];M g=p[0].first;for(auto&x:p)for(int i=0;i<nv;i++)g.e[i]=min(g.e[i],x.first.e[i]);int v=-1;for(int i=0;i<nv;i++)if(g.e[i]){v=i;break;}
  if(v>=0){nsplit++;Prob a=pr;a.eq.erase(a.eq.begin()+k);apply(a,v,P());Res r=solve(a,depth+1);if(r==SAT)return SAT;Prob b=pr;for(auto&x:b.eq[k]){x.first.d-=g.e[v];x.first.e[v]-=g.e[v];}
   b.ne.push_back(pvar(v));Res r2=solve(b,depth+1);if(r2==SAT)return SAT;return (r==UNSAT&&r2==UNSAT)?UNSAT:UNK;}}
 // univariate equations: branch on roots
 for(size_t k=0;k<pr.eq.size();k++){int v;if(univar(pr.eq[k],v)){vector<F> rs=uroots(touni(pr.eq[k],v));nsplit++;bool unk=false;for(auto&r:rs){Prob a=pr;a.eq.erase(a.eq.begin()+k);apply(a,v,pconst(r));Res x=solve(a,depth+1);if(x==SAT)return SAT;if(x==UNK)unk=true;}return unk?UNK:UNSAT;}}
 // u^2 = c v^2 with c a non-residue forces u = v = 0 (monomials)
 auto nonres=[&](const P&p,vector<int>&zs)->bool{if(p.size()!=2)return false;for(auto&x:p)for(int i=0;i<nv;i++)if(x.first.e[i]&1)return false;F c=fneg(fmul(p[1].second,finv(p[0].second)));if(legendre(c)!=-1)return false;return true;};
 for(size_t k=0;k<pr.eq.size();k++){vector<int> z;if(nonres(pr.eq[k],z)){P a,b;a.push_back(pr.eq[k][0]);a[0].second=R1;b.push_back(pr.eq[k][1]);b[0].second=R1;Prob q=pr;q.eq.erase(q.eq.begin()+k);q.eq.push_back(a);q.eq.push_back(b);return solve(q,depth+1);}}
 if(pr.eq.empty()){ // only disequations: pick values
  map<int,F> m;set<int> vs;for(auto&p:pr.ne)for(int v:pvars(p))vs.insert(v);
  for(int att=0;att<20;att++){m.clear();u64 s=12345+att*977;for(int v:vs){s=s*6364136223846793005ull+1442695040888963407ull;m[v]=fint(s>>(att<5?58:33));}bool ok=true;for(auto&p:pr.ne)if(fz(peval(p,m))){ok=false;break;}if(ok){finishmodel(pr,m);return SAT;}}
  unkreason="values";return UNK;}
 // Groebner basis with Rabinowitsch variables
 ngb++;
 {vector<P> in=pr.eq;
  // use disequations through fresh inverse variables
  int base=nv;vector<int> fresh;for(auto&n:pr.ne){if(nv+1>NV)throw string("too many variables");nv++;P t=pmul(n,pvar(nv-1));t=padd(t,pone(),fneg(R1));in.push_back(t);fresh.push_back(nv-1);}
  int savenv=nv;
  vector<P> G=groebner(in);
  if(G.size()==1&&isconst(G[0])){nv=base;return UNSAT;}
  // add consequences without fresh variables
  vector<P> Ge;for(auto&g:G){bool fr=false;for(int v:pvars(g))if(v>=base)fr=true;if(!fr)Ge.push_back(g);}
  // new facts: univariate, factor or non-residue patterns
  for(auto&g:G){vector<int> z;if(nonres(g,z)){P a,b;a.push_back(g[0]);a[0].second=R1;b.push_back(g[1]);b[0].second=R1;for(auto*z2:{&a,&b}){M&mm=(*z2)[0].first;for(int v=base;v<savenv;v++){mm.d-=mm.e[v];mm.e[v]=0;}} /* inverses are non-zero */
    nv=base;Prob q=pr;q.eq=Ge;for(auto&p0:pr.eq)q.eq.push_back(preduce(p0,Ge));q.eq.push_back(a);q.eq.push_back(b);return solve(q,depth+1);}}
  bool progress=false;for(auto&g:Ge){int v;if(univar(g,v))progress=true;M f=g[0].first;for(auto&x:g)for(int i=0;i<base;i++)f.e[i]=min(f.e[i],x.first.e[i]);for(int i=0;i<base;i++)if(f.e[i])progress=true;}
  // linear facts
  for(auto&g:Ge)if(g[0].first.d==1)progress=true;
  nv=base;for(auto&p0:pr.eq){P r0=preduce(p0,Ge);if(!r0.empty()){monic(r0);Ge.push_back(r0);}}nv=savenv;
  if(progress&&depth<400){nv=base;Prob q=pr;q.eq=Ge;
    // avoid endless loops: only when the new system differs
    return solve(q,depth+1);}
  // zero-dimensional variables: minimal polynomial by linear algebra
  set<int> vs;for(auto&g:Ge)for(int v:pvars(g))vs.insert(v);
  for(int v:vs){ bool fin=false;for(auto&g:G){bool only=true;for(int i=0;i<savenv;i++)if(g[0].first.e[i]&&i!=v)only=false;if(only&&g[0].first.d>0)fin=true;}
   if(!fin)continue;
   // powers
   vector<P> nf;P cur=pone();cur=preduce(cur,G);U mp;bool got=false;vector<pair<P,U>> ech;
   for(int d=0;d<=48&&!got;d++){P r=cur;U co(d+1,fint(0));co[d]=R1;for(auto&e:ech){ if(r.empty())break;const M&lm=e.first[0].first;for(auto&x:r)if(meq(x.first,lm)){F c=fneg(x.second);r=padd(r,e.first,c);for(size_t i=0;i<e.second.size();i++)co[i]=fadd(co[i],fmul(e.second[i],c));break;}}
    if(r.empty()){mp=co;got=true;break;}
    F iv=finv(r[0].second);for(auto&x:r)x.second=fmul(x.second,iv);for(auto&x:co)x=fmul(x,iv);
    ech.push_back({r,co});sort(ech.begin(),ech.end(),[](const pair<P,U>&a,const pair<P,U>&b){return mcmp(a.first[0].first,b.first[0].first)>0;});
    cur=preduce(pmul(cur,pvar(v)),G);}
   if(got){vector<F> rs=uroots(mp);nsplit++;nv=base;bool unk=false;for(auto&r:rs){Prob a=pr;a.eq=Ge;apply(a,v,pconst(r));Res x=solve(a,depth+1);if(x==SAT)return SAT;if(x==UNK)unk=true;}return unk?UNK:UNSAT;}
  }
  nv=base;
  // positive dimension: guess a value for some variable
  if(depth>60){unkreason="depth";return UNK;}
  // prefer a variable that occurs linearly nowhere / most often
  map<int,int> cnt;for(auto&g:Ge)for(int v:pvars(g))cnt[v]++;
  // free variable = not a leading pure power; choose those first
  vector<int> order;for(int v:vs)order.push_back(v);sort(order.begin(),order.end(),[&](int a,int b){return cnt[a]>cnt[b];});
  int tries=0;for(int v:order){if(tries>=(depth==0?60:12))break;for(int val=0;val<(depth==0?12:6);val++){tries++;Prob a=pr;a.eq=Ge;F c=fint(val==0?3:val==1?1:val==2?0:val*val*11+5);apply(a,v,pconst(c));Res r=solve(a,depth+1);if(r==SAT)return SAT;}
   if(tries>=24)break;}
  unkreason="no model guessed";return UNK;
 }
}
static P parse(const string&s){PM m;stringstream ss(s);string t;while(getline(ss,t,';')){if(t.empty())continue;stringstream ts(t);string f;getline(ts,f,',');F c=fromhex(f);M k;while(getline(ts,f,',')){size_t q=f.find('^');int v=stoi(f.substr(0,q)),e=q==string::npos?1:stoi(f.substr(q+1));if(v>=NV)throw string("too many variables");k.e[v]+=e;k.d+=e;}addto(m,k,c);}return frommap(m);}
int main(int argc,char**argv){if(argc>1)TL=atof(argv[1]);T0=chrono::steady_clock::now();ios::sync_with_stdio(false);
 // A first pass may involve more than NV variables: linear elimination happens in the caller.
 Prob pr;string line;try{while(getline(cin,line)){if(line.size()<2)continue;string r=line.substr(2);if(line[0]=='p'){string s=r;if(s.rfind("0x",0)==0)s=s.substr(2);memset(MODL,0,32);for(char c:s){int d=c<='9'?c-'0':(c|32)-'a'+10;u64 cy=d;for(int i=0;i<4;i++){u64 n=(MODL[i]<<4)|cy;cy=MODL[i]>>60;MODL[i]=n;}}
   u64 inv=1;for(int i=0;i<63;i++){inv*=inv;inv*=MODL[0];}NINV=-inv; // inverse via Euler: a^(2^63-1)
   // R1 = 2^256 mod p
   F o;memset(&o,0,32);o.l[0]=1;while(ge(o.l,MODL))subm(o.l,MODL);F x=o;for(int i=0;i<256;i++)x=fadd(x,x);R1=x;for(int i=0;i<256;i++)x=fadd(x,x);R2=x;}
  else if(line[0]=='v'){nv=stoi(r);if(nv>NV)throw string("too many variables");}
  else if(line[0]=='e')pr.eq.push_back(parse(r));else if(line[0]=='n')pr.ne.push_back(parse(r));}
  int n0=nv;Res r=solve(pr,0);
  if(r==UNSAT)printf("unsat\n");else if(r==UNK)printf("unknown %s\n",unkreason.c_str());else{printf("sat\n");for(int i=0;i<n0;i++){auto it=model.find(i);printf("m %d %s\n",i,tohex(it==model.end()?fint(0):it->second).c_str());}
   // self check
   for(auto&p:pr.eq)if(!fz(peval(p,model))){printf("unknown model check\n");}for(auto&p:pr.ne)if(fz(peval(p,model)))printf("unknown model check\n");}
  printf("stat %ld %ld\n",nsplit,ngb);
 }catch(string&e){printf("unknown %s\n",e.c_str());}catch(exception&e){printf("unknown exception\n");}
 return 0;}
