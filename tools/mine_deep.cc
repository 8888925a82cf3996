// Random search for instances that cover the events of the decoder (matching depth, shattering, tree shapes); with tools/deep_pick.py it gave
// tools/deep_instances.txt.gz. Build against /repo/src like tools/mine.cc; arguments: seed seconds smallest-n largest-n.
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <set>
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
using namespace pm;
static sigjmp_buf jb; static void onal(int s){siglongjmp(jb,s==SIGALRM?1:2);}
struct Ed{int u,v;int w;};
struct I{int n;std::vector<Ed> e;uint32_t s;std::vector<uint64_t> d;};
static long INF=1e9;
struct Or{int n;std::vector<std::vector<long>>D;std::vector<long>f;};
static long solve(const I&g,uint32_t s,std::vector<std::vector<long>>*Dout=nullptr){ // handles negative by shifting
  int n=g.n,m=n+1; std::vector<std::vector<long>> D(m,std::vector<long>(m,INF)); long off=0; uint32_t neg=0;
  for(int i=0;i<m;i++)D[i][i]=0;
  for(auto&e:g.e){int v=e.v<0?n:e.v; long w=e.w; if(w<0){off+=w;neg^=1u<<e.u; if(e.v>=0)neg^=1u<<e.v; w=-w;} if(w<D[e.u][v])D[e.u][v]=D[v][e.u]=w;}
  for(int k=0;k<m;k++)for(int i=0;i<m;i++)for(int j=0;j<m;j++)if(D[i][k]+D[k][j]<D[i][j])D[i][j]=D[i][k]+D[k][j];
  if(Dout)*Dout=D;
  s^=neg; std::vector<int> id; for(int i=0;i<n;i++)if(s>>i&1)id.push_back(i);
  int k=id.size(); std::vector<long> f(1u<<k,INF); f[0]=0;
  for(uint32_t q=1;q<(1u<<k);q++){int i=__builtin_ctz(q);uint32_t rr=q&(q-1);long b=std::min(INF,f[rr]+D[id[i]][n]);for(int j=i+1;j<k;j++)if(rr>>j&1)b=std::min(b,f[rr&~(1u<<j)]+D[id[i]][id[j]]);f[q]=std::min(b,INF);}
  return f[(1u<<k)-1]>=INF?INF:f[(1u<<k)-1]+off;
}
static Mwpm* mk(const I&g,int nobs){
  MatchingGraph mg(g.n,nobs); SearchGraph sg(g.n); for(size_t i=0;i<g.e.size();i++){auto&e=g.e[i]; if(e.v<0){mg.add_boundary_edge(e.u,e.w,{i});sg.add_boundary_edge(e.u,e.w,{i});}else{mg.add_edge(e.u,e.v,e.w,{i});sg.add_edge(e.u,e.v,e.w,{i});}}
  Mwpm*m=new Mwpm(GraphFlooder(std::move(mg)),SearchFlooder(std::move(sg))); m->flooder.sync_negative_weight_observables_and_detection_events(); return m;}
static bool okset(const I&g,const std::vector<int>&u,uint32_t s,long want){uint32_t sy=0;long c=0;for(size_t i=0;i<g.e.size();i++){if(u[i]>1)return false;if(u[i]){sy^=1u<<g.e[i].u;if(g.e[i].v>=0)sy^=1u<<g.e[i].v;c+=g.e[i].w;}}return sy==s&&c==want;}
static int one(Mwpm&m,const I&g,int nobs,int kind,const std::vector<uint64_t>&d,uint32_t s,long want,std::vector<std::vector<long>>&D){
  // returns 0 fine, else failure code
  try{
    if(kind==0){auto r=decode_detection_events_for_up_to_64_observables(m,d,false); if(want>=INF)return 1; if(r.weight!=want)return 2; std::vector<int>u(g.e.size()); for(size_t i=0;i<u.size();i++)u[i]=r.obs_mask>>i&1; if(!okset(g,u,s,want))return 3;}
    if(kind==1){std::vector<int64_t> ed;decode_detection_events_to_edges(m,d,ed); if(want>=INF)return 1; std::vector<int>u(g.e.size(),0); for(size_t i=0;i+1<ed.size();i+=2){int f=-1;for(size_t k=0;k<u.size();k++)if((g.e[k].u==ed[i]&&g.e[k].v==ed[i+1])||(g.e[k].v==ed[i]&&g.e[k].u==ed[i+1]))f=k; if(f<0)return 4;u[f]++;} if(!okset(g,u,s,want))return 3;}
    if(kind==2){decode_detection_events_to_match_edges(m,d); if(want>=INF)return 1; uint32_t seen=0;long t=0;for(auto&me:m.flooder.match_edges){int a=me.loc_from-&m.flooder.graph.nodes[0];int b=me.loc_to?me.loc_to-&m.flooder.graph.nodes[0]:g.n; if(seen>>a&1)return 5;seen|=1u<<a; if(b<g.n){if(seen>>b&1)return 5;seen|=1u<<b;} t+=D[a][b];} if(seen!=s)return 6;if(t!=want)return 7;}
    if(kind==3){std::vector<uint8_t> b(nobs,0);total_weight_int w=0;decode_detection_events(m,d,b.data(),w,false); if(want>=INF)return 1;if(w!=want)return 2;std::vector<int>u(g.e.size());for(size_t i=0;i<u.size();i++)u[i]=b[i];if(!okset(g,u,s,want))return 3;}
  }catch(std::invalid_argument&){return want>=INF?0:8;}
  return 0;
}
int ff_main(int argc,char**argv){
  std::mt19937 r(atoi(argv[1])); double secs=atof(argv[2]); auto t0=std::chrono::steady_clock::now(); long it=0; std::map<std::string,std::pair<int,std::string>> best; long bad=0;
  struct sigaction sa{}; sa.sa_handler=onal; sa.sa_flags=SA_NODEFER; sigaction(SIGALRM,&sa,0); sigaction(SIGSEGV,&sa,0); sigaction(SIGABRT,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGILL,&sa,0); sigaction(SIGBUS,&sa,0);
  while(true){ it++; if(it%64==0&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs)break; if(bad>400)break;
    I g; g.n=3+r()%8; int wmax=r()%3==0?2:r()%2?6:20; int want_e=g.n-1+r()%6; std::set<std::pair<int,int>> have; bool neg=r()%5==0;
    for(int i=0;i<want_e*2&&(int)g.e.size()<want_e;i++){int u=r()%g.n,v=(int)(r()%g.n); if(r()%8==0)v=-1; if(u==v)continue; if(v>=0&&u>v)std::swap(u,v); if(!have.insert({u,v}).second)continue; int w=(int)(r()%(wmax+1))*2; if(neg&&r()%3==0)w=-w; g.e.push_back({u,v,w});}
    uint32_t full=(1u<<g.n)-1; auto pick=[&]{uint32_t s=r()%3==0?full:0; if(!s)for(int i=0;i<g.n;i++)if(r()%10<8)s|=1u<<i; return s;};
    int nobs=r()%3==0?70:(int)g.e.size(); Mwpm*m=nullptr; int shots=1+r()%3; std::string hist; I cur=g; int code=0,kind=0;
    volatile int vcode=0; int j=sigsetjmp(jb,1);
    if(j==0){ ualarm(300000,0); m=mk(g,nobs); 
      for(int k=0;k<shots;k++){ uint32_t s=pick(); std::vector<uint64_t>d; for(int i=0;i<g.n;i++)if(s>>i&1)d.push_back(i); for(size_t i=d.size();i>1;i--)std::swap(d[i-1],d[r()%i]);
        std::vector<std::vector<long>>D; long w=solve(g,s,&D); kind=r()%4; if(kind==0&&nobs>64)kind=3; if(kind==2&&neg)kind=1;
        hist+=" k"+std::to_string(kind)+":"; for(auto x:d)hist+=std::to_string(x)+","; code=one(*m,g,nobs,kind,d,s,w,D); if(code)break; }
      ualarm(0,0); delete m; }
    else { ualarm(0,0); code=j==1?9:10; }
    if(code){bad++; char buf[64]; int shots_used=0; for(char c:hist)shots_used+=c=='k'; snprintf(buf,64,"%s%s%s%d",shots_used>1?"hist ":"",neg?"neg ":"",nobs>64?"many ":"",code); 
      std::string t="n="+std::to_string(g.n)+" nobs="+std::to_string(nobs)+" edges="; for(auto&e:g.e)t+="("+std::to_string(e.u)+","+std::to_string(e.v)+","+std::to_string(e.w/2)+")"; t+=hist; int key=g.e.size()*100+hist.size(); std::string cat=buf; if(!best.count(cat)||best[cat].first>key)best[cat]={key,t}; }
  }
  printf("ITER %ld BAD %ld\n",it,bad); for(auto&x:best)printf("F [%s] %s\n",x.first.c_str(),x.second.second.c_str());
  fflush(stdout); _exit(bad?1:0);
}
#include <set>
#include <string>
#include <algorithm>
#include "pymatching/sparse_blossom/matcher/mwpm.h"
static int depth(const GraphFillRegion*r){int d=0;for(auto&c:r->blossom_children)d=std::max(d,1+depth(c.region));return d;}
static int tsize(const AltTreeNode*t){int s=1;for(auto&c:t->children)s+=tsize(c.alt_tree_node);return s;}
static int up(const AltTreeNode*t){int s=0;while(t->parent.alt_tree_node){t=t->parent.alt_tree_node;s++;}return s;}
static int cap(int x,int m){return x<m?x:m;}
static int dgood(const GraphFillRegion*r){return cap(depth(r),4);}
static std::string S(std::initializer_list<int> l){std::string o;for(int x:l)o+=std::to_string(x)+",";return o;}
static bool feats(const I&g,const std::vector<uint64_t>&d,std::set<std::string>&F){
  Mwpm*m=mk(g,(int)g.e.size()); m->flooder.queue.cur_time=0;
  if(!m->flooder.negative_weight_detection_events.empty()){delete m;return false;}
  for(auto x:d)m->create_detection_event(&m->flooder.graph.nodes[x]);
  while(true){auto e=m->flooder.run_until_next_mwpm_notification(); if(e.event_type==NO_EVENT)break;
    if(e.event_type==REGION_HIT_REGION){auto&x=e.region_hit_region_event_data; auto a=x.region1,b=x.region2; auto A=a->alt_tree_node,B=b->alt_tree_node; 
      // depth at the nodes that touched: nesting below the top region
      bool fa=!A,fb=!B; int da=dgood(a),db=dgood(b); bool impl=(A&&A->inner_region==a)||(B&&B->inner_region==b);
      if(A&&B){AltTreeNode*c=nullptr; {std::set<AltTreeNode*> an; for(auto t=A;t;t=t->parent.alt_tree_node)an.insert(t); for(auto t=B;t;t=t->parent.alt_tree_node)if(an.count(t)){c=t;break;}} if(c){int la=0,lb=0;for(auto t=A;t!=c;t=t->parent.alt_tree_node)la++;for(auto t=B;t!=c;t=t->parent.alt_tree_node)lb++; int mx=0,cnt=0; for(auto t=A;t!=c;t=t->parent.alt_tree_node){if(depth(t->outer_region))cnt++;if(depth(t->inner_region))cnt++;mx=std::max({mx,depth(t->outer_region),depth(t->inner_region)});} for(auto t=B;t!=c;t=t->parent.alt_tree_node){if(depth(t->outer_region))cnt++;if(depth(t->inner_region))cnt++;mx=std::max({mx,depth(t->outer_region),depth(t->inner_region)});} mx=std::max(mx,depth(c->outer_region));
          F.insert("B"+S({cap(la,2),cap(lb,2),cap(mx,4),cap(cnt,2),c->parent.alt_tree_node?1:0,dgood(c->outer_region)>0}));}
        else F.insert("T"+S({std::max(da,db),std::min(da,db),cap(std::max(up(A),up(B)),2),cap(std::min(up(A),up(B)),1),cap(tsize(A)+tsize(B)-2,4)}));}
      else {auto f=fa?a:b; auto t=fa?b:a; auto T=fa?B:A; F.insert("M"+S({f->match.region?1:0,dgood(f),dgood(t),f->match.region?dgood(f->match.region):-1,cap(up(T),2),cap((int)T->children.size(),2)}));}
      (void)impl;
    } else if(e.event_type==REGION_HIT_BOUNDARY){auto r=e.region_hit_boundary_event_data.region; auto T=r->alt_tree_node; auto root=T;while(root->parent.alt_tree_node)root=root->parent.alt_tree_node; F.insert("H"+S({dgood(r),cap(up(T),2),cap(tsize(root),4)}));}
    else if(e.event_type==BLOSSOM_SHATTER){auto&x=e.blossom_shatter_event_data; auto r=x.blossom_region; int n=r->blossom_children.size(),pi=0,ci=0;for(int i=0;i<n;i++){if(r->blossom_children[i].region==x.in_parent_region)pi=i;if(r->blossom_children[i].region==x.in_child_region)ci=i;} int gap=((ci+n-pi)%n);
      auto kid=[&](int i){return depth(r->blossom_children[((i%n)+n)%n].region);};
      int evmx=0,pathmx=0; std::set<int> path; if(gap%2==0){for(int i=pi;i<=pi+gap;i++)path.insert(i%n);}else{for(int i=0;i<=n-gap;i++)path.insert((pi+n-i)%n);} for(int i=0;i<n;i++){if(path.count(i))pathmx=std::max(pathmx,kid(i));else evmx=std::max(evmx,kid(i));}
      F.insert("S"+S({cap(n,7),gap}));F.insert("U"+S({cap(n,5),gap%2,gap==0,cap(evmx,3),cap(pathmx,3)}));F.insert("V"+S({dgood(r),cap(kid(pi),3),cap(kid(ci),3),gap==0?0:gap%2?1:2,(int)r->alt_tree_node->parent.alt_tree_node->children.size()>1?1:0}));}
    m->process_event(e);
  }
  // final shape
  for(auto x:d){auto r=m->flooder.graph.nodes[x].region_that_arrived_top; if(!r)continue; F.insert("Z"+S({dgood(r),r->match.region?dgood(r->match.region):-1,cap((int)r->blossom_children.size(),7)})); int nd=0;for(auto&c:r->blossom_children)if(depth(c.region))nd++; F.insert("Y"+S({cap((int)r->blossom_children.size(),5),cap(nd,3),dgood(r)}));}
  m->reset(); // leak is fine
  return true;
}
int main(int argc,char**argv){ std::mt19937 r(atoi(argv[1])); double secs=atof(argv[2]); int N0=atoi(argv[3]),N1=atoi(argv[4]); auto t0=std::chrono::steady_clock::now(); std::map<std::string,std::pair<int,std::vector<std::pair<int,std::string>>>> best; long it=0;
  while(true){ it++; if(it%64==0&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs)break;
    I g; g.n=N0+r()%(N1-N0+1); int wmax=r()%3==0?2:r()%2?6:20; int want_e=g.n+r()%(g.n+3); if(want_e>40)want_e=40; std::set<std::pair<int,int>> have;
    for(int i=0;i<want_e*2&&(int)g.e.size()<want_e;i++){int u=r()%g.n,v=(int)(r()%g.n); if(r()%12==0)v=-1; if(u==v)continue; if(v>=0&&u>v)std::swap(u,v); if(!have.insert({u,v}).second)continue; int w=(int)(r()%(wmax+1))*2; g.e.push_back({u,v,w});}
    uint32_t s=0; if(r()%2)s=(1u<<g.n)-1; else for(int i=0;i<g.n;i++)if(r()%10<8)s|=1u<<i;
    std::vector<uint64_t>d; for(int i=0;i<g.n;i++)if(s>>i&1)d.push_back(i); for(size_t i=d.size();i>1;i--)std::swap(d[i-1],d[r()%i]);
    std::set<std::string> F; if(solve(g,s)>=INF)continue; if(!feats(g,d,F))continue;
    std::string t; int key=(int)g.e.size()*10+g.n; bool need=false; for(auto&f:F){auto&b=best[f]; b.first++; if(b.second.size()<4||b.second.back().first>key)need=true;}
    if(!need)continue;
    t=std::to_string(g.n)+" "+std::to_string(g.e.size()); for(auto&e:g.e)t+=" "+std::to_string(e.u)+" "+std::to_string(e.v)+" "+std::to_string(e.w); t+=" "+std::to_string(d.size()); for(auto x:d)t+=" "+std::to_string(x); t+=" |"; for(auto&f:F)t+=" "+f;
    for(auto&f:F){auto&b=best[f].second; b.push_back({key,t}); std::sort(b.begin(),b.end()); if(b.size()>4)b.pop_back();}
  }
  fprintf(stderr,"iter %ld feats %zu\n",it,best.size()); std::set<std::string> out; for(auto&x:best)for(auto&y:x.second.second)out.insert(y.second); for(auto&o:out)puts(o.c_str()); fflush(stdout); _exit(0);}
