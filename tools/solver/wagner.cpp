// Development tool: finds Equihash and BeamHash III solutions and
// near-solutions (one collision bit ignored) for the fixtures.
// usage: wagner <n> <k> <twist> <person> <headerhex> <level|0> <bit> [max]
//        wagner beam 5 0 Beam-PoW <headerhex+extra nonce hex> <level|0> <bit>
// level l in 1..k+1 (group l) has `bit' of its collision mask cleared.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <set>
#include <string>
#include <thread>
#include <vector>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
static const u64 IV[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const u8 SG[12][16]={{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static inline u64 rotr(u64 x,int n){return x>>n|x<<(64-n);}
static inline u64 rotl(u64 x,int n){return n?x<<n|x>>(64-n):x;}
static void blake(const u8*in,size_t len,const u8*person,int outlen,u8*out){
  u64 h[8]; u8 P[64]={0}; P[0]=outlen;P[2]=1;P[3]=1; memcpy(P+48,person,16);
  for(int i=0;i<8;i++){u64 p;memcpy(&p,P+8*i,8);h[i]=IV[i]^p;}
  size_t off=0; for(;;){ u8 b[128]={0}; size_t n=std::min<size_t>(128,len-off); memcpy(b,in+off,n); off+=n; bool last=off>=len;
    u64 m[16],v[16];memcpy(m,b,128);for(int i=0;i<8;i++){v[i]=h[i];v[i+8]=IV[i];} v[12]^=off; if(last)v[14]=~v[14];
    for(int r=0;r<12;r++){
#define G(a,b,c,d,x,y) a+=b+x;d=rotr(d^a,32);c+=d;b=rotr(b^c,24);a+=b+y;d=rotr(d^a,16);c+=d;b=rotr(b^c,63);
      const u8*s=SG[r];
      G(v[0],v[4],v[8],v[12],m[s[0]],m[s[1]])G(v[1],v[5],v[9],v[13],m[s[2]],m[s[3]])G(v[2],v[6],v[10],v[14],m[s[4]],m[s[5]])G(v[3],v[7],v[11],v[15],m[s[6]],m[s[7]])
      G(v[0],v[5],v[10],v[15],m[s[8]],m[s[9]])G(v[1],v[6],v[11],v[12],m[s[10]],m[s[11]])G(v[2],v[7],v[8],v[13],m[s[12]],m[s[13]])G(v[3],v[4],v[9],v[14],m[s[14]],m[s[15]])}
    for(int i=0;i<8;i++)h[i]^=v[i]^v[i+8]; if(last)break;}
  u8 o[64];memcpy(o,h,64);memcpy(out,o,outlen);}
static void par(u64 n,u64 al,auto f){int T=8;std::vector<std::thread>t;u64 st=((n/T)/al+1)*al;for(int i=0;i<T;i++){u64 a=std::min(n,i*st),b=std::min(n,a+st);t.emplace_back([=]{f(a,b);});}for(auto&x:t)x.join();}
static void hex(const char*s,std::vector<u8>&o){for(;s[0]&&s[1];s+=2){unsigned x;sscanf(s,"%2x",&x);o.push_back(x);}}
static bool beam; static u32 n,k,c; static bool twist; static u8 person[16]; static std::vector<u8> header; static int mlev,mbit;
template<int W> struct Bits{u64 w[W];};
template<int W> static Bits<W> xr(const Bits<W>&a,const Bits<W>&b){Bits<W> r;for(int i=0;i<W;i++)r.w[i]=a.w[i]^b.w[i];return r;}
template<int W> static void shr(Bits<W>&a,int s){for(int i=0;i<W;i++)a.w[i]=a.w[i]>>s|(i+1<W?a.w[i+1]<<(64-s):0);}
static u64 pre[4];
static u64 sip(u64 x){u64 a=pre[0],b=pre[1],c=pre[2],d=pre[3];
#define R a+=b;b=rotl(b,13);b^=a;a=rotl(a,32);c+=d;d=rotl(d,16);d^=c;a+=d;d=rotl(d,21);d^=a;c+=b;b=rotl(b,17);b^=c;c=rotl(c,32);
  d^=x;R R a^=x;c^=0xff;R R R R return a^b^c^d;}
template<int W> struct Solver{
  typedef Bits<W> B; std::vector<B> cur; std::vector<std::vector<std::pair<u32,u32>>> pairs; std::vector<u32> first;
  void leaves(int l,u32 i,std::vector<u32>&o,size_t max){ if(o.size()>=max)return; if(l==0){o.push_back(i);return;} auto p=pairs[l-1][i]; leaves(l-1,p.first,o,max); leaves(l-1,p.second,o,max);}
  void mix(int l){ int rem=448-(l-1)*24-(l==5?64:0); int want=(512-rem+24)/25, pad=std::min(want,1<<(l-1));
    par(cur.size(),1,[this,l,rem,pad](u64 a,u64 b){std::vector<u32> ix;for(u64 i=a;i<b;i++){ix.clear();leaves(l-1,i,ix,pad);
      u64 t[9]={0};for(int j=0;j<7;j++)t[j]=cur[i].w[j];
      for(int j=0;j<pad;j++){int p=rem+j*25;if(p>=512)break;t[p/64]|=(u64)ix[j]<<(p%64);if(p%64>39)t[p/64+1]|=(u64)ix[j]>>(64-p%64);}
      u64 s=0;for(int j=0;j<8;j++)s+=rotl(t[j],(29*(j+1))&63);cur[i].w[0]=rotl(s,24);}});}
  void go(size_t max){
    u64 N=beam?1ull<<25:1ull<<(c+1); cur.resize(N);first.resize(N);
    if(beam) par(N,1,[this](u64 a,u64 b){for(u64 i=a;i<b;i++){for(int j=0;j<7;j++)cur[i].w[j]=sip((i<<3)+j);}});
    else {u32 per=512/n,bp=(n+7)/8; par(N,16*per,[=,this](u64 a,u64 b){std::vector<u8> in=header;in.resize(header.size()+4);u32 acc[16];u8 h[64];
      for(u64 g=a/per;g*per<b;g++){u32 gg=g;memcpy(&in[header.size()],&gg,4);blake(in.data(),in.size(),person,per*bp,h);
        if(twist){if(g%16==0)memset(acc,0,64);u32 w[16];memcpy(w,h,64);for(int i=0;i<16;i++){acc[i]+=w[i];}memcpy(h,acc,64);for(u32 j=15;j<per*bp;j+=16)h[j]&=0xf8;}
        for(u32 s=0;s<per&&g*per+s<b;s++){B x={};for(u32 bit=0;bit<(k+1)*c;bit++){u32 v=h[s*bp+bit/8]>>(7-bit%8)&1;u32 l=bit/c,pos=l*c+(c-1-bit%c);x.w[pos/64]|=(u64)v<<(pos%64);}cur[g*per+s]=x;}}});}
    for(u64 i=0;i<N;i++)first[i]=i;
    std::set<std::vector<u32>> sols;
    u32 full=(1u<<c)-1; 
    for(u32 l=1;l<=k;l++){
      if(beam)mix(l);
      u32 m=full,m2=full; if((int)l==mlev)m&=~(1u<<mbit); if((int)(k+1)==mlev)m2&=~(1u<<mbit);
      u64 M=cur.size(); std::vector<u32> cnt((1ull<<c)+1),ord(M);
      for(u64 i=0;i<M;i++)cnt[(cur[i].w[0]&m)+1]++; for(u64 i=0;i<(1ull<<c);i++)cnt[i+1]+=cnt[i];
      {std::vector<u32> at(cnt.begin(),cnt.end()-1);for(u64 i=0;i<M;i++)ord[at[cur[i].w[0]&m]++]=i;}
      bool last=l==k; u64 cap=last?0:N+N/4; std::vector<B> nx;std::vector<u32> nf;std::vector<std::pair<u32,u32>> np; nx.reserve(cap);nf.reserve(cap);np.reserve(cap);
      int outb=beam?(l==5?24:448-l*24-(l==4?64:0)):0;
      for(u64 key=0;key<(1ull<<c);key++)for(u32 x=cnt[key];x<cnt[key+1];x++)for(u32 y=x+1;y<cnt[key+1];y++){
        u32 a=ord[x],b=ord[y]; if(first[a]==first[b])continue; if(first[a]>first[b])std::swap(a,b);
        if(!last&&np.size()>=cap)goto done;
        if(l>1){auto p=pairs[l-2][a],q=pairs[l-2][b];if(p.second==q.second||p.first==q.first||p.first==q.second||p.second==q.first)continue;}
        B v=xr<W>(cur[a],cur[b]);shr<W>(v,c); if(beam){for(int j=0;j<W;j++){int lo=j*64;if(outb<=lo)v.w[j]=0;else if(outb<lo+64)v.w[j]&=(1ull<<(outb-lo))-1;}}
        if(last){u64 r=(v.w[0]&m2);if(r)continue; std::vector<u32> ix;leaves(l-1,a,ix,1<<20);leaves(l-1,b,ix,1<<20);
          std::set<u32> d(ix.begin(),ix.end()); if(d.size()!=ix.size()&&sols.size()>=max)continue; if(sols.size()<max&&d.size()==ix.size())sols.insert(ix);continue;}
        np.push_back({a,b});nf.push_back(first[a]);nx.push_back(v);}
      done:
      fprintf(stderr,"level %u: %zu -> %zu\n",l,(size_t)M,np.size());
      cur.swap(nx);first.swap(nf);pairs.push_back(std::move(np));
    }
    for(auto&s:sols){for(size_t i=0;i<s.size();i++)printf("%u%c",s[i],i+1<s.size()?' ':'\n');}
  }
};
int main(int argc,char**argv){
  beam=!strcmp(argv[1],"beam"); n=beam?448:atoi(argv[1]);k=atoi(argv[2]);twist=atoi(argv[3]);c=beam?24:n/(k+1);
  strncpy((char*)person,argv[4],8);memcpy(person+8,&n,4);memcpy(person+12,&k,4);hex(argv[5],header);mlev=atoi(argv[6]);mbit=atoi(argv[7]);size_t max=argc>8?atoi(argv[8]):2;
  if(beam){u8 h[32];blake(header.data(),header.size(),person,32,h);memcpy(pre,h,32);Solver<7>().go(max);}else Solver<4>().go(max);
}
