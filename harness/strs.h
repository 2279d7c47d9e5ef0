// Stand-ins for the parts of the C++ library that only exist compiled (locales): string streams and regular expressions, with the documented behaviour.
#pragma once
#include "common.h"
#include <regex>
#include <cstring>
#include <map>
#include <algorithm>
#include <functional>
namespace std {
struct sx_stringstream { string s; size_t p=0; bool e=false; sx_stringstream(){} explicit sx_stringstream(const string&x):s(x){} string str()const{ return s; } bool eof()const{ return e; } 
  sx_stringstream&operator<<(const string&x){ s+=x; return *this; } sx_stringstream&operator<<(const char*x){ s+=x; return *this; } sx_stringstream&operator<<(char x){ s.push_back(x); return *this; }
  sx_stringstream&operator<<(unsigned long v){ char b[24]; int n=0; do { b[n++]=(char)('0'+v%10); v/=10; } while(v); while(n) s.push_back(b[--n]); return *this; } sx_stringstream&operator<<(unsigned v){ return *this<<(unsigned long)v; }
  sx_stringstream&operator<<(long v){ if(v<0){ s.push_back('-'); return *this<<(0ul-(unsigned long)v); } return *this<<(unsigned long)v; } sx_stringstream&operator<<(int v){ return *this<<(long)v; } sx_stringstream&operator<<(bool v){ return *this<<(unsigned long)v; }
  static bool sp(char c){ return (c==' ')|((c>='\t')&(c<='\r')); } void skip(){ while(p<s.size()&&sp(s[p])) p++; }
  sx_stringstream&operator>>(string&x){ skip(); x.clear(); while(p<s.size()&&!sp(s[p])) x.push_back(s[p++]); if(p>=s.size()) e=true; return *this; }
  sx_stringstream&operator>>(unsigned long&v){ skip(); v=0; while(p<s.size()&&s[p]>='0'&&s[p]<='9') v=v*10+(s[p++]-'0'); if(p>=s.size()) e=true; return *this; }
  sx_stringstream&operator>>(long&v){ skip(); bool n=false; if(p<s.size()&&s[p]=='-'){ n=true; p++; } unsigned long u; *this>>u; v=n?-(long)u:(long)u; return *this; } sx_stringstream&operator>>(int&v){ long l; *this>>l; v=(int)l; return *this; } sx_stringstream&operator>>(unsigned&v){ unsigned long l; *this>>l; v=(unsigned)l; return *this; } };
inline sx_stringstream&getline(sx_stringstream&f,string&o,char d){ o.clear(); while(f.p<f.s.size()&&f.s[f.p]!=d) o.push_back(f.s[f.p++]); if(f.p<f.s.size()) f.p++; else f.e=true; return f; }
// ECMAScript regular expressions: characters, escapes (\. \d \s \w ...), classes, groups, alternation, * + ? {n} {n,} {n,m}, '.', ^ and $; whole-string match by backtracking
struct sx_regex { struct N { int t; int a=-1,b=-1; bool cls[256]; int lo=0,hi=-1; }; vector<N> n; int root; string re; size_t p=0; // t: 0 class 1 seq 2 alt 3 repeat 4 empty 5 start 6 end
  int mk(int t,int a=-1,int b=-1){ N x; x.t=t; x.a=a; x.b=b; memset(x.cls,0,256); n.push_back(x); return (int)n.size()-1; }
  static void esc(char c,bool*s){ bool neg=c=='D'||c=='S'||c=='W'; char k=neg?c+32:c; bool t[256]; memset(t,0,256); if(k=='d') for(int i='0';i<='9';i++) t[i]=true; else if(k=='s'){ for(int i=9;i<=13;i++) t[i]=true; t[' ']=true; } else if(k=='w'){ for(int i=0;i<128;i++) t[i]=(i>='0'&&i<='9')||(i>='a'&&i<='z')||(i>='A'&&i<='Z')||i=='_'; } else if(k=='t') t[9]=true; else if(k=='n') t[10]=true; else if(k=='r') t[13]=true; else t[(unsigned char)c]=true; for(int i=0;i<256;i++) s[i]|=t[i]!=neg; }
  int atom(){ char c=re[p++]; if(c=='('){ if(re[p]=='?'&&re[p+1]==':') p+=2; int x=alt(); p++; return x; } if(c=='^') return mk(5); if(c=='$') return mk(6); int x=mk(0); bool*s=n[x].cls; if(c=='.'){ for(int i=0;i<256;i++) s[i]=i!='\n'&&i!='\r'; return x; } if(c=='\\'){ esc(re[p++],s); return x; }
    if(c=='['){ bool neg=re[p]=='^'; if(neg) p++; while(re[p]!=']'){ if(re[p]=='['&&re[p+1]==':'){ size_t q=re.find(":]",p); string k=re.substr(p+2,q-p-2); if(k=="digit") esc('d',s); else if(k=="space") esc('s',s); else if(k=="alnum"){ esc('w',s); s['_']=false; } else { for(int i='a';i<='z';i++) s[i]=s[i-32]=true; } p=q+2; continue; } if(re[p]=='\\'){ esc(re[p+1],s); p+=2; continue; } unsigned char a=re[p++]; if(re[p]=='-'&&re[p+1]!=']'){ unsigned char b=re[p+1]; p+=2; for(int i=a;i<=b;i++) s[i]=true; } else s[a]=true; } p++; if(neg) for(int i=0;i<256;i++) s[i]=!s[i]; return x; }
    s[(unsigned char)c]=true; return x; }
  int rep(){ int x=atom(); while(p<re.size()){ int lo,hi; if(re[p]=='*'){ lo=0; hi=-1; p++; } else if(re[p]=='+'){ lo=1; hi=-1; p++; } else if(re[p]=='?'){ lo=0; hi=1; p++; } else if(re[p]=='{'){ p++; lo=0; while(re[p]>='0'&&re[p]<='9') lo=lo*10+re[p++]-'0'; hi=lo; if(re[p]==','){ p++; hi=-1; if(re[p]!='}'){ hi=0; while(re[p]>='0'&&re[p]<='9') hi=hi*10+re[p++]-'0'; } } p++; } else break; if(p<re.size()&&re[p]=='?') p++; int r=mk(3,x); n[r].lo=lo; n[r].hi=hi; x=r; } return x; }
  int seq(){ int x=mk(4); while(p<re.size()&&re[p]!='|'&&re[p]!=')'){ int y=rep(); x=mk(1,x,y); } return x; }
  int alt(){ int x=seq(); while(p<re.size()&&re[p]=='|'){ p++; int y=seq(); x=mk(2,x,y); } return x; }
  explicit sx_regex(const char*r):re(r){ root=alt(); } explicit sx_regex(const string&r):re(r){ root=alt(); }
  // set of end positions reachable from a set of start positions, as flags: no forking on the text
  typedef array<bool,32> P; 
  P run(int i,const string&s,P at)const{ const N&x=n[i]; size_t L=s.size(); P o{}; if(x.t==4) return at; if(x.t==5){ o[0]=at[0]; return o; } if(x.t==6){ o[L]=at[L]; return o; }
    if(x.t==0){ for(size_t k=0;k<L;k++){ unsigned char c=(unsigned char)s[k]; bool in=false; for(int j=0;j<256;){ if(!x.cls[j]){ j++; continue; } int e=j; while(e<255&&x.cls[e+1]) e++; in|=(c>=j)&(c<=e); j=e+1; } o[k+1]=at[k]&in; } return o; }
    if(x.t==1) return run(x.b,s,run(x.a,s,at)); if(x.t==2){ P a=run(x.a,s,at),b=run(x.b,s,at); for(size_t k=0;k<=L;k++) a[k]=a[k]|b[k]; return a; }
    P cur=at; for(int k=0;k<x.lo;k++) cur=run(x.a,s,cur); o=cur; int more=x.hi<0?(int)L:x.hi-x.lo; for(int k=0;k<more;k++){ cur=run(x.a,s,cur); for(size_t q=0;q<=L;q++) o[q]=o[q]|cur[q]; } return o; }
  bool all(const string&s)const{ P a{}; a[0]=true; return run(root,s,a)[s.size()]; } };
inline bool sx_regex_match(const string&s,const sx_regex&r){ return r.all(s); } inline bool sx_regex_match(const char*s,const sx_regex&r){ return r.all(s); }
}
#define stringstream sx_stringstream
#define istringstream sx_stringstream
#define ostringstream sx_stringstream
#define regex sx_regex
#define regex_match sx_regex_match
