// C39: which strings count as numbers, and splitting strings at a delimiter, for every string up to a length.
#include "strs.h"
#include "utils/StringUtils.h"
#include "utils/Misc.h"
typedef std::string S;
static bool dig(unsigned char c){ return (c>='0')&(c<='9'); } static bool sg(unsigned char c){ return (c=='+')|(c=='-'); } static bool ee(unsigned char c){ return (c=='e')|(c=='E'); }
// oracle: automata over flags, no branching on the characters
static bool isInt(const S&s){ bool st=true,sn=false,dg=false; for(size_t i=0;i<s.size();i++){ unsigned char c=s[i]; bool nd=(st|sn|dg)&dig(c); sn=st&sg(c); dg=nd; st=false; } return dg; }
// sign? (digits [. digits*] | . digits) [eE sign? digits]
static bool isFlt(const S&s){ bool st=true,sn=false,ip=false,dt=false,fp=false,pt=false,ex=false,es=false,ed=false; // start, sign, integer part, dot after digits, fraction, leading dot, e, exponent sign, exponent digits
  for(size_t i=0;i<s.size();i++){ unsigned char c=s[i]; bool d=dig(c),p=c=='.',q=sg(c),e=ee(c); bool ip2=(st|sn|ip)&d,dt2=ip&p,fp2=(dt|fp|pt)&d,pt2=(st|sn)&p,ex2=(ip|dt|fp)&e,es2=ex&q,ed2=(ex|es|ed)&d,sn2=st&q; st=false; sn=sn2; ip=ip2; dt=dt2; fp=fp2; pt=pt2; ex=ex2; es=es2; ed=ed2; } return ip|dt|fp|ed; }
extern "C" void symx_main(){ long k=symx_param_(0); int n=sx::conc(symx_param_(1)); S s; for(int i=0;i<n;i++) s.push_back((char)sx::u8("c"));
  if(k==0) sx::check(is_int(s)==isInt(s),"is_int"); if(k==1) sx::check(is_float(s)==isFlt(s),"is_float");
  if(k==2){ char d=(char)sx::u8("delim"); bool ne=symx_param_(2); for(int i=0;i<n;i++) (void)0; std::vector<S> r; r.push_back("old"); auto&ret=split(r,s,d,ne?split::no_empties:split::empties_ok); sx::check(&ret==&r,"result"); std::vector<S> w; S cur; for(int i=0;i<n;i++){ if(s[i]==d){ w.push_back(cur); cur.clear(); } else cur.push_back(s[i]); } w.push_back(cur); if(ne){ std::vector<S> v; for(auto&x:w) if(!x.empty()) v.push_back(x); w=v; }
    sx::check(r.size()==w.size(),"fields"); for(size_t i=0;i<w.size();i++) sx::check(r[i]==w[i],"fields"); }
  sx::reach("end"); }
