#include "dsp/tempotracking/TempoTrack.h"
#include <cstdio>
#include <cmath>
#include <cstdlib>
int main(){ double a[]={1.0000,-0.5949,0.2348},b[]={0.16,0.32,0.16};
 for(int P=12;P<=110;P++){ double mo=1,mp=1; int strictbad=0,cnt=0, maxph=0; int hist[8]={0}; double tmin=1e9,tmax=0;
  for(int off=0;off<P;off+=7) for(int k=12;k<=20;k+=4){ int n=512+128*k; std::vector<double> d(n,0.0); for(int i=off;i<n;i+=P)d[i]=1;
   TTParams p;p.winLength=512;p.lagLength=128;p.alpha=9;p.LPOrd=2;p.LPACoeffs=a;p.LPBCoeffs=b;p.WinT.pre=8;p.WinT.post=7;
   TempoTrack t(p); std::vector<double> te; auto bt=t.process(d,&te); int ok=0,tot=0,on=0; 
   for(size_t i=1;i<bt.size();i++) if(bt[i]>=1024&&bt[i]<n-640){ int g=bt[i]-bt[i-1];tot++; double best=1e9; for(double kk:{1.,2.,.5,3.,1/3.,1.5,2/3.}) best=std::min(best,std::fabs(g-kk*P)); if(best<=2.01)ok++; if(std::fabs(g-P)>1.01&&std::fabs(g-2*P)>1.01&&std::fabs(g-.5*P)>1.01)strictbad++; cnt++;
     int ph=((bt[i]-off)%P+P)%P; ph=std::min(ph,P-ph); if(ph<=2)on++; if(ph<7)hist[ph]++; else hist[7]++; }
   for(size_t i=8;i<te.size()-5;i++){double x=te[i]*P/5168; tmin=std::min(tmin,x);tmax=std::max(tmax,x);}
   mo=std::min(mo,double(ok)/tot); mp=std::min(mp,double(on)/tot);} 
  printf("P %d minok %.2f minon %.2f strictbad %d/%d tempo ratio %.3f..%.3f ph",P,mo,mp,strictbad,cnt,tmin,tmax); for(int h:hist)printf(" %d",h); puts("");}
}
