// Uncertainty handling: one generation through ask/eval/tell with first and second values symbolic.
#include "run.h"
template<class G,class U> static void go(){
  CMAParameters<G> p=mkparams<G>(); p.set_uh(true); int rl=PAR("reev",0); if(rl) p._rlambda=rl/(double)L; int a=PAR("algo",0); if(a==6||a==9) p.set_sep(); if(a==12) p.set_vd();
  FitFunc f=obj; int g=PAR("warm",0), off=PAR("wlo",0), wn=PAR("wn",6); wlo=1<<28; double sg[2]; std::vector<double> keep; std::vector<int> ord[2]; double s=0; int n=L;
  for(int r=0;r<2;r++){
    reset_records(); if(r){ replay=keep; replaying=1; }
    CMAStrategy<U,G> st(f,p); int base=0; dVec m0; double s0=0; int k=0;
    for(int i=0;i<=g;i++){
      base=F.size(); if(i==g&&!r){ wlo=base+off; whi=wlo+wn; } if(i==g&&r) st._parameters._alphathuh=1.0;
      dMat c=st.ask(), ph=PAR("gp",0)||PAR("tf",0)?p.get_gp().pheno(c):c; m0=st._solutions._xmean; s0=st._solutions._sigma; int nv0=st._solutions._nevals; st.eval(c,ph); k=(int)F.size()-base-n;
      double want=p._rlambda*n; sym_assert(k>=1&&(std::fabs(k-want)<1-1e-9||want<1),"as many candidates are evaluated again as the given fraction says"); sym_assert(st._solutions._nevals-nv0==n+k,"both evaluations are counted");
      for(int j=0;j<k;j++) for(int d=0;d<D;d++){ double dist=0; dist=std::fabs(X[base+n+j](d)-X[base+j](d)); double sc=(PAR("gp",0)==3||PAR("gp",0)==2?(PAR("gp",0)==2?UB[d]-LB[d]:20.0):1.0)*(PAR("tf",0)?2.0:1.0)*s0; dMat C=st._solutions.full_cov(); if(a<12) sym_assert(dist<=1e-6*(1e-3+sc*std::sqrt(C(d,d))*20),"a second evaluation is made next to the first point"); }
      if(i==g){
        std::vector<double> f1(n),f2(n); for(int j=0;j<n;j++){ f1[j]=sgn()*F[base+j]; f2[j]=j<k?sgn()*F[base+n+j]:f1[j]; }
        for(int x=0;x<n;x++) for(int y=0;y<x;y++){ sym_assume(f1[x]!=f1[y]); sym_assume(f2[x]!=f2[y]); } // without ties in the values, ranks are unique
        std::vector<dVec> cx(n); for(int j=0;j<n;j++) cx[j]=c.col(j);
        st.tell();
        std::vector<int> r1(n,0),r2(n,0),sum(n); for(int x=0;x<n;x++){ for(int y=0;y<n;y++){ if(f1[y]<f1[x]) r1[x]++; if(f2[y]<f2[x]) r2[x]++; } sum[x]=r1[x]+r2[x]; }
        // measured uncertainty: rank changes of the re-evaluated candidates beyond what theta admits
        s=0; for(int x=0;x<k;x++){ int df=r2[x]-r1[x], de=df-(df>0)+(df<0); s+=2*std::abs(de);
          for(int h=0;h<2;h++){ int q=h?r1[x]-(r1[x]>r2[x]):r2[x]-(r2[x]>r1[x]); std::vector<int> v; for(int j=1;j<2*n;j++) v.push_back(std::abs(j-q)); std::sort(v.begin(),v.end()); s-=v[(int)(v.size()*0.1)]; } }
        std::vector<int> seen(n,0); std::vector<int> o; CMASolutions &so=st._solutions;
        sym_assert(so.size()==n,"the population keeps its size");
        for(int j=0;j<n;j++){ const Candidate &cd=so._candidates.at(j); int x=-1; for(int t=0;t<n;t++) if(!seen[t]&&same(cx[t],cd.get_x_dvec())){ x=t; break; } sym_assert(x>=0,"the ranked population consists of the sampled points"); if(x<0) return; seen[x]=1; o.push_back(x); sym_assert(cd.get_fvalue()==f1[x],"each candidate keeps its own first value"); }
        for(int j=1;j<n;j++){ sym_assert(sum[o[j-1]]<=sum[o[j]],"the population is ordered by the sum of both ranks");
          int x=o[j-1],y=o[j]; if(sum[x]==sum[y]&&x<k&&y<k){ int cnt=0; for(int t=0;t<n;t++) cnt+=sum[t]==sum[x]; int dx=std::abs(r2[x]-r1[x]),dy=std::abs(r2[y]-r1[y]); dx=dx?dx-1:0; dy=dy?dy-1:0; if(cnt==2) sym_assert(dx<=dy,"of two candidates with equal sums the one whose rank changed less comes first"); } }
        int mu=n/2; std::vector<double> w(mu); double sw=0; for(int t=0;t<mu;t++){ w[t]=std::log(mu+1.0)-std::log(t+1.0); sw+=w[t]; }
        for(int d=0;d<D;d++){ double m=0; for(int t=0;t<mu;t++) m+=w[t]/sw*cx[o[t]](d); sym_assert_close(so._xmean(d),m,1e-9,"the new mean averages the best half of this order"); }
        ord[r]=o; sg[r]=so._sigma;
      } else st.tell();
      st.inc_iter();
    }
    keep=F;
  }
  if(ord[0]==ord[1]){ double al=1+2.0/(D+10.0);
    if(s>1e-9) sym_assert_close(sg[0],sg[1]*al,1e-9,"the step size is enlarged when the measured uncertainty is positive");
    else sym_assert(sg[0]==sg[1],"the step size is not enlarged unless the measured uncertainty is positive"); }
  if(s>1e-9) sym_reach("noisy"); else sym_reach("quiet");
}
template<class G> static void flav(){ switch(PAR("algo",0)){ case 0: case 6: go<G,CovarianceUpdate>(); break; case 3: case 9: go<G,ACovarianceUpdate>(); break; case 12: go<G,VDCMAUpdate>(); break; } }
extern "C" void h_uh(){ mkglobals(); switch(PAR("gp",0)){ case 0: flav<GN>(); break; case 1: flav<GB>(); break; case 2: flav<GBS>(); break; case 3: flav<GS>(); break; } sym_reach("end"); }
