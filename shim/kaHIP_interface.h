// Stand-in for the KaHIP header: declarations only; the harness defines kaffpa as "any partition".
#pragma once
const int FAST=0; const int ECO=1; const int STRONG=2; const int FASTSOCIAL=3; const int ECOSOCIAL=4; const int STRONGSOCIAL=5; const int FASTSOCIALMULTITRY_PARALLEL=6;
void kaffpa(int*n,int*vwgt,int*xadj,int*adjcwgt,int*adjncy,int*nparts,double*imbalance,bool suppress_output,int seed,int mode,int num_threads,int*edgecut,int*part);
