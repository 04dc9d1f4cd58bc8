// Contracts that replace callees inside a larger proof (each is proved for the real function by its own harness).
#ifndef VC_MODULAR_H_
#define VC_MODULAR_H_
namespace vcf {
// equilibrium function: an arbitrary feq with sum feq = rho, sum e feq = rho u and (energy) sum |e|^2 feq = rho (u^2 + D cs^2 T)
template<int D, int Q> struct ModEq { static bool energy;
	static void calc(void*, std::array<double,Q>& feq, const GeneralCollisionData<D,Q>& p){ double m=p.density, j[D], E=0, uu=0; for(int a=0;a<D;a++){ j[a]=p.density*p.velocity[a]; uu+=p.velocity[a]*p.velocity[a]; } E=p.density*(uu+D*p.cs2*p.temperature);
		double x[Q]; for(int i=0;i<Q;i++){ x[i]=vc_real("feq",-10,10); m-=x[i]; double ee=0; for(int a=0;a<D;a++){ j[a]-=p.e[i][a]*x[i]; ee+=p.e[i][a]*p.e[i][a]; } E-=ee*x[i]; }
		double dE=energy?vc_name((E/p.cs2-D*m)/(2.0*D)):0; m=vc_name(m); for(int a=0;a<D;a++) j[a]=vc_name(j[a]);
		for(int i=0;i<Q;i++){ double c=m, ee=0; for(int a=0;a<D;a++){ c+=p.e[i][a]*j[a]/p.cs2; ee+=p.e[i][a]*p.e[i][a]; } c+=(ee/p.cs2-D)*dE; feq[i]=x[i]+p.weight[i]*c; } } };
template<int D, int Q> bool ModEq<D,Q>::energy=false;
// density / temperature: the real functions, their results abbreviated by a name in the caller
template<int Q> double named_density(const std::array<double,Q>& f){ return vc_name(calculateDensity<Q>(f)); }
template<int D, int Q> double named_temperature(const std::array<double,Q>& f, const std::array<double,Q>& g, std::array<double,D>& u, double rho, double T, GeneralCollisionData<D,Q>& p, double d){ return vc_name(calculateTemperature<D,Q>(f,g,u,rho,T,p,d)); }
template<int D, int Q> void named_velocity(const std::array<double,Q>& f, std::array<double,D>& u, double rho, GeneralCollisionData<D,Q>& p){ calculateVelocity<D,Q>(f,u,rho,p); for(int j=0;j<D;j++) u[j]=vc_name(u[j]); }
// heat flux functions: any symmetric third-order tensor / any vector, added to the output
template<int D, int Q> struct ModFlux { typedef std::array<std::array<std::array<double,D>,D>,D> T3;
	static void tensor(const std::array<double,Q>&, T3& q, const GeneralCollisionData<D,Q>&){ for(int a=0;a<D;a++) for(int b=0;b<=a;b++) for(int c=0;c<=b;c++){ double x=vc_real("heatflux",-10,10); int v[3]={a,b,c}, perm[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; bool done[D][D][D]; for(int i=0;i<D;i++) for(int j=0;j<D;j++) for(int k=0;k<D;k++) done[i][j][k]=false;
		for(int p=0;p<6;p++){ int i=v[perm[p][0]], j=v[perm[p][1]], k=v[perm[p][2]]; if(!done[i][j][k]){ done[i][j][k]=true; q[i][j][k]+=x; } } } }
	static void vector(const std::array<double,Q>&, std::array<double,D>& q, const GeneralCollisionData<D,Q>&){ for(int a=0;a<D;a++) q[a]+=vc_real("fluxg",-10,10); } };
static double any_knudsen(){ return vc_real("knudsen",0,1e6); } // some non-negative number, nothing modified
}
#endif
