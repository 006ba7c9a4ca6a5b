#include "all.h"
/* singular value decomposition: storage, for a single column (the iteration for more columns has no bound on its terms) */
namespace spec {
typedef std::size_t S;
void P01_svd_column__sz()
{ S M=V::var<S>("M",1,4); matrix<float> a(M,1),u,s,v(2,3); for(S k=0;k<M;k++) a(k)=V::elem<float>("A",k);
  susa::svd(a,u,s,v);
  V::check("shapes",u.no_rows()==M&&u.no_cols()==1&&s.no_rows()==1&&s.no_cols()==1&&v.no_rows()==1&&v.no_cols()==1);
  V::check("singular value",s(0)>=0); }
}
