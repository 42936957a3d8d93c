#include "sut_konst.inc"
#include "engabra.hpp"
#include <cstdlib>
namespace {
// values computed by static initialisers of this unit
struct Early { Val v[24]; Early(); };
Early::Early()
{
	if (std::getenv("VERIF_COLD")) return;
	for (int i = 0; i < 8; ++i) konst(i, &v[i]);
	put(v[8], g3::e1 * g3::e2); put(v[9], g3::e2 * g3::e3); put(v[10], g3::e3 * g3::e1);
	put(v[11], g3::e1 * g3::e2 * g3::e3);
	put(v[12], g3::zero<g3::MultiVector>()); put(v[13], g3::one<g3::MultiVector>());
	put(v[14], g3::exp((.5 * g3::pi) * g3::e12)); put(v[15], g3::dual(g3::e1));
	put(v[16], g3::logG2(g3::Spinor{ g3::Scalar{ -2. }, g3::zero<g3::BiVector>() }));
	put(v[17], g3::null<g3::MultiVector>());
}
// runs before the ordinary initialisers of any unit: as code called from another unit would
__attribute__((init_priority(200))) Early const early;
void fearly(int w, Val * o) { *o = early.v[w]; }
double fpi(int w)
{
	switch (w)
	{
		case 0: return g3::pi; case 1: return g3::piHalf; case 2: return g3::piQtr;
		case 3: return g3::turnFull; case 4: return g3::turnHalf; case 5: return g3::turnQtr;
		default: return g3::nan;
	}
}
}
void sutFillKonst1()
{
	sut.konst[0] = konst; sut.early[0] = fearly; sut.pis = fpi;
	sut.version = engabra::projectVersion; sut.identity = engabra::sourceIdentity;
}
