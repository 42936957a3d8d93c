#include "sut_konst.inc"
#include <cstdlib>
namespace {
struct Early { Val v[24]; Early(); };
Early::Early()
{
	if (std::getenv("VERIF_COLD")) return;
	for (int i = 0; i < 8; ++i) konst(i, &v[i]);
	put(v[8], g3::e1 * g3::e2); put(v[9], g3::e2 * g3::e3); put(v[10], g3::e3 * g3::e1);
	put(v[11], g3::e1 * g3::e2 * g3::e3);
	put(v[12], g3::zero<g3::MultiVector>()); put(v[13], g3::one<g3::MultiVector>());
	put(v[14], g3::exp((.5 * g3::pi) * g3::e12)); put(v[15], g3::dual(g3::e1));
	put(v[16], g3::logG2(g3::Spinor{ g3::Scalar{ -2. }, g3::zero<g3::BiVector>() }));
	put(v[17], g3::null<g3::MultiVector>());
}
static Early const early;
void fearly(int w, Val * o) { *o = early.v[w]; }
}
void sutFillKonst2() { sut.konst[1] = konst; sut.early[1] = fearly; }
