// Included by several translation units: each has its own view of the
// library's constants, before main and during it. TUN = unit number.
#include "adapt.hpp"
namespace {
void konst(int w, Val * o)
{
	switch (w)
	{
		case 0: put(*o, g3::e0); break;
		case 1: put(*o, g3::e1); break;
		case 2: put(*o, g3::e2); break;
		case 3: put(*o, g3::e3); break;
		case 4: put(*o, g3::e23); break;
		case 5: put(*o, g3::e31); break;
		case 6: put(*o, g3::e12); break;
		default: put(*o, g3::e123); break;
	}
}
}
