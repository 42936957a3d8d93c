// Plain-data view of the library's values, shared by the adapter (which is
// the only part that includes the library) and the monitors (which do not).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <iosfwd>
#include <string>

enum Tag : int { D = 0, S, V, B, T, SP, IS, CX, DX, MV, NTAG, BOOL, ERR };

struct Val
{
	Tag t{ ERR };
	double c[8]{ 0, 0, 0, 0, 0, 0, 0, 0 };
};

inline char const * tagName(int t)
{
	static char const * const n[]{ "double", "Scalar", "Vector", "BiVector", "TriVector"
		, "Spinor", "ImSpin", "ComPlex", "DirPlex", "MultiVector", "NTAG", "bool", "ERR" };
	return n[t];
}
// number of components
inline int nComp(int t)
{
	static int const n[]{ 1, 1, 3, 3, 1, 4, 4, 2, 6, 8, 0, 1, 0 };
	return n[t];
}
// index in the 8-component basis (1,e1,e2,e3,e23,e31,e12,e123) of component k
inline int mvIdx(int t, int k)
{
	static int const x[NTAG][8]{
		{ 0 }, { 0 }, { 1, 2, 3 }, { 4, 5, 6 }, { 7 }
		, { 0, 4, 5, 6 }, { 1, 2, 3, 7 }, { 0, 7 }, { 1, 2, 3, 4, 5, 6 }
		, { 0, 1, 2, 3, 4, 5, 6, 7 } };
	return x[t][k];
}

using Fn1 = void (*)(Val const * a, Val * out);                 // out[0..1]
using Fn2 = void (*)(Val const * a, Val const * b, Val * out);
using FnC = bool (*)(Val const * a, Val const * b, double tol, int useTol);
using FnB = bool (*)(Val const * a, Val const * b);
using FnV = bool (*)(Val const * a);
using FnK = void (*)(Val * out);
using FnPut = void (*)(std::ostream & os, Val const * a);
using FnGet = void (*)(std::istream & is, Val * inout);
// nargs: 0 = all defaults, 1.. = pass that many digit arguments
using FnFix = std::string (*)(Val const * a, std::size_t before, std::size_t after, int nargs);
using FnEno = std::string (*)(Val const * a, std::size_t after, int nargs);
using FnSub = double (*)(Val const * a, std::size_t ndx);
using FnWr = void (*)(Val * mv, std::size_t ndx, double value);

// plain arrays of n doubles
struct ArrFns
{
	int n{ 0 };
	bool (*valid)(double const *){};
	bool (*nearly)(double const *, double const *, double tol, int useTol){};
	void (*get)(std::istream & is, double * inout){};
};

// ways of copying a value
constexpr int NCOPIES = 40;
inline char const * copyHow(int k)
{
	static char const * const how[NCOPIES]{ "copy construction", "assignment", "move construction", "move assignment", "swap", "swap (other side)", "self assignment", "a vector", "passing by value", "a member copy"
		, "a heap object", "being copied", "a vector (later element)", "a vector (last element)", "an array", "an array (neighbour)", "an optional", "a tuple", "capture by value", "a map", "rotating a list", "rotating a list (other)"
		, "a conditional", "chained assignment"
		, "unqualified swap", "unqualified swap (other side)", "swapping ranges", "swapping ranges (next)", "swapping ranges (other side)", "reversing", "reversing (other)", "a swap with itself", "swapping pairs", "swapping pairs (second)"
		, "rotating", "rotating (next)", "swapping optionals", "swapping optionals (other side)", "swapping arrays", "swapping arrays (second)" };
	return how[k];
}
inline bool copyOther(int k) { return k == 5 || k == 13 || k == 15 || k == 21 || k == 25 || k == 27 || k == 29 || k == 33 || k == 35 || k == 37 || k == 39; } // the second value is expected

struct Sut
{
	Fn2 mul[NTAG][NTAG]{};
	Fn2 add[NTAG][NTAG]{};
	Fn2 sub[NTAG][NTAG]{};
	Fn1 neg[NTAG]{}, rev[NTAG]{}, odd[NTAG]{}, dir[NTAG]{}, dual[NTAG]{};
	Fn1 sq[NTAG]{}, cube[NTAG]{};
	Fn1 magSq[NTAG]{}, mag[NTAG]{}, pairMD[NTAG]{}, direction[NTAG]{};
	Fn1 ampSq[NTAG]{}, amp[NTAG]{}, inv[NTAG]{}, exp[NTAG]{};
	Fn1 logG2{}, sqrtG2{};        // default plane
	Fn2 logG2p{}, sqrtG2p{};      // plane given
	FnV isValid[NTAG]{};
	FnC nearly[NTAG]{};
	FnC nearlyAbs{}, nearlyRel{};
	FnB nearlyBool{};
	FnB eq[NTAG]{};
	FnK null[NTAG]{}, zero[NTAG]{}, one[NTAG]{};
	FnPut put[NTAG]{};
	FnGet get[NTAG]{};
	FnFix fixed[NTAG]{};
	FnEno enote[NTAG]{};
	FnSub sub1[NTAG]{};           // const operator[]
	FnWr write{};                 // MultiVector operator[] =
	FnSub readMut{};              // MultiVector non-const operator[] read
	Fn1 promote[NTAG]{};          // explicit MultiVector(x)
	Fn2 join{};                   // MultiVector(ComPlex, DirPlex)
	void (*grades)(Val const * s, Val const * v, Val const * b, Val const * t, Val * out){};
	Fn1 comps{};                  // MultiVector(8 doubles)
	Fn1 cplxFrom{};               // ComPlex::from(std::complex)
	Fn1 cplxTo{};                 // std::complex -> (re,im) as CX
	Fn2 cplxMulStd{};             // product done by std::complex after cast
	// named constants, read through different translation units
	// index: 0 e0,1 e1,2 e2,3 e3,4 e23,5 e31,6 e12,7 e123
	void (*konst[2])(int which, Val * out){};
	// constants and products as seen by static initialisers (per TU)
	void (*early[2])(int which, Val * out){};
	double (*pis)(int which){};   // pi, piHalf, piQtr, turnFull, turnHalf, turnQtr, nan
	std::string (*version)(){};
	std::string (*identity)(){};
	ArrFns arr[12]{};
	int nArr{ 0 };
	bool (*small)(int which, double a, double b, double tol){}; // isSmallAbs, isSmallAbsDiff, bothAreValid
	void (*copies[NTAG])(Val const * in, Val const * other, Val * out){}; // out[NCOPIES]
	void (*mulNum[NTAG])(Val const * x, int i, float f, Val * out){}; // out[10]: products with int, unsigned, long long, short, float, on either side
	bool trait[NTAG][NTAG + 1]{}; // [0 blade, tag is::tag][type; NTAG = any of some foreign types]
	// one object of every type, shared; every operation on them, results appended
	void * (*shMake)(Val const * perTag){};
	int (*shRun)(void const * objs, double * out, int max){};
	void (*shFree)(void * objs){};
	int (*lifeDiffers)(int k){}; // battery k: first result that differs from the one before main, -1 none, -2 no such battery
	long (*live)(){};             // heap blocks held by this thread, where counted
};
// number of times an argument object was found changed after a call
extern "C" { extern unsigned long sutArgChanged; }
extern thread_local int sutUse; // how the next calls' results are used, see adapt.hpp

extern Sut sut; // filled by sutFill()
void sutFill();
