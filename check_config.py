"""C26: the same monitored workload in many build configurations and inclusion styles."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import time

import run_check as rc

# each public header's own declarations, used after including only that header
USES = {
    "g3type.hpp": "using namespace engabra::g3; Vector v{ 1., 2., 3. }; BiVector b{ 1., 2., 3. }; MultiVector m{ Scalar{ 1. }, v, b, TriVector{ 2. } }; "
                  "Spinor s{ Scalar{ 1. }, b }; ImSpin i{ v, TriVector{ 1. } }; ComPlex c{ Scalar{ 1. }, TriVector{ 2. } }; DirPlex d{ v, b }; "
                  "m[3] = 9.; ok(v[1] == 2. && b[2] == 3. && m.theVec[2] == 9. && s[3] == 3. && i[3] == 1. && c[1] == 2. && d[4] == 2. && v[7] != v[7]);",
    "g3const.hpp": "using namespace engabra::g3; ok(zero<MultiVector>().theSca.theData[0] == 0.); ok(one<Scalar>()[0] == 1.); auto n = null<Vector>(); ok(n[0] != n[0]); "
                   "ok(e1[0] == 1. && e2[1] == 1. && e3[2] == 1. && e23[0] == 1. && e31[1] == 1. && e12[2] == 1. && e123[0] == 1. && e0[0] == 1.); ok(pi > 3.14 && turnFull > 6.28 && engabra::g3::nan != engabra::g3::nan);",
    "g3validity.hpp": "using namespace engabra::g3; ok(isValid(Vector{ 1., 2., 3. })); ok(!isValid(Vector{ 1., engabra::g3::nan, 3. })); ok(isValid(2.)); ok(isValid(Spinor{ Scalar{ 1. }, BiVector{ 0., 0., 1. } }));",
    "g3compare.hpp": "using namespace engabra::g3; Vector a{ 1., 2., 3. }, b{ 1., 2., 3.5 }; ok(nearlyEquals(a, a)); ok(!nearlyEquals(a, b)); ok(nearlyEquals(a, b, 1.)); ok(a == a); ok(!(a == b)); ok(nearlyEquals(1., 1.));",
    "g3func.hpp": "using namespace engabra::g3; Vector v{ 3., 4., 0. }; auto is = [](double a, double b) { return a - b < 1e-14 && b - a < 1e-14; }; ok(is(magnitude(v), 5.)); ok(is(magSq(v), 25.)); ok(is(direction(v)[0], .6)); BiVector b{ 0., 0., .5 }; Spinor s = exp(b); "
                  "BiVector back = logG2(s).theBiv; ok(back[2] > .4999 && back[2] < .5001); Spinor q = sqrtG2(s); ok(q[0] > .9); ok(is(inverse(v)[0], .12)); (void)amplitude(v); "
                  "auto p = pairMagDirFrom(v); ok(is(p.first, 5.)); ok(isValid(exp(MultiVector{ Scalar{ 1. }, v, b, TriVector{ 0. } })));",
    "g3io.hpp": "using namespace engabra::g3; Vector v{ 1.5, -2., 0. }; std::ostringstream o; o << v; ok(o.str().find(\"1.5\") != std::string::npos); std::istringstream i(\"4 5 6\"); i >> v; ok(v[2] == 6.); "
                "ok(!engabra::g3::io::fixed(v).empty()); ok(!engabra::g3::io::enote(v).empty()); ok(!engabra::g3::io::fixed(2.5).empty());",
    "g3ops.hpp": "using namespace engabra::g3; Vector v{ 1., 2., 3. }; BiVector b{ 1., 0., 0. }; auto m = v * b + v; ok(m.theTri.theData[0] == 1.); ok((v - v)[1] == 0.); ok((-v)[0] == -1.); ok(reverse(b)[0] == -1.); ok((2. * v)[2] == 6.);",
    "g3opsAdd.hpp": "using namespace engabra::g3; Spinor s = Scalar{ 1. } + BiVector{ 1., 2., 3. }; ok(s[0] == 1. && s[3] == 3.); ok((Vector{ 1., 2., 3. } + Vector{ 1., 1., 1. })[2] == 4.);",
    "g3opsSub.hpp": "using namespace engabra::g3; Spinor s = Scalar{ 1. } - BiVector{ 1., 2., 3. }; ok(s[0] == 1. && s[3] == -3.); ok((Vector{ 1., 2., 3. } - Vector{ 1., 1., 1. })[2] == 2.);",
    "g3opsMul.hpp": "using namespace engabra::g3; Spinor s = Vector{ 1., 0., 0. } * Vector{ 0., 1., 0. }; ok(s[3] == 1.); MultiVector m{ Scalar{ 2. }, Vector{ 0., 0., 0. }, BiVector{ 0., 0., 0. }, TriVector{ 0. } }; ok((m * m).theSca.theData[0] == 4.);",
    "g3opsUni.hpp": "using namespace engabra::g3; BiVector b{ 1., 2., 3. }; ok(reverse(b)[2] == -3.); ok((-b)[0] == -1.); ok(dual(b)[0] == -1.); ok(oddverse(b)[0] == 1.); ok(dirverse(b)[0] == -1.);",
    "g3publish.hpp": "engabra::g3::Vector a{ 1., 2., 3. }; auto s = a * a; ok(s[0] == 14.); auto t = a + a; ok(t[0] == 2.); auto u = -a; ok(u[1] == -2.);",
    "g3traits.hpp": "ok(true);",
    "g3_private.hpp": "ok(true);",
    "engabra.hpp": "using namespace engabra::g3; ok((e1 * e2)[3] == 1.); ok(!engabra::projectVersion().empty() || true);",
}
for a, b in (("Add", "+"), ("Sub", "-"), ("Mul", "*")):
    for t, v in (("Scalar", "Scalar{ 2. }"), ("Vector", "Vector{ 1., 2., 3. }"), ("BiVector", "BiVector{ 1., 2., 3. }"), ("TriVector", "TriVector{ 2. }"),
                 ("Spinor", "Spinor{ Scalar{ 1. }, BiVector{ 1., 2., 3. } }"), ("ImSpin", "ImSpin{ Vector{ 1., 2., 3. }, TriVector{ 1. } }"),
                 ("ComPlex", "ComPlex{ Scalar{ 1. }, TriVector{ 1. } }"), ("DirPlex", "DirPlex{ Vector{ 1., 2., 3. }, BiVector{ 1., 2., 3. } }"),
                 ("MultiVector", "MultiVector{ Scalar{ 1. }, Vector{ 1., 2., 3. }, BiVector{ 1., 2., 3. }, TriVector{ 1. } }")):
        USES["g3ops%s_%s.hpp" % (a, t)] = ("using namespace engabra::g3; %s const x{ %s }; MultiVector const m{ Scalar{ 5. }, Vector{ 1., 2., 3. }, BiVector{ 1., 2., 3. }, TriVector{ 1. } }; "
                                           "auto const r = x %s m; auto const q = x %s x; (void)q; ok(r.theSca.theData[0] == r.theSca.theData[0]);" % (t, v, b, b))

# a program with names of its own, which including the library must leave alone
OWN_TYPES = "Scalar Vector BiVector TriVector Spinor ImSpin ComPlex DirPlex MultiVector vector array string map pair tuple complex list set function ostream stringstream numeric_limits".split()
OWN_NAMES = ("e0 e1 e2 e3 e12 e23 e31 e123 pi piHalf turnFull turnHalf turnQtr null zero one sq cube dual reverse oddverse dirverse inverse magnitude magSq direction amplitude "
             "isValid nearlyEquals put get io is g3 priv tol eps data size count distance begin end min max swap move copy fill find fixed scientific left right hex width "
             "cout cin endl ref array_ norm conj arg real imag EPS TOL PI DIM N MAX MIN SQ SQR ABS DEG RAD NAN_ E G3 VERSION VALID NULL_ A B C V S T").split()


def macros(text):
    """Names of the macros defined once a source text has been preprocessed."""
    r = subprocess.run([rc.GXX, "-std=c++17", "-x", "c++", "-dM", "-E", "-I%s/include" % rc.REPO, "-"], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return set(re.findall(r"(?m)^#define (\w+)", r.stdout.decode(errors="replace")))


def left_over(heads):
    """Names, not the library's own in form, that a program could not use because including the library defines them as macros."""
    std = set()
    for h in heads:
        with open(os.path.join(rc.REPO, "include", h), errors="replace") as f:
            std |= set(re.findall(r"(?m)^\s*#\s*include\s*(<\w+>)", f.read()))
    base = macros("".join("#include %s\n" % h for h in sorted(std) if not os.path.exists(os.path.join(rc.REPO, "include", h[1:-1]))))
    found = macros("".join('#include "%s"\n' % h for h in heads)) - base
    return sorted(n for n in found if not re.match(r"(?i)_|.*_$|.*(engabra|g3|incl)", n))


def guest(header, extra=()):
    """Source text of a program that includes one header and goes on with its own names."""
    used = " + ".join(OWN_NAMES)
    return ('#include "%s"\n' % header
            + "".join("struct %s { char c; double d; };\n" % t for t in OWN_TYPES)
            + "".join("static int %s = %d;\n" % (n, i + 1) for i, n in enumerate(OWN_NAMES))
            + "int main() {\n { " + " ".join("int %s = 1; if (%s != 1) return 4;" % (n, n) for n in extra) + " }\n int const want = %d;\n if (%s != want) return 1;\n" % (len(OWN_NAMES) * (len(OWN_NAMES) + 1) // 2, used)
            + "".join(" { %s x; x.d = 2.; if (sizeof x != 2 * sizeof(double) || x.d != 2.) return 2; }\n" % t for t in OWN_TYPES)
            + " double volatile huge = 1e308; double const inf = huge * 10., no = inf - inf;\n"
              " if (no == no || !(inf > huge) || (huge + 1.) - huge != 0.) return 3;\n return 0;\n}\n")


def neighbour(header, using):
    """Source text of a program that includes one header and has types with operators and functions of its own."""
    # looks like one of the library's in every way
    like = ("double theSca, theVec, theBiv, theTri; std::array<double, 3> theData; double const * begin() const { return theData.data(); } double const * end() const { return begin() + 3; } double const * data() const { return begin(); } std::size_t size() const { return 3; } "
            "double operator[](std::size_t i) const { return theData[i]; } operator bool() const = delete;")
    one = "magnitude magSq isValid".split()
    same = "dual reverse oddverse dirverse direction inverse exp sq cube logG2 sqrtG2 amplitude ampSq".split()
    ops = "".join("TMPL W ARGS operator%s(W ARGS const & a, W ARGS const & b) { ++calls; return W ARGS{ a.d %s b.d + 1000 }; }\n" % (o, o) for o in "+-*/")
    ops += "".join("TMPL W ARGS operator%s(W ARGS const & a, double b) { ++calls; return W ARGS{ a.d %s b + 2000 }; }\nTMPL W ARGS operator%s(double a, W ARGS const & b) { ++calls; return W ARGS{ a %s b.d + 3000 }; }\n" % (o, o, o, o) for o in "+-*/")
    ops += ("TMPL W ARGS operator-(W ARGS const & a) { ++calls; return W ARGS{ 7 - a.d }; }\n"
            "TMPL bool operator==(W ARGS const & a, W ARGS const & b) { ++calls; return a.d == b.d + 1; }\n"
            "TMPL bool operator!=(W ARGS const & a, W ARGS const & b) { ++calls; return a.d == b.d + 2; }\n"
            "TMPL bool operator<(W ARGS const & a, W ARGS const & b) { ++calls; return a.d > b.d; }\n"
            "TMPL std::ostream & operator<<(std::ostream & os, W ARGS const & a) { ++calls; return os << '<' << a.d << '>'; }\n"
            "TMPL std::istream & operator>>(std::istream & is, W ARGS & a) { ++calls; char c; return is >> c >> a.d >> c; }\n"
            "TMPL bool nearlyEquals(W ARGS const & a, W ARGS const & b) { ++calls; return a.d == b.d + 3; }\n")
    ops += "".join("TMPL double %s(W ARGS const & a) { ++calls; return a.d + %d; }\n" % (n, i + 50) for i, n in enumerate(one))
    ops += "".join("TMPL W ARGS %s(W ARGS const & a) { ++calls; return W ARGS{ a.d + %d }; }\n" % (n, i + 100) for i, n in enumerate(same))
    use = "X const a{ 2. }, b{ 4. }; int const was = calls; int n = 0; using std::sqrt;\n"
    use += "".join(" ok((a %s b).d == 2. %s 4. + 1000.); ok((a %s 4.).d == 2. %s 4. + 2000.); ok((2. %s b).d == 2. %s 4. + 3000.); n += 3;\n" % ((o,) * 6) for o in "+-*/")
    use += " ok((-a).d == 5.); ok(X{ 5. } == b); ok(X{ 6. } != b); ok(b < a); ok(nearlyEquals(X{ 7. }, b)); n += 5;\n"
    use += "".join(" ok(%s(a) == %d.); ++n;\n" % (f, i + 52) for i, f in enumerate(one))
    use += "".join(" ok(%s(a).d == %d.); ++n;\n" % (f, i + 102) for i, f in enumerate(same))
    use += ' std::stringstream s; s << a << b << std::string("x") << 1.5; ok(s.str() == "<2><4>x1.5"); X c{ 0. }; s >> c; ok(c.d == 2.); n += 3; ok(calls - was == n);\n'
    std_use = ("std::complex<double> const z(1., 2.); ok(2. * z == std::complex<double>(2., 4.)); ok(-z + z == std::complex<double>()); std::vector<double> const v(3, 1.); ok(v == v); std::array<double, 3> const q{ { 1., 2., 3. } }; ok(q == q); ok(!(q < q));\n"
               " std::pair<int, double> const p(1, 2.); ok(p == p); std::string t(\"a\"); ok(t + \"b\" == \"ab\"); std::ostringstream os; os << z << t << 2; ok(os.str() == \"(1,2)a2\"); std::istringstream is(\"3 4.5 word\"); int i = 0; double d = 0.; is >> i >> d >> t; ok(i == 3 && d == 4.5 && t == \"word\");\n"
               " std::valarray<double> const va(2., 4), vb = va * va + 3. * va; ok(vb[3] == 10.); ok(std::tie(i, d) == std::make_tuple(3, 4.5));\n")
    return ('#include "%s"\n' % header + "".join("#include <%s>\n" % h for h in "array cmath complex cstdio cstdlib iostream sstream string tuple type_traits utility valarray vector".split())
            + "static int calls = 0;\nstatic void ok(bool b) { if (!b) { std::puts(\"something else was called\"); std::exit(9); } }\n"
            + "namespace mine { struct W { double d; " + like + " };\n" + ops.replace("TMPL", "inline").replace(" ARGS", "") + "}\n"
            + "namespace yours { template <typename T> struct W { T d; " + like + " };\n" + ops.replace("TMPL", "template <typename T>").replace(" ARGS", "<T>") + "}\n"
            + "namespace theirs { struct W { double d; " + like + " }; template <typename A> struct Is : std::false_type {}; template <> struct Is<W> : std::true_type {};\n"
            + ops.replace("TMPL", "template <typename A, std::enable_if_t<Is<A>::value, int> = 0>").replace("W ARGS", "A") + "}\n"
            + "".join("namespace { void use%d() { %s using X = %s; %s%s } }\n" % (k, "" if k == 2 else using, x, use, std_use) for k, x in enumerate(("mine::W", "yours::W<double>", "theirs::W")))
            + "int main() { use0(); use1(); use2(); return 0; }\n")


def configs(tier, seed):
    G, C = rc.GXX, rc.CLANG
    repo = "-pthread -fomit-frame-pointer -fno-operator-names -fstrict-enums -fno-nonansi-builtins -pedantic-errors"
    q = [("g17O0", G, "-std=c++17 -O0 -pedantic-errors"), ("g17O2N", G, "-std=c++17 -O2 -DNDEBUG"), ("g20O3", G, "-std=c++20 -O3"),
         ("g23O1N", G, "-std=c++23 -O1 -DNDEBUG"), ("g17repo", G, "-std=c++17 -O2 -g -DNDEBUG " + repo),
         ("g20OsN", G, "-std=c++20 -Os -DNDEBUG"), ("c23Os", C, "-std=c++23 -Os"), ("g23Og", G, "-std=c++23 -Og"),
         ("c17O0", C, "-std=c++17 -O0"), ("c20O2N", C, "-std=c++20 -O2 -DNDEBUG"), ("c23O3", C, "-std=c++23 -O3")]
    if tier == "quick":
        return q
    have = {(c, f) for _, c, f in q}
    for comp, cn in ((G, "g"), (C, "c")):
        for std in ("17", "20", "23"):
            for o in "0123sg":
                for nd in ("", " -DNDEBUG"):
                    f = "-std=c++%s -O%s%s" % (std, o, nd)
                    if (comp, f) not in have:
                        q.append(("%s%sO%s%s" % (cn, std, o, "N" if nd else ""), comp, f))
    q += [("ggnu17", G, "-std=gnu++17 -O2"), ("gfortify", G, "-std=c++17 -O2 -D_FORTIFY_SOURCE=3 -D_GLIBCXX_ASSERTIONS -fstack-protector-all"),
          ("gnative", G, "-std=c++17 -O2 -fPIC -fno-inline"), ("cgnu20", C, "-std=gnu++20 -O1 -fPIC"),
          ("gvis", G, "-std=c++17 -O2 -funsigned-char -fno-strict-aliasing"), ("glto", G, "-std=c++17 -O2 -ffunction-sections -fdata-sections -fshort-enums")]
    return q


def public_headers():
    txt = open(os.path.join(rc.REPO, "include", "CMakeLists.txt")).read()
    inc = os.path.join(rc.REPO, "include")
    listed = [h for h in re.findall(r"^\s*(\w+(?:\.hpp)?)\s*$", txt, re.M) if os.path.isfile(os.path.join(inc, h))]
    if len(listed) >= 5:
        return sorted(set(listed))
    return sorted({os.path.basename(f) for f in glob.glob(inc + "/*.hpp") if os.path.basename(f) != "_.hpp"})


def check(tier, seed):
    t0 = time.time()
    rng = random.Random(seed)
    R = rc.Runner("C26", tier, seed)
    try:
        return _check(tier, seed, t0, rng, R)
    finally:
        R.close()


def _check(tier, seed, t0, rng, R):
    heads = public_headers()
    if len(heads) < 5:
        raise rc.NoAnswer("public headers not found")
    cfgs = configs(tier, seed)
    jobs = []   # (what, command, run afterwards?)
    w = R.work

    def viol(what, detail, cmd, variant="-"):
        R.viols.append((what, detail[:1500], cmd[:600], "command %s\n" % cmd, variant))

    # 1. every header alone, its declarations used with nothing else included
    stds = ("17", "20", "23") if tier != "quick" else ("17", "23")
    for h in heads:
        for cxx in (rc.GXX, rc.CLANG):
            for std in stds:
                if tier == "quick" and std == "23" and cxx == rc.GXX:
                    continue
                n = "h_%s_%s_%s" % (h.replace(".", "_"), os.path.basename(cxx).replace("+", "p"), std)
                src = os.path.join(w, n + ".cpp")
                use = USES.get(h, "ok(true);")
                with open(src, "w") as o:
                    o.write('#include "%s"\n#include "%s"\n#include <cstdio>\n#include <cstdlib>\n' % (h, h)
                            + ("#include <sstream>\n#include <string>\n" if h in ("g3io.hpp",) else "")
                            + "static void ok(bool b) { if (!b) { std::puts(\"assertion failed\"); std::exit(9); } }\nint main() { %s return 0; }\n" % use)
                lib = " %s/libid.o" % w if h in ("engabra.hpp", "Engabra") else ""
                jobs.append(("header %s alone" % h, "%s -std=c++%s -O1 -I%s/include %s%s -o %s" % (cxx, std, rc.REPO, src, lib, os.path.join(w, n)), os.path.join(w, n)))
    # 1b. a program that has the same names as the library, and as the standard library
    extra = left_over(heads)
    for k, h in enumerate(heads):
        for cxx in (rc.GXX, rc.CLANG):
            if tier == "quick" and cxx == (rc.GXX, rc.CLANG)[k % 2] and h != "engabra.hpp":
                continue
            n = "g_%s_%s" % (h.replace(".", "_"), os.path.basename(cxx).replace("+", "p"))
            src = os.path.join(w, n + ".cpp")
            with open(src, "w") as o:
                o.write(guest(h, extra))
            lib = " %s/libid.o" % w if h in ("engabra.hpp", "Engabra") else ""
            jobs.append(("program with names of its own and header %s" % h, "%s -std=c++17 -O1 -I%s/include %s%s -o %s" % (cxx, rc.REPO, src, lib, os.path.join(w, n)), os.path.join(w, n)))
    # 1c. a program that has types with operators and functions of the same names
    for k, h in enumerate(heads):
        for j, using in enumerate(("", "using namespace engabra; using namespace engabra::g3;")):
            for cxx in (rc.GXX, rc.CLANG):
                if tier == "quick" and (cxx == (rc.GXX, rc.CLANG)[(k + j) % 2] or k % 3 != seed % 3) and h != "engabra.hpp":
                    continue
                n = "n%d_%s_%s" % (j, h.replace(".", "_"), os.path.basename(cxx).replace("+", "p"))
                src = os.path.join(w, n + ".cpp")
                with open(src, "w") as o:
                    o.write(neighbour(h, using))
                lib = " %s/libid.o" % w if h in ("engabra.hpp", "Engabra") else ""
                jobs.append(("program with operators of its own and header %s" % h, "%s -std=c++%s -O1 -I%s/include %s%s -o %s" % (cxx, ("17", "20")[k % 2], rc.REPO, src, lib, os.path.join(w, n)), os.path.join(w, n)))
    # 2. orders and subsets of headers
    for k in range(16 if tier == "quick" else 120):
        hs = rng.sample(heads, len(heads)) if k % 3 == 0 else rng.sample(heads, rng.randint(2, min(6, len(heads))))
        src = os.path.join(w, "o%d.cpp" % k)
        with open(src, "w") as o:
            o.write("".join('#include "%s"\n' % h for h in hs) + "#include <cstdio>\n#include <cstdlib>\n#include <sstream>\n"
                    + "static void ok(bool b) { if (!b) { std::puts(\"assertion failed\"); std::exit(9); } }\n")
            for i, h in enumerate(hs):
                if h in USES and h != "g3publish.hpp" and h != "engabra.hpp":
                    o.write("static void f%d() { %s }\n" % (i, USES[h]))
            o.write("int main() {" + "".join(" f%d();" % i for i, h in enumerate(hs) if h in USES and h not in ("g3publish.hpp", "engabra.hpp")) + " return 0; }\n")
        cxx = (rc.GXX, rc.CLANG)[k % 2]
        jobs.append(("headers in the order %s" % ",".join(hs[:8]), "%s -std=c++%s -O1 -I%s/include %s %s/libid.o -o %s/o%d" % (cxx, rng.choice(("17", "20", "23")), rc.REPO, src, w, w, k), "%s/o%d" % (w, k)))

    ver = rc.declared_version()
    ident = "-DEngabra_Project_Version='\"%s\"' -DEngabra_Source_Identity='\"%s\"'" % (ver, rc.IDENTITY)
    objs = []
    for i, s in enumerate(rc.lib_sources()):
        o = "%s/libid%d.o" % (w, i)
        c, code, log = rc.run_job("%s -std=c++17 -O1 -I%s/include %s -c %s -o %s" % (rc.GXX, rc.REPO, ident, s, o))
        if code:
            raise rc.NoAnswer("library source does not compile: " + log[:2000])
        objs.append(o)
    c, code, log = rc.run_job("ld -r -o %s/libid.o %s" % (w, " ".join(objs)))
    if code:
        viol("library objects do not link together", log, c)

    # 3. the monitored workload per configuration; each unit of a configuration
    #    includes the library in a way of its own
    orders = []
    minimal = ["g3type.hpp", "g3traits.hpp", "g3const.hpp", "g3validity.hpp", "g3compare.hpp", "g3func.hpp", "g3io.hpp", "g3ops.hpp"]
    odir = os.path.join(rc.BUILD, "c26orders")
    shutil.rmtree(odir, ignore_errors=True)
    os.makedirs(odir)
    for k in range(6):
        p = os.path.join(odir, "order%d.hpp" % k)
        with open(p, "w") as o:
            hs = {0: ["engabra.hpp"], 1: minimal[::-1], 2: rng.sample(minimal, len(minimal)), 3: rng.sample(heads, len(heads)),
                  4: ["g3publish.hpp", "g3io.hpp", "engabra.hpp"] if "g3publish.hpp" in heads else ["engabra.hpp"], 5: rng.sample(minimal, len(minimal)) + ["engabra.hpp"]}[k]
            o.write("".join('#include "%s"\n' % h for h in hs if h in heads))
        orders.append(p)
    orig = rc.sut_jobs
    assign = {}

    def sut_jobs(name, cxx, flags, out):
        res = []
        for i, j in enumerate(orig(name, cxx, flags, out)):
            if "/sut_" in j:
                # the first configuration uses engabra.hpp everywhere, as the reference style
                p = orders[0] if name.endswith(cfgs[1][0]) else orders[assign.setdefault((name, i), rng.randrange(len(orders)))]
                j = j.replace(" -c ", " -DADAPT_HEADERS='\"%s\"' -c " % p, 1)
            res.append(j)
        return res
    rc.sut_jobs = sut_jobs
    try:
        # the inclusion styles depend on the seed, as does the key of the build
        rc.prune("v-c26_*", [])
        built, logs = {}, {}
        for k in range(0, len(cfgs), 16):
            b, l = rc.build({"c26_" + n: (cxx, f + " -DC26_SEED=%d" % seed, "") for n, cxx, f in cfgs[k:k + 16]})
            built.update(b)
            logs.update(l)
    finally:
        rc.sut_jobs = orig
    for n, b in built.items():
        if not b:
            viol("configuration %s does not build" % n[4:], logs[n], dict((c[0], c[1] + " " + c[2]) for c in cfgs)[n[4:]], n)
    nothing_builds = not any(built.values())

    # 4. the package as the project builds and installs it, used by a consumer
    pk = os.path.join(w, "pkg")
    cons = os.path.join(w, "cons")
    os.makedirs(cons)
    with open(cons + "/CMakeLists.txt", "w") as o:
        o.write("cmake_minimum_required(VERSION 3.13)\nproject(Cons LANGUAGES CXX)\nset(CMAKE_CXX_STANDARD 17)\nfind_package(Engabra REQUIRED CONFIG)\n"
                "add_executable(cons cons.cpp other.cpp)\ntarget_link_libraries(cons PRIVATE Engabra::Engabra)\n")
    with open(cons + "/cons.cpp", "w") as o:
        o.write('#include <engabra.hpp>\n#include <cstdio>\n#include <string>\nstd::string other();\nint main() { std::string const v = engabra::projectVersion(), i = engabra::sourceIdentity();\n'
                'for (int k = 0; k < 1000; ++k) if (engabra::projectVersion() != v || engabra::sourceIdentity() != i || other() != v) { std::puts("changing version"); return 4; }\n'
                'if (v != "%s") { std::printf("version is %%s\\n", v.c_str()); return 5; }\nif (i.empty()) { std::puts("empty identity"); return 6; }\n'
                'using namespace engabra::g3; return (e1 * e2)[3] == 1. ? 0 : 7; }\n' % ver)
    with open(cons + "/other.cpp", "w") as o:
        o.write('#include <engabra.hpp>\nstd::string other() { return engabra::projectVersion(); }\n')

    def package(cxx, build_type):
        d = os.path.join(pk, os.path.basename(cxx).replace("+", "p") + build_type)
        for c in ("cmake -S %s -B %s/b -G Ninja -DCMAKE_CXX_COMPILER=%s -DCMAKE_BUILD_TYPE=%s -DBUILD_TESTING=OFF -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON -DCMAKE_INSTALL_PREFIX=%s/p" % (rc.REPO, d, cxx, build_type, d),
                  "ninja -C %s/b Engabra" % d, "cmake --install %s/b" % d,
                  "cmake -S %s -B %s/c -G Ninja -DCMAKE_CXX_COMPILER=%s -DCMAKE_BUILD_TYPE=%s -DCMAKE_PREFIX_PATH=%s/p" % (cons, d, cxx, build_type, d),
                  "ninja -C %s/c" % d, "%s/c/cons" % d):
            r = rc.sh(c, timeout=300)
            if r.returncode:
                return c, r.stdout.decode(errors="replace")[-1500:]
        return None

    cases = int(120e3 if tier == "quick" else 600e3)
    programs = 0
    with cf.ThreadPoolExecutor(rc.NCPU) as ex:
        def hdr(job):
            what, cmd, exe = job
            c, code, log = rc.run_job(cmd)
            if code:
                return what, "does not compile: " + log, cmd
            r = rc.sh([exe], timeout=60)
            os.unlink(exe)
            if r.returncode:
                return what, "its program fails: " + r.stdout.decode(errors="replace")[:300], cmd
            return None
        hf = [ex.submit(hdr, j) for j in jobs]
        pf = [ex.submit(package, *a) for a in (((rc.GXX, "Release"),) if tier == "quick" else
                                               ((rc.GXX, "Release"), (rc.GXX, "Debug"), (rc.CLANG, "Release"), (rc.GXX, "RelWithDebInfo")))]
        # the same seed everywhere: every configuration gets the same cases
        def run(n, b):
            base = os.path.join(w, "r_" + n)
            p = subprocess.run([b, "--prop", "ALL", "--mode", "random", "--seed", str(seed), "--cases", str(cases), "--out", base + ".json", "--cur", base + ".cur",
                                "--dict", R.dict, "--bloom", base + ".bloom", "--slow", "1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=1500)
            return n, b, base, p.returncode, p.stdout.decode(errors="replace")[-800:]
        rf = [ex.submit(run, n, b) for n, b in built.items() if b]
        for f in hf:
            r = f.result()
            programs += 1
            if r:
                viol(*r)
        for f in pf:
            r = f.result()
            if r:
                viol("installed package", r[0] + ": " + r[1], r[0])
        res = {}
        for k, f in enumerate(rf):
            n, b, base, code, log = f.result()
            fails = {}
            if code == 0:
                d = json.load(open(base + ".json"))
                for v in d["viols"]:
                    fails.setdefault(v["scen"], v)
                for key, v in d["named"].items():
                    fails.setdefault(key, v)
                R.runs.append(dict(k=seed, variant=n[4:], mode="random", rc=0, base=base, wall=0, json=d))
            elif code in (2, 3, 124, 126, 127, -9):
                raise rc.NoAnswer("%s ended with %d %s" % (n, code, log))
            else:
                p = rc.sh([b, "--decode", base + ".cur"])
                dec = p.stdout.decode(errors="replace")
                fails[dec.split("\n")[0] or "?"] = dict(detail="the process %s" % ("did not return" if code == 77 else "died (%d) %s" % (code, log)), case=dec[-300:], replay=dec, died=True)
            res[n] = (b, fails)
        # a failure is this property's when some configuration fails where another does not
        reported = set()
        for n, (b, fails) in res.items():
            for scen, v in fails.items():
                if scen in reported:
                    continue
                if all(scen in f for _, f in res.values()):
                    continue
                f = os.path.join(w, "replay")
                with open(f, "w") as o:
                    o.write(v["replay"])
                outs = {}
                for m, (bm, fm) in res.items():
                    if bm and not v.get("died"):
                        outs[m] = rc.sh([bm, "--prop", "ALL", "--seed", str(seed), "--replay", f], timeout=300).returncode
                    else:
                        outs[m] = 1 if scen in fm else 0
                if len({1 if o else 0 for o in outs.values()}) > 1:
                    reported.add(scen)
                    R.viols.append((scen, "only in %s: %s" % (",".join(m[4:] for m, o in outs.items() if o), v["detail"]), v["case"], v["replay"], n))
    if nothing_builds and all(v[0].startswith("configuration ") for v in R.viols) and not any("multiple definition" in l for l in logs.values()):
        # the library is fine for others: the harness asks for something that is not there
        raise rc.NoAnswer("no configuration builds: " + next(iter(logs.values()))[:2000])
    cov = rc.aggregate(R)
    # named failures that every configuration shares belong to other properties
    R.named.clear()
    cov["configurations"] = {n: (cxx + " " + f) for n, cxx, f in cfgs}
    cov["configurations_run"] = len(res)
    cov["header_programs"] = programs
    cov["consumers"] = len(pf)
    cov["declared_version"] = ver
    cov["rule"] += " Here every configuration runs the same seeded cases of all the properties' scenarios; a failure counts when configurations disagree or one does not build."
    return rc.finish(R, t0, cov, rc.ASSUME)
