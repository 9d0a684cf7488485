"""Builds the extractor, runs it over every source file of /repo/src and loads the program database."""
import hashlib
import json
import os
import pickle
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BMSA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (never a verdict about the property)."""


def _sha(*chunks):
    h = hashlib.sha256()
    for c in chunks:
        h.update(c if isinstance(c, bytes) else c.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    key = _sha(_read(src))
    out = os.path.join(BUILD, "bmx-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output([LLVM + "/bin/llvm-config", "--cxxflags"], text=True).split()
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["clang++", "-O1"] + flags + ["-fno-rtti", "-std=c++17", "-w", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout[-3000:])
    os.rename(tmp, out)
    return out


# clang 18 does not implement the array qualification conversion (CWG 330 / P1152) that lets GCC
# build std::span<const T* const> from `T* const[N]`; a copy of <span> with one more constructor
# makes the repository's sources parse unchanged.
_SPAN_CTOR = """
      template<typename _Up, size_t _ArrayExtent>
	requires ((_Extent == dynamic_extent || _ArrayExtent == _Extent)
	  && !is_same_v<_Up, element_type> && is_convertible_v<_Up(*)[], element_type(*)[]>)
	constexpr
	span(_Up (&__arr)[_ArrayExtent]) noexcept
	: span(static_cast<pointer>(__arr), _ArrayExtent)
	{ }
"""


def overlay_dir():
    p = None
    for cand in ("/usr/include/c++/13/span", "/usr/include/c++/14/span"):
        if os.path.exists(cand):
            p = cand
            break
    if p is None:
        raise AnalysisBroken("no <span> header")
    text = _read(p).decode()
    mark = "      template<typename _Tp, size_t _ArrayExtent>\n\trequires __is_compatible_array<_Tp, _ArrayExtent>::value"
    if mark not in text:
        raise AnalysisBroken("unexpected <span>")
    text = text.replace(mark, _SPAN_CTOR + "\n" + mark, 1)
    d = os.path.join(BUILD, "overlay-" + _sha(text))
    if not os.path.exists(os.path.join(d, "span")):
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, "span.%d" % os.getpid())
        with open(t, "w") as f:
            f.write(text)
        os.rename(t, os.path.join(d, "span"))
    return d


def source_files():
    src = os.path.join(REPO, "src")
    units, allf = [], []
    for root, dirs, files in os.walk(src):
        dirs.sort()
        rel = os.path.relpath(root, src)
        if rel.split(os.sep)[0] == "test":
            continue
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".cpp", ".hpp", ".h", ".inc", ".def")):
                allf.append(p)
            if f.endswith(".cpp"):
                units.append(p)
    return units, allf


def flags():
    res = subprocess.check_output(["clang", "-print-resource-dir"], text=True).strip()
    return ["-std=c++20", "-isystem", overlay_dir(), "-I" + REPO, "-I" + os.path.join(REPO, "src"),
            "-DNDEBUG", "-w", "-resource-dir", res]


def extract():
    """Returns the path of the pickled, merged database for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    units, allf = source_files()
    if len(units) < 10:
        raise AnalysisBroken("only %d source files found under %s/src" % (len(units), REPO))
    tool = build_tool()
    fl = flags()
    me = _read(os.path.abspath(__file__))
    h = _sha(tool, me, " ".join(fl), *[p.encode() + b"\1" + _read(p) for p in allf])
    out = os.path.join(BUILD, "db-%s.pickle" % h)
    if os.path.exists(out):
        return out
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
        def one(u):
            tu = os.path.relpath(u, os.path.join(REPO, "src"))
            o = os.path.join(tmp, tu.replace("/", "_") + ".json")
            r = subprocess.run([tool, o, u, os.path.join(REPO, "src") + "/", tu, "--"] + fl,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
            if r.returncode != 0 or not os.path.exists(o):
                raise AnalysisBroken("cannot parse %s:\n%s" % (u, r.stdout[:3000]))
            with open(o) as f:
                return json.load(f)
        with ThreadPoolExecutor(8) as ex:
            tus = list(ex.map(one, units))
        db = merge(tus)
        db["units"] = [os.path.relpath(u, REPO) for u in units]
        t = os.path.join(tmp, "db.pickle")
        with open(t, "wb") as f:
            pickle.dump(db, f, protocol=5)
        os.rename(t, out)
    # keep only a few databases around
    dbs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("db-")), key=os.path.getmtime)
    for p in dbs[:-6]:
        try:
            os.unlink(p)
        except OSError:
            pass
    return out


def merge(tus):
    """Merges per-unit tables; type ids and variable ids are made globally unique."""
    types, tkey = [], {}
    funcs, variables, records, enums = {}, {}, {}, {}
    lambda_off = 0
    var_off = 0
    for ti, tu in enumerate(tus):
        # types: intern structurally by printed name (+ kind); lambdas are per unit
        tt = tu["types"]
        tmap = [None] * len(tt)
        pending = []
        for i, t in enumerate(tt):
            s = t["s"]
            lam = "lambda at" in s or t.get("lambda") or "(anonymous" in s or "(unnamed" in s
            k = (s, t["k"], ti if lam else None)
            if t["k"] == "rec":
                k = k + (t["n"],)
            j = tkey.get(k)
            if j is None:
                j = len(types)
                types.append(None)
                tkey[k] = j
                pending.append((i, j))
            tmap[i] = j
        for i, j in pending:
            t = dict(tt[i])
            t["id"] = j
            if "to" in t:
                t["to"] = tmap[t["to"]] if t["to"] >= 0 else -1
            if "ta" in t:
                t["ta"] = _targs(t["ta"], tmap)
            types[j] = t

        TK = {"t", "rt", "rec", "ct", "at", "base", "mt", "ht"}

        def fix(o):
            if isinstance(o, list):
                for x in o:
                    if isinstance(x, (dict, list)):
                        fix(x)
                return
            kind = o.get("k")
            for k, v in o.items():
                if isinstance(v, (dict, list)):
                    if k == "pt" :
                        o[k] = [tmap[x] for x in v]
                    elif k == "fta":
                        o[k] = _targs(v, tmap)
                    else:
                        fix(v)
                elif k in TK and isinstance(v, int):
                    o[k] = tmap[v] if v >= 0 else -1
                elif (k == "v" or k == "hv") and isinstance(v, int) and not isinstance(v, bool):
                    o[k] = v + var_off
                elif (k == "lid" or k == "lambda") and isinstance(v, int) and not isinstance(v, bool):
                    o[k] = v + lambda_off
        maxv = [0]
        maxl = [0]

        def scan(o):
            if isinstance(o, list):
                for x in o:
                    if isinstance(x, (dict, list)):
                        scan(x)
                return
            for k, v in o.items():
                if isinstance(v, (dict, list)):
                    scan(v)
                elif (k == "v" or k == "hv") and isinstance(v, int):
                    if v > maxv[0]:
                        maxv[0] = v
                elif (k == "lid" or k == "lambda") and isinstance(v, int) and not isinstance(v, bool):
                    if v > maxl[0]:
                        maxl[0] = v
        for f in tu["functions"]:
            scan(f)
            fix(f)
            if f["f"] not in funcs:
                funcs[f["f"]] = f
        for v in tu["vars"]:
            scan(v)
            fix(v)
            if v["q"] not in variables:
                variables[v["q"]] = v
        for n, r in tu["records"].items():
            if n in records and (records[n]["fields"] or not r["fields"]):
                continue
            for f in r["fields"]:
                f["t"] = tmap[f["t"]]
                if "init" in f:
                    fix(f["init"])
                    scan(f["init"])
            r["bases"] = [tmap[b] for b in r["bases"]]
            if "ta" in r:
                r["ta"] = _targs(r["ta"], tmap)
            records[n] = r
        for n, e in tu["enums"].items():
            enums.setdefault(n, e)
        var_off += maxv[0] + 1
        lambda_off += maxl[0] + 1
    return {"types": types, "functions": funcs, "vars": variables, "records": records, "enums": enums}


def _targs(a, tmap):
    out = []
    for x in a:
        if "t" in x:
            out.append(("t", tmap[x["t"]]))
        elif "i" in x:
            out.append(("i", int(x["i"])))
        elif "d" in x:
            out.append(("d", x["d"]))
        else:
            out.append(("o", None))
    return out


def load():
    sys.setrecursionlimit(100000)
    with open(extract(), "rb") as f:
        return pickle.load(f)


if __name__ == "__main__":
    try:
        print(extract())
    except AnalysisBroken as e:
        print(e, file=sys.stderr)
        sys.exit(2)
