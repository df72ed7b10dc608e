"""Mutants of the package, run through its tests and the checks (a tool; no check uses it).

    mutate.py list                      print the mutants
    mutate.py tests OUT [-j N] [-s K]   keep those that pass the repository's tests (every K-th only)
    mutate.py checks OUT LOG [file]     run the checks on those kept, say which survive
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
FILES = ["otf", "utils", "zernike", "phaseretrieval", "microscope", "display", "labview"]
# the properties to ask, by class or function
WHERE = {
    "otf": {"BasePSF.plot": "C28", "BasePSF._zstep": "C28", "BasePSF._validate_zrange": "C28", "BasePSF": "C02 C05 C01", "HanserPSF._gen_kr": "C03 C07 C17",
            "HanserPSF": "C03 C06 C07 C02 C05 C01", "SheppardPSF": "C04 C02 C05 C07 C01", "apply_": "C08 C25", "named_": "C08 C25", "": "C05 C03"},
    "utils": {"_calc": "C12 C19 C15", "_padding": "C12 C15", "fft_pad": "C12 C19 C25", "slice_maker": "C13 C25", "easy": "C11", "cart2pol": "C15",
              "NumericProperty": "C02 C23", "center_data": "C15 C25", "remove_bg": "C15 C25", "psqrt": "C15", "prep": "C15 C25", "bin_": "C14 C20 C25",
              "radial": "C16 C27 C25"},
    "zernike": {"noll": "C09 C10", "degrees": "C09 C10", "": "C10 C09 C08"},
    "phaseretrieval": {"retrieve_phase": "C17 C25", "PhaseRetrievalResult.fit": "C18", "PhaseRetrievalResult.__init__": "C17 C18 C19", "PhaseRetrievalResult": "C19 C18",
                       "ZernikeDecomposition": "C18", "_fit": "C18", "_recon": "C18", "_calc_mse": "C17", "": "C17"},
    "microscope": {"WidefieldMicroscope.plot": "C28", "Widefield": "C20 C23 C28", "_disk": "C21", "Confocal": "C21 C23", "Apotome": "C27", "BaseSIM": "C22 C23", "SIM": "C22 C23", "Lattice": "C22", "": "C20 C22"},
    "display": {"": "C24 C28"}, "labview": {"": "C26"},
}
SWAP = {"sum": "mean", "mean": "sum", "max": "min", "min": "max", "fftshift": "ifftshift", "ifftshift": "fftshift", "cos": "sin", "sin": "cos",
        "easy_fft": "easy_ifft", "easy_ifft": "easy_fft", "argmax": "argmin", "any": "all", "all": "any", "real": "imag", "imag": "real", "ceil": "floor",
        "floor": "ceil", "ones_like": "zeros_like", "zeros_like": "ones_like", "fftn": "ifftn", "ifftn": "fftn", "std": "var", "fmax": "fmin", "exp": "cos", "ravel": "flatten"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: ("-",), ast.Sub: ("+",), ast.Mult: ("/",), ast.Div: ("*",), ast.FloorDiv: ("/",), ast.Pow: ("*",), ast.Mod: ("//",)}


def mutants(fn):
    src = open("/repo/pyotf/%s.py" % fn).read()
    tree = ast.parse(src)
    off = [0]
    for line in src.encode().split(b"\n"):
        off.append(off[-1] + len(line) + 1)
    raw = src.encode()
    pos = lambda l, c: off[l - 1] + c
    seg = lambda n: raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def put(n, new, what, scope):
        a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        out.append(dict(file=fn, line=n.lineno, scope=scope, what=what, a=a, b=b, new=new))

    def walk(n, scope):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            scope = scope + [n.name]
        s = ".".join(scope)
        if s and not s.endswith("__repr__") and not isinstance(n, ast.JoinedStr):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                op = CMP.get(type(n.ops[0]))
                if op:
                    put(n, "(%s %s %s)" % (seg(n.left), op, seg(n.comparators[0])), "cmp " + op, s)
            if isinstance(n, ast.BinOp):
                for op in BIN.get(type(n.op), ()):
                    put(n, "(%s %s %s)" % (seg(n.left), op, seg(n.right)), "bin " + op, s)
                if isinstance(n.op, (ast.Add, ast.Mult)):
                    put(n, "(%s)" % seg(n.left), "drop right", s)
            if isinstance(n, ast.AugAssign):
                for op in BIN.get(type(n.op), ()):
                    put(n, "%s %s= %s" % (seg(n.target), op, seg(n.value)), "aug " + op, s)
                put(n, "pass", "drop statement", s)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                put(n, "(%s)" % seg(n.operand), "drop unary", s)
            if isinstance(n, ast.Constant):
                if type(n.value) is bool:
                    put(n, str(not n.value), "const", s)
                elif type(n.value) is int:
                    put(n, str(n.value + 1), "const+1", s)
                    if n.value:
                        put(n, str(n.value - 1), "const-1", s)
                elif type(n.value) is float:
                    put(n, repr(n.value * 1.5), "const*1.5", s)
            if isinstance(n, (ast.If, ast.IfExp)):
                put(n.test, "True", "if True", s)
                put(n.test, "False", "if False", s)
            if isinstance(n, ast.BoolOp):
                put(n, seg(n.values[0]), "drop bool operand", s)
                put(n, ("(%s)" % (" or " if isinstance(n.op, ast.And) else " and ").join(seg(v) for v in n.values)), "bool swap", s)
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                put(n, "pass", "drop call", s)
            if isinstance(n, ast.Call):
                f = n.func
                name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                if name in SWAP:
                    old = seg(f)
                    put(f, old[:len(old) - len(name)] + SWAP[name], "call " + SWAP[name], s)
                for k in n.keywords:
                    if k.arg and isinstance(k.value, ast.Name) and k.value.id == k.arg or k.arg in ("axis", "axes", "mode", "dtype", "norm", "center"):
                        args = [seg(x) for x in n.args] + [("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords if q is not k]
                        put(n, "%s(%s)" % (seg(f), ", ".join(args)), "drop keyword " + k.arg, s)
                if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    args = [seg(n.args[1]), seg(n.args[0])] + [seg(x) for x in n.args[2:]]
                    args += [("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords]
                    put(n, "%s(%s)" % (seg(f), ", ".join(args)), "swap args", s)
                if name in ("copy", "abs", "conj", "sqrt") and (n.args or isinstance(f, ast.Attribute)):
                    put(n, "(%s)" % (seg(n.args[0]) if n.args else seg(f.value)), "drop " + name, s)
            if isinstance(n, ast.Slice):
                for part in ("lower", "upper"):
                    v = getattr(n, part)
                    if v is not None:
                        put(v, "(%s + 1)" % seg(v), "slice +1", s)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    walk(d, scope)
            for c in body:
                walk(c, scope)
        elif isinstance(n, (ast.Raise, ast.JoinedStr)):
            return
        else:
            for c in ast.iter_child_nodes(n):
                walk(c, scope)

    walk(tree, [])
    seen, keep = set(), []
    for m in out:
        t = (raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree) or t in seen:
                continue
        except SyntaxError:
            continue
        seen.add(t)
        m["id"] = "%s:%d:%d:%s" % (fn, m["line"], m["a"] - off[m["line"] - 1], m["what"].replace(" ", "_"))
        m["old"] = raw[m["a"]:m["b"]].decode()
        keep.append(m)
    return keep


def make(m):
    work = tempfile.mkdtemp(prefix="mu-")
    tree = os.path.join(work, "repo")
    shutil.copytree("/repo", tree, symlinks=True, ignore=shutil.ignore_patterns(".git", "notebooks", "__pycache__"))
    p = os.path.join(tree, "pyotf", m["file"] + ".py")
    raw = open(p, "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    return work, tree


def passes(m):
    from mkseed import run, PY
    if m["file"] in ("microscope", "labview"):
        return True  # no test imports them
    work, tree = make(m)
    try:
        r = run([PY, "-m", "pytest", "-q", "-x", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60", "--doctest-modules",
                 "pyotf/", "tests/"], tree, 400)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(work)


def props(m):
    t = WHERE[m["file"]]
    for k in t:
        if m["scope"].startswith(k):
            return t[k].split()
    return []


def check(m, jobs=8):
    work, tree = make(m)
    t, got = time.time(), []
    try:
        for p in props(m):
            env = dict(os.environ, PYOTF_REPO=tree)
            r = subprocess.run(["./run.py", p, "--tier", "quick", "-j", str(jobs)], cwd=ROOT, env=env, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            got.append("%s:%d%s" % (p, r.returncode, "V" if v else ""))
            if r.returncode == 1 and v:
                return True, got, time.time() - t
        return False, got, time.time() - t
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    ms = [m for f in FILES for m in mutants(f)]
    if sys.argv[1] == "list":
        for m in ms:
            print(m["id"], m["scope"], "|", m["old"].replace("\n", " ")[:60], "->", m["new"].replace("\n", " ")[:60])
        print(len(ms))
    elif sys.argv[1] == "tests":
        j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
        k = int(sys.argv[sys.argv.index("-s") + 1]) if "-s" in sys.argv else 1
        only = [f for f in FILES if f in sys.argv]
        ms = [m for m in ms if not only or m["file"] in only]
        random.Random(1).shuffle(ms)
        ms = ms[::k]
        with ThreadPoolExecutor(j) as ex:
            with open(sys.argv[2], "w") as f:
                for m, ok in zip(ms, ex.map(passes, ms)):
                    if ok:
                        f.write(json.dumps(m) + "\n")
                        f.flush()
    else:
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {x.split()[1] for x in open(sys.argv[3])}
        for l in open(sys.argv[2]):
            m = json.loads(l)
            if m["id"] in done or (len(sys.argv) > 4 and m["file"] not in sys.argv[4:]):
                continue
            k, got, dt = check(m)
            with open(sys.argv[3], "a") as f:
                f.write("%s %s %s %4.0fs [%s] %s -> %s\n" % ("killed  " if k else "SURVIVED", m["id"], m["scope"], dt, " ".join(got),
                                                        m["old"].replace("\n", " ")[:80], m["new"].replace("\n", " ")[:80]))
