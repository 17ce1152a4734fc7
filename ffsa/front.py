"""Front end: builds the extractor, prepares the headers for clang and loads the type-checked program.

The library is developed against g++ only.  Two constructs that g++ tolerates are rejected by clang; both are
rewritten in a scratch copy (never in /repo) before extraction, driven by clang's own diagnostics:
  * a deduction guide with a non-deducible parameter (can never be selected) is blanked out;
  * a missing disambiguating `template` keyword is inserted.
Neither rewriting can change what the program means, and line numbers are preserved.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, uuid

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FFSA_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CLANG = "clang++"
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis could not be carried out (neither pass nor violation)."""


def build_tool():
    src = os.path.join(HERE, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [CLANG, "-O0", "-fno-rtti", "-std=c++17", "-w", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


BASEFLAGS = ["-std=c++17", "-w", "-Wno-everything", "-ferror-limit=0", "-fno-caret-diagnostics", "-DNDEBUG",
             "-ftemplate-backtrace-limit=1"]
CONFIG = {"serial": ["-DTHREADS_ENABLED=false", "-DVERBOSE=false"],
          "omp": ["-DTHREADS_ENABLED=true", "-DVERBOSE=false", "-fopenmp"],
          "omp_off": ["-DTHREADS_ENABLED=false", "-DVERBOSE=false", "-fopenmp"],
          "verbose": ["-DTHREADS_ENABLED=false", "-DVERBOSE=true"]}

ERR = re.compile(r"^(\S+?):(\d+):(\d+): (?:fatal )?error: (.*)$", re.M)


class Headers:
    """A scratch copy of /repo/include with the clang-only adjustments applied."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.tmp = tempfile.mkdtemp(prefix="ffsa-")
        self.root = os.path.join(self.tmp, "include")
        shutil.copytree(os.path.join(repo, "include"), self.root)
        self.rewrites = []

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def _blank_guide(self, path, line, col):
        txt = open(path, encoding="utf-8", errors="surrogateescape").read()
        lines = txt.split("\n")
        off = sum(len(x) + 1 for x in lines[:line - 1]) + col - 1
        a = txt.rfind("template", 0, off)
        b = txt.find(";", off)
        if a < 0 or b < 0:
            return False
        seg = txt[a:b + 1]
        txt = txt[:a] + "".join("\n" if c == "\n" else " " for c in seg) + txt[b + 1:]
        open(path, "w", encoding="utf-8", errors="surrogateescape").write(txt)
        self.rewrites.append("blanked non-deducible deduction guide %s:%d" % (self.rel(path), line))
        return True

    def _insert(self, path, line, col, what):
        lines = open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")
        s = lines[line - 1].encode("utf-8", "surrogateescape")
        s = s[:col - 1] + what.encode() + s[col - 1:]
        lines[line - 1] = s.decode("utf-8", "surrogateescape")
        open(path, "w", encoding="utf-8", errors="surrogateescape").write("\n".join(lines))
        self.rewrites.append("inserted '%s' at %s:%d" % (what.strip(), self.rel(path), line))
        return True

    def rel(self, p):
        p = os.path.realpath(p)
        r = os.path.realpath(self.root)
        return os.path.join("include", os.path.relpath(p, r)) if p.startswith(r) else p

    def adjust(self, stderr):
        """apply the adjustments asked for by clang's diagnostics; True when something changed"""
        changed = False
        todo = {}
        for m in ERR.finditer(stderr):
            f, ln, co, msg = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)
            if not os.path.realpath(f).startswith(os.path.realpath(self.root)):
                continue
            todo[(f, ln, co)] = msg
        for (f, ln, co), msg in sorted(todo.items(), key=lambda x: (x[0][0], -x[0][1], -x[0][2])):
            if "deduction guide template contains a template parameter that cannot be deduced" in msg:
                changed |= self._blank_guide(f, ln, co)
            elif "use 'template' keyword" in msg or "missing 'template' keyword" in msg:
                changed |= self._insert(f, ln, co, "template ")
            elif "missing 'typename' prior to dependent type" in msg:
                changed |= self._insert(f, ln, co, "typename ")
        return changed

    def syntax(self, tu, config="serial", extra=()):
        """type-check a witness unit with clang; returns (ok, stderr)"""
        for _ in range(6):
            cmd = [CLANG, "-fsyntax-only"] + BASEFLAGS + CONFIG[config] + ["-I" + self.root] + list(extra) + [tu]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0:
                return True, ""
            if not self.adjust(r.stderr):
                return False, r.stderr
        return False, r.stderr

    def extract(self, tu, config="serial", extra=()):
        tool = build_tool()
        out = os.path.join(self.tmp, "x-%s.json" % uuid.uuid4().hex)
        err = ""
        for _ in range(6):
            cmd = [tool, self.root + "/ffcl", out, tu, "--"] + BASEFLAGS + CONFIG[config] + ["-I" + self.root] + list(extra)
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0 and os.path.exists(out):
                d = json.load(open(out))
                os.unlink(out)
                return d
            err = r.stderr
            if not self.adjust(err):
                break
        raise AnalysisBroken("witness unit %s does not type-check:\n%s" % (tu, err[-4000:]))
