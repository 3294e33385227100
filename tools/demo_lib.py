"""Helper of the demonstrations: a scratch directory with the tools of /repo/bin and a database in it."""
import os, re, shutil, subprocess, sys, tempfile
REPO = os.getcwd()

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="gsdemo.")
        for x in ("init.conf", "conf.ini", "backup.json", "ipAllow.config", "ipDeny.config", "slog.properties", "slog.stdout.properties"):
            shutil.copy(os.path.join(REPO, x), self.d)
        os.symlink(os.path.join(REPO, "bin"), os.path.join(self.d, "bin"))
        os.symlink(os.path.join(REPO, 'data'), os.path.join(self.d, 'data'))
        for x in ("logs", "backups", ".tmp", ".debug", "lib"):
            os.mkdir(os.path.join(self.d, x))
        self.sh("bin/ginit", "--make")
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
    def sh(self, *cmd, inp=""):
        p = subprocess.run(cmd, cwd=self.d, input=inp.encode(), capture_output=True, timeout=250)
        return p.returncode, p.stdout.decode(errors="replace") + p.stderr.decode(errors="replace")
    def file(self, name, text):
        open(os.path.join(self.d, name), "w").write(text); return name
    def build(self, text, db="tst"):
        return self.sh("bin/gbuild", "-db", db, "-f", self.file("b.nt", text))
    def add(self, text, db="tst"):
        return self.sh("bin/gadd", "-db", db, "-f", self.file("a.nt", text))
    def sub(self, text, db="tst"):
        return self.sh("bin/gsub", "-db", db, "-f", self.file("s.nt", text))
    def cxx(self, name, code):
        """compiles a program against /repo's objects; returns its path"""
        self.file(name + ".cpp", code)
        arc = os.path.join(self.d, "libg.a")
        if not os.path.exists(arc):
            import glob
            subprocess.run(["ar", "rcsT", arc] + glob.glob(os.path.join(REPO, ".objs/*.o")), check=True)
        subprocess.run(["g++", "-std=c++11", "-w", "-fopenmp", "-pthread", "-I" + REPO, "-I" + os.path.join(REPO, "tools/antlr4-cpp-runtime-4/runtime/src"),
                        "-I" + os.path.join(REPO, "_build/shim/inc"), "-I" + os.path.join(REPO, "tools/log4cplus/include"), name + ".cpp", "-o", name, "-rdynamic",
                        "-Wl,--start-group", arc, "-Wl,--end-group", "-L" + os.path.join(REPO, "lib"), "-L/usr/local/lib"] +
                       "-ljemalloc -lreadline -lantlr4-runtime -lgcov -lboost_thread -lboost_system -lboost_regex -lpthread -lcurl -llog4cplus -lz -lminizip -ldl -lcrypto -lssl".split(), cwd=self.d, check=True)
        return os.path.join(self.d, name)
    def query(self, q, db="tst", ordered=False):
        """rows of a SELECT, sorted, as lists; a string with the output when there is no answer"""
        rc, out = self.sh("bin/gquery", "-db", db, "-q", self.file("q.sql", q))
        self.out = out; self.rc = rc
        i = out.rfind("final result is :")
        if i < 0: return "rc %s, no answer" % rc
        rows = [[c.strip() for c in l.strip()[1:-1].split(" | ")] for l in out[i:].split("\n") if l.startswith("| ")]
        self.head = rows[0] if rows else []
        return sorted(rows[1:]) if ordered is False else rows[1:]

def expect(what, got, want):
    if got != want:
        print("FAIL %s\n  got  %r\n  want %r" % (what, got, want)); return False
    return True
