# usage: . demo_build.sh; build_demo SOURCE OUTPUT   (cwd: the repository, after its build)
# Compiles a program the way the repository compiles its own test programs.
build_demo() {
  python3 - "$1" "$2" <<'P'
import subprocess, sys, shlex
src, out = sys.argv[1:]
cmds = subprocess.check_output(["ninja", "-C", "_build", "-t", "commands", "tests/logarithm"], text=True).splitlines()
cc = [c for c in cmds if "tests/logarithm.cc" in c and " -c " in c][-1]
ld = [c for c in cmds if "-o tests/logarithm " in c][-1]
obj = out + ".o"
w = shlex.split(cc); r = []; i = 0
while i < len(w):
    if w[i] in ("-MF", "-MT", "-o"): i += 2; continue
    if w[i] == "-c": i += 2; continue
    if w[i] == "-MD": i += 1; continue
    r.append(w[i]); i += 1
subprocess.check_call(r + ["-o", obj, "-c", src], cwd="_build")
w = [x for x in shlex.split(ld) if x not in (":", "&&")]
w = [obj if x.endswith("logarithm.cc.o") else out if x == "tests/logarithm" else x for x in w]
subprocess.check_call(w, cwd="_build")
P
}
