"""Reads ThreadSanitizer logs: one (key, text) per report, keyed by the
innermost functions of hpp::constraints of the two accesses (not by line)."""
import glob, os, re

def reports(outdir):
    res, seen = [], set()
    for f in sorted(glob.glob(os.path.join(outdir, "*.san*"))):
        txt = open(f, errors="replace").read()
        for blk in re.split(r"={18}\n", txt):
            if "WARNING: ThreadSanitizer: " not in blk: continue
            kind = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", blk).group(1).strip().replace(" ", "-")
            fns = []
            for st in re.split(r"\n\n", blk):
                if not re.search(r"(Write|Read|write|read) of size", st): continue
                m = re.search(r"#\d+ .*?hpp::constraints::((?:\([^)]*\)::)?[\w:~<>, ]+?)\(", st)
                fns.append(re.sub(r"<.*", "", m.group(1)) if m else "other")
            key = kind + "/" + "+".join(sorted(set(fns)))
            if key in seen: continue
            seen.add(key)
            res.append((key, blk[:6000]))
    return res
