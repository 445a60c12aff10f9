"""Runs one case in one build and returns its answer (for reports)."""
import subprocess


def answer(R, binary, section, index):
    r = subprocess.run([R.paths[binary], "--prop", R.prop, "--seed", str(R.seed), "--tier", R.tier, "--outdir", R.outdir, "--only", "%s:%d" % (section, index)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    out = r.stderr.decode(errors="replace")
    ans = [l[7:] for l in out.splitlines() if l.startswith("RESULT ")]
    case = ""
    try:
        case = open(R.outdir + "/cur", "rb").read()[72:].split(b"\0")[0].decode(errors="replace")
    except OSError:
        pass
    return (ans[0] if ans else "exit %s: %s" % (r.returncode, out[-300:])), case
