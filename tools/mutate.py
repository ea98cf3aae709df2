#!/usr/bin/env python3
"""Development tool: how sensitive are the checks?  mutate.py WORK SEED COUNT GROUP... > log

WORK/v is a copy of /verif whose harness crates point at WORK/repo, a clone of /repo (nothing else is touched).
Takes COUNT random single-token mutants of the sources of each GROUP, and for each runs the checks of the group until one
reports a violation. A survivor that the crate's own tests do not notice either is printed in full."""
import os, random, re, subprocess, sys, time

work, seed, count, groups = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
REPO, V = work + "/repo", work + "/v"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
C = "C01 C02 C11 C12 C13 C14 C16 C17 C09 C07 C05 C04 C08 C06 C10 C15 C03 C18".split()
B = "B13 B12 B11 B01 T01 B04 B02 B09 B06 B05 T02 B07 B08 B03 B10 B14".split()
K = "K01 K08 K07 K09 K05 K06 K04 K03 K02 E01 E02 E03".split()
GROUPS = {
    "codec": ("codec", C, ["vaux-mqtt/src/codec/mod.rs", "vaux-mqtt/src/codec/fixed.rs"]),
    "packets": ("codec", C, ["vaux-mqtt/src/" + f + ".rs" for f in "connack connect disconnect lib property publish pubresp subscribe unsubscribe will".split()]),
    "macro": ("codec", C, ["vaux-macro/src/" + f + ".rs" for f in "decode encode size lib util".split()]),
    "stream": ("net", "S03 S04 S02 S01".split(), ["vaux-async/src/stream/packet.rs", "vaux-async/src/stream/mod.rs"]),
    "topic": ("net", ["T01", "T02", "B01"], ["vaux-broker/src/topic.rs"]),
    "broker": ("net", B, ["vaux-broker/src/lib.rs", "vaux-broker/src/session.rs", "vaux-broker/src/config.rs"]),
    "client": ("net", K, ["vaux-client/src/" + f + ".rs" for f in "session client connection builder".split()]),
}
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" < ", " > "), (r" > ", " < "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r" \+ ", " - "), (r" - ", " + "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"),
       (r" & ", " | "), (r" << ", " >> "), (r"\bOk\(true\)", "Ok(false)"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\.is_empty\(\)", ".len() == 1"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.unwrap_or\(0\)", ".unwrap_or(1)"),
       (r"\bbreak;", "{}"), (r"\bcontinue;", "{}"), (r"\breturn;", "{}"), (r"AtLeastOnce", "ExactlyOnce"), (r"AtMostOnce", "AtLeastOnce"),
       (r"Reason::Success", "Reason::UnspecifiedErr"), (r"from_secs\(", "from_millis("), (r"\.min\(", ".max("), (r"\.max\(", ".min(")]
SKIP = re.compile(r"^\s*(//|#\[|#!\[|use |pub use|info!|debug!|warn!|error!|trace!|tracing::|assert|mod |pub mod )")
STMT = re.compile(r"^\s*(?!let |return|use |pub |fn |type |const |static |break|continue|\}|//|#|info!|debug!|warn!|error!|trace!)[a-z_][^{}]*;\s*$")


def mutants(path):
    lines = open(REPO + "/" + path).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l:
            break
        if SKIP.match(l) or "write!(f" in l:
            continue
        code = l.split(" // ")[0]
        for pat, new in OPS:
            for m in re.finditer(pat, code):
                out.append((path, i, l[:m.start()] + new + l[m.end():]))
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|0b[01_]+|\d+)(?![\w.])", code):
            v = int(m.group(1).replace("_", ""), 0)
            out.append((path, i, l[:m.start()] + str(v + 1) + l[m.end():]))
        if STMT.match(l) and i and lines[i - 1].rstrip().endswith((";", "{", "}")):
            out.append((path, i, ""))
    return out


def sh(cmd, cwd, t, env=ENV):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


for g in groups:
    harness, checks, files = GROUPS[g]
    ms = [m for f in files for m in mutants(f)]
    random.Random(seed).shuffle(ms)
    done = 0
    print(f"## {g}: {len(ms)} mutants, {count} taken", flush=True)
    for path, i, new in ms:
        if done == count:
            break
        p = REPO + "/" + path
        old = open(p).read()
        lines = old.split("\n")
        was = lines[i]
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        try:
            rc, o = sh(f"python3 check.py build {harness}", V, 400)
            if rc:
                continue
            done += 1
            res, t0, odd = None, time.time(), []
            for c in checks:
                rc, o = sh(f"python3 check.py {c}", V, 600, dict(ENV, VSYM_REUSE="1"))
                if "VIOLATION" in o:
                    res = c
                    break
                if rc:
                    odd.append(f"{c}:{rc}")
            at = f"{path}:{i + 1}"
            if res:
                print(f"caught {res} {time.time() - t0:.0f}s {at} {' '.join(odd)}", flush=True)
            else:
                rc, o = sh("cargo test --offline --workspace -q 2>&1 | tail -30", REPO, 300)
                broke = "FAILED" in o or "panicked" in o or rc == 99 or "error" in o.split("\n")[-3:]
                print(f"{'TESTS' if broke else 'SURVIVES'} {time.time() - t0:.0f}s {at} {' '.join(odd)}\n  - {was.strip()}\n  + {new.strip()}", flush=True)
        finally:
            open(p, "w").write(old)
print("## end", flush=True)
