#!/usr/bin/env python3
"""mutate.py OUT.jsonl [jobs=4] [sample=N] [seed=S] [files=REGEX] [tables]
Mutation testing of the checks: applies small mutations to /repo's sources in
scratch copies, drops those that do not build or that the repository's own
tests catch, and runs the checks of the crate on the rest until one reports.
Survivors (caught by nothing) are either equivalent or a gap."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = dict(a.split("=", 1) for a in sys.argv[2:] if "=" in a)
jobs = int(opts.get("jobs", 4)); seed = int(opts.get("seed", 1))
tables = "tables" in sys.argv
CHECKS = {"huffman": ["C26", "C12", "C07", "C08", "C01", "C04", "C11", "C10"],
          "hpack": ["C01", "C02", "C07", "C08", "C04", "C05", "C03", "C20", "C09", "C06", "C10", "C11"],
          "protos": ["C18", "C15", "C13", "C14", "C16", "C17", "C19", "C11"]}
ENUM = {}
def sources():
    for crate in CHECKS:
        for d, _, fs in os.walk(f"/repo/{crate}/src"):
            for f in fs:
                p = os.path.join(d, f)
                is_table = re.search(r"table\d?\.rs$", f) is not None
                if f.endswith(".rs") and is_table == tables: yield crate, p
def mutants_of_line(line):
    code = line.split("//")[0]
    out = set()
    def sub(pat, rep):
        for m in re.finditer(pat, code):
            new = code[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + code[m.end():]
            if new != code: out.add(new)
    for a, b in [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
                 (" + ", " - "), (" - ", " + "), (" << ", " >> "), (" >> ", " << "), (" | ", " & "), (" & ", " | "), (" ^ ", " | "),
                 (" += ", " -= "), (" -= ", " += "), (" |= ", " = "), (" += ", " = "), (" && ", " || "), (" || ", " && "), (" <<= ", " >>= "), (" >>= ", " <<= "),
                 ("true", "false"), ("false", "true"), ("push_front", "push_back"), ("pop_back", "pop_front"), ("_le_bytes", "_be_bytes"),
                 ("is_some", "is_none"), ("is_none", "is_some"), ("is_empty()", "len() == 1"), ("..size", "..size + 1"), ("capacity()", "len()")]:
        sub(re.escape(a), lambda m, b=b: b)
    sub(r"\b(0x[0-9a-fA-F]+|0b[01]+|\d+)(u\d+|usize|i\d+)?\b", lambda m: str(int(m.group(1), 0) + 1) + (m.group(2) or ""))
    sub(r"\b(0x[0-9a-fA-F]+|0b[01]+|[1-9]\d*)(u\d+|usize|i\d+)?\b", lambda m: str(int(m.group(1), 0) - 1) + (m.group(2) or ""))
    sub(r" as u32", " as u16 as u32"); sub(r" as usize", " as u8 as usize"); sub(r" as u64", " as u32 as u64"); sub(r" as i32", " as i16 as i32"); sub(r" as i64", " as i32 as i64")
    sub(r"(DecoderError|EncoderError)::(\w+)", lambda m: m.group(1) + "::" + ("InvalidInput" if m.group(2) != "InvalidInput" else "IntegerUnderflow" if "hpack" in CUR else "InputUnderflow"))
    sub(r"Typ::(Varint|Bit32|Bit64|LengthDelimited)\b", lambda m: "Typ::" + {"Varint": "Bit32", "Bit32": "Bit64", "Bit64": "Bit32", "LengthDelimited": "Varint"}[m.group(1)])
    s = code.strip()
    if s.endswith(";") and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not re.match(r"(pub |use|let|mod|static|const|extern|type)", s):
        out.add(code[:len(code) - len(code.lstrip())] + ";")
    return out
todo = []
for crate, p in sources():
    CUR = p
    rnd = random.Random(p)
    if opts.get("files") and not re.search(opts["files"], p): continue
    for i, line in enumerate(open(p).read().split("\n")):
        if "#[cfg(test)]" in line: break
        s = line.strip()
        if s.startswith("//") or s.startswith("#[") or not s or s.startswith("pub fn") or s.startswith("pub const"): continue
        if tables:
            if not re.match(r"\((Some|None)", s) and not re.match(r"\(\d", s): continue
            m = re.match(r"(\s*)\(None, Some\((\d+)\), (\d+)\)(,?)(.*)", line)
            if m:
                todo.append((crate, p, i, f"{m[1]}(None, Some({(int(m[2]) + 1) % 256}), {m[3]}){m[4]}"))
                todo.append((crate, p, i, f"{m[1]}(None, Some({m[2]}), {(int(m[3]) + 1) % 5}){m[4]}"))
            m = re.match(r"(\s*)\(Some\((\d+)\), None, (\d+)\)(,?)(.*)", line)
            if m: todo.append((crate, p, i, f"{m[1]}(Some({int(m[2]) + 1}), None, {m[3]}){m[4]}"))
            continue
        for new in sorted(mutants_of_line(line)): todo.append((crate, p, i, new))
random.Random(seed).shuffle(todo)
if "sample" in opts: todo = todo[:int(opts["sample"])]
print(len(todo), "mutants", flush=True)
q = queue.Queue()
for n, t in enumerate(todo): q.put((n, t))
lock = threading.Lock(); tally = {}
def run(cmd, cwd, env, timeout):
    try:
        return subprocess.run(["timeout", "-k", "5", str(timeout)] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except Exception as e:
        class X: returncode = 99; stdout = str(e)
        return X
def worker(w):
    base = f"/tmp/mut/w{w}"
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
    subprocess.check_call(["git", "-C", base + "/repo", "checkout", "-q", "--", "."])
    os.makedirs(base + "/v")
    subprocess.check_call(["cp", "-a", ROOT + "/sim", ROOT + "/known-findings.txt", base + "/v/"])
    shutil.rmtree(base + "/v/sim/target", ignore_errors=True)
    ct = base + "/v/sim/Cargo.toml"; s = open(ct).read().replace('"/repo/', f'"{base}/repo/'); open(ct, "w").write(s)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_ROOT=base + "/v", CARGO_INCREMENTAL="0")
    env.pop("CARGO_TARGET_DIR", None)
    while True:
        try: n, (crate, p, i, new) = q.get_nowait()
        except queue.Empty: return
        f = base + p
        src = open(f).read(); lines = src.split("\n"); old = lines[i]; lines[i] = new
        open(f, "w").write("\n".join(lines))
        verdict, by = "?", ""
        try:
            r = run(["cargo", "test", "-p", "httlib-" + crate, "--lib", "--tests", "--no-run", "--offline"], base + "/repo", env, 300)
            if r.returncode: verdict = "nobuild"; continue
            r = run(["cargo", "test", "--workspace", "--lib", "--tests", "--offline", "--", "--test-threads", "4"], base + "/repo", env, 60)
            if r.returncode: verdict = "tests"; continue
            r = run(["cargo", "build", "--release", "--offline"], base + "/v/sim", env, 300)
            if r.returncode: verdict = "simnobuild"; by = r.stdout[-300:]; continue
            verdict = "SURVIVED"
            for c in CHECKS[crate]:
                r = run([base + "/v/sim/target/release/sim", "check", "prop=" + c, "tier=quick", "seed=1", "workers=3"], base, env, 600)
                if r.returncode == 1: verdict, by = "caught", c; break
                if r.returncode != 0: verdict, by = "odd", f"{c} rc{r.returncode} {r.stdout[-300:]}"
        finally:
            open(f, "w").write(src)
            with lock:
                tally[verdict] = tally.get(verdict, 0) + 1
                open(sys.argv[1], "a").write(json.dumps(dict(file=p, line=i + 1, old=old.strip(), new=new.strip(), verdict=verdict, by=by)) + "\n")
                if verdict in ("SURVIVED", "odd", "simnobuild"): print(verdict, p, i + 1, repr(old.strip()), "->", repr(new.strip()), by, tally, flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
print(tally)
shutil.rmtree("/tmp/mut", ignore_errors=True)
