#!/usr/bin/env python3
"""triggers.py OUT.jsonl [jobs=3] [sample=100] [seed=1] [crate=hpack] [pairs=1]
Random planted bugs: a wrong effect at a site of the code under test that only a
rare trigger sets off (a size beyond a threshold, on a power of two, a residue,
one of several such at once, or the nth call of a thread). Drops those that do
not build or that the repository's tests catch, and runs the checks of the crate
until one reports. Survivors are blind spots of the generators, or harmless."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = dict(a.split("=", 1) for a in sys.argv[2:] if "=" in a)
jobs = int(opts.get("jobs", 3)); seed = int(opts.get("seed", 1))
CHECKS = {"huffman": ["C12", "C26", "C07"],
          "hpack": ["C01", "C02", "C08", "C05", "C03", "C20"],
          "protos": ["C18", "C15", "C13", "C22", "C17"]}
H = "hpack/src/"
# crate, file, anchor (once in the file), "after"/"before"/None=replace anchor, quantities, effects
if opts.get("pairs"): CHECKS = {k: v + ["C11", "C25"] for k, v in CHECKS.items()}
SITES = [
 ("hpack", H + "decoder/primitives.rs", "    total += len as usize;\n", "after", ["len", "buf.len()", "total", "buf.first().copied().unwrap_or(0)"], ["buf.pop();", "buf.push(0);", "if let Some(b) = buf.last_mut() { *b ^= 1; }", "if let Some(b) = buf.first_mut() { *b ^= 32; }"]),
 ("hpack", H + "decoder/primitives.rs", "    let huffman = buf[0] & 128 == 128;\n", "after", ["buf.len()", "buf[0]"], ["return Err(DecoderError::IntegerUnderflow);"]),
 ("hpack", H + "decoder/primitives.rs", "        shift += 7;\n", "after", ["value", "buf.len()"], ["value ^= 1;", "value = value.wrapping_add(128);", "return Err(DecoderError::IntegerOverflow);"]),
 ("hpack", H + "decoder/mod.rs", "        let (name, value) = match self.table.get(index) {\n", "before", ["index", "self.table.dynamic_len()", "self.table.dynamic_size()", "dst.len()", "buf.len()"], ["index -= 1;", "index += 1;", "return Err(DecoderError::InvalidIndex);"]),
 ("hpack", H + "decoder/mod.rs", "        let mut value = Vec::new();\n", "before", ["index", "name.len()", "self.table.dynamic_len()", "self.table.dynamic_size()", "total"], ["return Err(DecoderError::InvalidIndex);", "self.table.insert(name.clone(), vec![]);", "let name = name.to_ascii_lowercase();"]),
 ("hpack", H + "decoder/mod.rs", "        if octet & 64 == 64 {\n            self.table.insert", "before", ["index", "name.len()", "value.len()", "self.table.dynamic_len()", "self.table.dynamic_size()", "name.len() + value.len()", "total"], ["let octet = octet & !64;", "let octet = octet | 16;", "value.pop();", "let octet = octet & !16;", "let name = name[..name.len() / 2].to_vec();"]),
 ("hpack", H + "decoder/mod.rs", "        if new_size > self.max_dynamic_size {\n", "before", ["new_size", "self.table.dynamic_len()", "self.table.dynamic_size()", "self.max_dynamic_size"], ["return Err(DecoderError::InvalidMaxDynamicSize);", "new_size += 1;", "new_size = new_size.saturating_sub(1);", "let new_size = self.table.max_dynamic_size();"]),
 ("hpack", H + "decoder/mod.rs", "        let mut limit = dst.capacity();\n", "after", ["buf.len()", "dst.len()", "dst.capacity()", "self.table.dynamic_len()"], ["limit += 1;", "limit = limit.saturating_sub(1);", "dst.clear();"]),
 ("hpack", H + "table/dynamic.rs", "        self.inner.push_front((name, value));\n", "after", ["self.inner.len()", "self.size", "self.max_size", "self.inner[0].0.len()", "self.inner[0].1.len()"], ["self.size += 1;", "self.size -= 1;", "self.inner.pop_back();", "self.inner.swap(0, 1 % self.inner.len().max(1));"]),
 ("hpack", H + "table/dynamic.rs", "        self.max_size = size;\n", "after", ["self.inner.len()", "self.size", "size"], ["return;", "self.max_size = size.saturating_sub(1);", "self.inner.clear(); self.size = 0;"]),
 ("hpack", H + "table/dynamic.rs", "            if let Some(header) = self.inner.pop_back() {\n", "after", ["self.inner.len()", "self.size", "self.max_size", "header.0.len()", "header.1.len()"], ["self.size -= 1;", "if self.size > header.0.len() + header.1.len() + 32 { self.inner.pop_back(); }", "self.size += 32; "]),
 ("hpack", H + "table/mod.rs", "        let mut name_match = None;\n", "after", ["name.len()", "value.len()", "self.dynamic_len()", "self.dynamic_size()"], ["return None;", "let value = &value[..value.len() / 2];"]),
 ("hpack", H + "table/mod.rs", "        for (i, h) in self.iter().enumerate() {\n", "after", ["i", "h.0.len()", "h.1.len()", "self.dynamic_len()"], ["break;", "if name == h.0 { return Some((i + 1, true)); }", "continue;"]),
 ("hpack", H + "encoder/mod.rs", "                if flags & 0x10 == 0x10 {\n", "before", ["name.len()", "value.len()", "self.table.dynamic_len()", "self.table.dynamic_size()", "dst.len()"], ["let flags = flags & !4;", "let flags = flags & !8;", "let flags = flags ^ 2;", "let flags = flags & !16;", "let value = value[..value.len() - value.len().min(1)].to_vec();"]),
 ("hpack", H + "encoder/mod.rs", "        encode_integer(index, 0x80, 7, dst)\n", "before", ["index", "self.table.dynamic_len()", "dst.len()"], ["let index = index - 1;", "let index = index + 1;", "dst.push(0x82);"]),
 ("hpack", H + "encoder/mod.rs", "        self.table.update_max_dynamic_size(size);\n", "before", ["size", "self.table.dynamic_len()", "self.table.dynamic_size()", "dst.len()"], ["let size = size + 1;", "return Ok(());", "return encode_integer(size, 0b00100000, 5, dst);"]),
 ("hpack", H + "encoder/primitives.rs", "    let mut value = value - mask as u32;\n", "after", ["value", "dst.len()"], ["value += 1;", "value &= 0xffff;", "value ^= 128;"]),
 ("hpack", H + "encoder/primitives.rs", "    let len = bytes.len();\n", "before", ["bytes.len()", "data.len()", "dst.len()"], ["let mut bytes = bytes; bytes.pop();", "let mut bytes = bytes; if let Some(b) = bytes.last_mut() { *b |= 1; }", "let (flags, bytes) = (0, bytes);"]),
 ("huffman", "huffman/src/encoder/mod.rs", "    if bits_left != 40 { // finalize with EOS\n", "before", ["src.len()", "dst.len()", "src.first().copied().unwrap_or(0)", "src.last().copied().unwrap_or(0)"], ["bits ^= 1 << 39;", "bits_left = 40;", "dst.push(255);"]),
 ("huffman", "huffman/src/encoder/mod.rs", "        bits_left -= code_len;\n", "after", ["dst.len()", "byte", "code_len.clone()", "*code"], ["bits ^= 1 << 34;", "bits &= !(0xff << 32);"]),
 ("huffman", "huffman/src/decoder/mod.rs", "    reader.finalize(dst)?;\n", "before", ["src.len()", "dst.len()", "src.last().copied().unwrap_or(0)", "dst.last().copied().unwrap_or(0)"], ["dst.pop();", "return Ok(());", "return Err(DecoderError::InvalidInput);"]),
 ("huffman", "huffman/src/decoder/reader.rs", "        let (next_id, ascii, leftover) = self.find_target(key)?;\n", "after", ["key", "self.id", "self.buf_size", "leftover", "ascii.unwrap_or(0)", "dst.len()", "self.tail_size"], ["let ascii = ascii.map(|a| a ^ 1);", "let ascii = ascii.map(|a| a & 255);", "return Err(DecoderError::InvalidInput);", "self.tail_size = 0; self.tail = 0;"]),
 ("huffman", "huffman/src/decoder/reader.rs", "        self.buf = 0;\n        self.buf_size = 0;\n", "after", ["dst.len()", "self.tail_size", "self.tail", "shift_len", "self.speed"], ["return Ok(());", "return Err(DecoderError::InvalidInput);", "self.tail >>= 1; self.tail_size = self.tail_size.saturating_sub(1);"]),
 ("protos", "protos/src/decoder/primitives.rs", "    let size = size as usize;\n", "after", ["size", "buf.len()"], ["let size = size.saturating_sub(1);", "return Err(DecoderError::InputUnderflow);"]),
 ("protos", "protos/src/decoder/primitives.rs", "    let tag = key as u32 >> 3;\n", "after", ["tag", "size", "buf.len()"], ["let tag = tag - 1;", "return Err(DecoderError::InvalidInput);", "return Err(DecoderError::InputUnderflow);"]),
 ("protos", "protos/src/decoder/primitives.rs", "            *dst = value;\n", "before", ["value", "count", "buf.len()"], ["value ^= 1 << 40;", "value &= u64::MAX >> 1;", "return Err(DecoderError::InvalidInput);", "value |= 1;"]),
 ("protos", "protos/src/decoder/primitives.rs", "        bytes.push(byte.clone());\n", "after", ["bytes.len()", "byte", "buf.len()"], ["bytes.pop(); bytes.push(byte | 1);", "return Err(DecoderError::InputUnderflow);"]),
 ("protos", "protos/src/decoder/mod.rs", "            let count = dst.len();\n", "after", ["count", "total", "buf.len()", "self.key.0", "self.ld_len.unwrap_or(0)"], ["return Ok(total);", "total += 1;", "self.key.0 = (self.key.0 & 0xffff).max(1);", "dst.clear();"]),
 ("protos", "protos/src/decoder/mod.rs", "        self.ld_len = Some(val);\n", "before", ["val", "buf.len()", "dst_none()"], ["let val = val & 0xffff;", "let val = val + 1;", "return Err(DecoderError::InvalidInput);"]),
 ("protos", "protos/src/encoder/primitives.rs", "    size += encode_varint(size as u64, buf)?; // number of bytes\n", "before", ["size", "bytes.first().copied().unwrap_or(0)", "bytes.last().copied().unwrap_or(0)"], ["bytes.pop();", "if let Some(b) = bytes.last_mut() { *b ^= 1; }", "buf.write_all(&[])?; size -= 1;", "return Err(EncoderError::DataOverflow);"]),
 ("protos", "protos/src/encoder/primitives.rs", "    let key = (tag << 3) | typ as u32;\n", "before", ["tag"], ["let tag = tag - 1;", "return Err(EncoderError::InvalidTag);", "let tag = tag & 0xffff | 1;"]),
 ("protos", "protos/src/encoder/primitives.rs", "    let mut size = 0;\n    loop {\n", "before", ["val"], ["val ^= 1;", "val &= u64::MAX >> 1;", "val &= 0xffff_ffff;"]),
]
# the typed values: a site in every conversion, found by the function's name
def upto(f, fn, line, indent="    "):
    t = open("/repo/" + f).read(); i = t.find(f"pub fn {fn}(")
    if i < 0: return None
    j = t.find(line, i); k = t.find("\n}\n", i)
    return None if j < 0 or j > k else t[i:j]
for d in ("decoder", "encoder"):
    f = f"protos/src/{d}/primitives.rs"
    for k in "bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 float double bytes".split():
        for fn in (f"decode_{k}", f"decode_{k}_vec", f"encode_{k}", f"encode_{k}_vec"):
            for line, qs, fx in (("    *dst = ", ["size", "buf.len()"], ["return Err(DecoderError::InputUnderflow);", "return Ok(size);"]),
                                 ("        items.push(val);\n", ["items.len()", "size", "total"], ["items.push(val);", "continue;", "return Err(DecoderError::InvalidInput);", "items.pop();"]),
                                 ("    dst.append(&mut items);\n", ["items.len()", "size", "total"], ["items.pop();", "items.reverse();", "dst.clear();", "items.swap(0, 1 % total.min(items.len()));"]),
                                 ("        size += encode_", ["size", "vals.len()"], ["continue;", "break;", "return Err(EncoderError::DataOverflow);"])):
                a = upto(f, fn, line)
                if a: SITES.append(("protos", f, a, "after", qs, fx))
SITES = [s for s in SITES if "dst_none()" not in s[4] or s[4].remove("dst_none()") is None]
R = random.Random(seed)
SMALL = {"total": 5, "count": 9, "bits_left": 40, "code_len.clone()": 30, "leftover": 4, "self.speed": 5, "shift_len": 4, "self.tail_size": 7, "self.buf_size": 12, "bytes.len()": 1 << 17,
         "self.id": 200, "key": 31, "ascii.unwrap_or(0)": 255, "byte": 255, "buf[0]": 255, "self.speed": 5, "self.tail": 127, "*code": 1 << 17}
def cond(q):
    most = 255 if "first()" in q or "last()" in q else SMALL.get(q, 1 << 17)
    if q == "total" and "ld" in str(SMALL): most = 5
    if most < 1 << 17:
        k = R.randrange(1, most + 1)
        return f"(({q}) as u64) == {k}" if R.random() < .7 or most < 10 else f"(({q}) as u64) % 16 == {k % 16}"
    q = f"(({q}) as u64)"
    kind = R.randrange(6)
    if kind == 0: return f"{q} > {int(2 ** R.uniform(3, 17))}"
    if kind == 1: return f"{q} == {max(0, 2 ** R.randrange(2, 17) + R.randrange(-1, 2))}"
    if kind == 2: m = R.choice([3, 7, 16, 17, 64, 100]); return f"{q} % {m} == {R.randrange(m)} && {q} > {int(2 ** R.uniform(3, 12))}"
    if kind == 3: return f"{q} == {R.randrange(256)}"
    if kind == 4: m = R.choice([64, 256, 1024]); return f"{q} % {m} == {R.randrange(4)} && {q} > 4"
    return f"{q} > {int(2 ** R.uniform(3, 9))}"
def bug():
    crate, f, anchor, where, qs, effects = R.choice([s for s in SITES if opts.get("crate", s[0]) == s[0]])
    c = cond(R.choice(qs))
    x = R.randrange(5)
    if x == 0 and len(qs) > 1 and "> " not in c: c = f"{c} && {cond(R.choice([x for x in qs if x not in c]or qs))}"
    pre = ""
    if x == 1:
        n = int(2 ** R.uniform(2, 12))
        pre = "thread_local! { static NTH: std::cell::Cell<u64> = std::cell::Cell::new(0); }\n"
        c = f"{{ NTH.with(|n| n.set(n.get() + 1)); NTH.with(|n| n.get()) > {n} }} && {cond(R.choice(qs))}"
    e = R.choice(effects)
    m = re.match(r"let (mut )?(\(.*?\)|\w+) = (.*);$", e)
    if e.startswith("let mut bytes = bytes; "):
        body = e[len("let mut bytes = bytes; "):]
        code = f"let mut bytes = bytes; if {c} {{ {body} }}\n"
    elif m: code = f"let {m[2]} = if {c} {{ {m[3]} }} else {{ {m[2] if m[2] != 'value' or 'to_vec' in m[3] or '&' in m[3] else 'value'} }};\n"
    else: code = f"if {c} {{ {e} }}\n"
    code = pre + code
    new = anchor + code if where == "after" else code + anchor
    return crate, f, anchor, new, code.strip()
def note():
    """The first of two sites that work together: what it saw last is remembered."""
    crate, f, anchor, where, qs, _ = R.choice([s for s in SITES if opts.get("crate", s[0]) == s[0]])
    q = R.choice(qs)
    most = SMALL.get(q, 0)
    cap = R.choice([0, 0, 1, 2, 5, 31, 64, 100, 1000])
    val = R.choice([f"({q}) as u64", f"(({q}) as u64 > {cap}) as u64"])
    keep = R.choice(["n.set(%s)", "n.set(%s)", "n.set(n.get().max(%s))", "n.set(n.get() * 2 %% 16 + (%s) %% 2)"]) % val
    code = f"crate::NOTED.with(|n| {keep});\n"
    return crate, f, anchor, anchor + code if where == "after" else code + anchor, code.strip()
def pair():
    while True:
        a, b = note(), bug()
        if a[0] != b[0] or (a[1] == b[1] and a[2] == b[2]): continue
        k = R.choice(["n.get() == 1", "n.get() == 0"])
        if " > " not in a[4]: k = R.choice([k, "n.get() > 1", f"n.get() == {R.randrange(16)}", f"n.get() % 8 == {R.randrange(1, 8)}", f"n.get() > {int(2 ** R.uniform(2, 8))}"])
        fresh = R.random() < .4
        w = f"crate::NOTED.with(|n| {{ let x = {k}; {'n.set(7);' if fresh else ''} x }}) && "
        i = b[4].find("if ") + 3
        if b[4].count("if ") != 1 or "NTH" in b[4]: continue
        # a milder condition of its own: the note is rare enough
        easy = R.random() < .5
        j = b[4].index(" {", i)
        cond_b = "true" if easy else "(" + b[4][i:j] + ")"
        code = b[4][:i] + w + cond_b + b[4][j:]
        return b[:3] + (b[3].replace(b[4], code), code) + (a,)
todo = []
while len(todo) < int(opts.get("sample", 100)):
    b = pair() if opts.get("pairs") else bug()
    if b not in todo: todo.append(b)
print(len(todo), "bugs", flush=True)
q = queue.Queue()
for t in todo: q.put(t)
lock = threading.Lock(); tally = {}
def run(cmd, cwd, env, timeout):
    try: return subprocess.run(["timeout", "-k", "5", str(timeout)] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except Exception as e:
        class X: returncode = 99; stdout = str(e)
        return X
BASE = f"/tmp/trig.{os.getpid()}"
def worker(w):
    base = f"{BASE}/w{w}"
    os.makedirs(base + "/v")
    subprocess.check_call(["git", "clone", "-q", "/repo", base + "/repo"])
    subprocess.call(["cp", "/repo/Cargo.lock", base + "/repo/"], stderr=subprocess.DEVNULL)
    os.makedirs(base + "/v/sim")
    for x in ("src", "Cargo.toml", "Cargo.lock"): subprocess.check_call(["cp", "-a", f"{ROOT}/sim/{x}", base + "/v/sim/"])
    shutil.copy(ROOT + "/known-findings.txt", base + "/v/")
    ct = base + "/v/sim/Cargo.toml"; s = open(ct).read().replace('"/repo/', f'"{base}/repo/'); open(ct, "w").write(s)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_ROOT=base + "/v", CARGO_INCREMENTAL="0")
    env.pop("CARGO_TARGET_DIR", None)
    while True:
        try: crate, p, anchor, new, code, *other = q.get_nowait()
        except queue.Empty: return
        kept = {}
        f = base + "/repo/" + p
        src = open(f).read()
        verdict, by = "?", ""
        try:
            if src.count(anchor) != 1: verdict = "anchor"; by = str(src.count(anchor)); continue
            open(f, "w").write(src.replace(anchor, new))
            for _, op, oa, on, oc in other:
                for x in (op, crate + "/src/lib.rs"): kept.setdefault(base + "/repo/" + x, open("/repo/" + x).read())
                s = open(base + "/repo/" + op).read()
                if s.count(oa) != 1: verdict = "anchor"
                open(base + "/repo/" + op, "w").write(s.replace(oa, on))
                open(base + "/repo/" + crate + "/src/lib.rs", "a").write("\nthread_local! { pub(crate) static NOTED: std::cell::Cell<u64> = std::cell::Cell::new(0); }\n")
                code += "  ||  " + oc + " @ " + op + " " + oa.strip().split("\n")[0]
            if verdict == "anchor": continue
            r = run(["cargo", "test", "-p", "httlib-" + crate, "--lib", "--no-run", "--offline"], base + "/repo", env, 300)
            if r.returncode: verdict = "nobuild"; by = r.stdout[-600:]; continue
            r = run(["cargo", "test", "--workspace", "--lib", "--tests", "--offline", "--", "--test-threads", "4"], base + "/repo", env, 60)
            if r.returncode: verdict = "tests"; continue
            r = run(["cargo", "build", "--release", "--offline"], base + "/v/sim", env, 300)
            if r.returncode: verdict = "simnobuild"; by = r.stdout[-300:]; continue
            verdict = "SURVIVED"
            for c in CHECKS[crate]:
                r = run([base + "/v/sim/target/release/sim", "check", "prop=" + c, "tier=quick", "seed=1", "workers=3"], base, env, 600)
                if r.returncode == 1: verdict, by = "caught", c; break
                if r.returncode != 0: verdict, by = "odd", f"{c} rc{r.returncode} {r.stdout[-300:]}"
        finally:
            for x, t in kept.items(): open(x, "w").write(t)
            open(f, "w").write(src)
            with lock:
                tally[verdict] = tally.get(verdict, 0) + 1
                open(sys.argv[1], "a").write(json.dumps(dict(file=p, anchor=anchor.strip(), code=code, verdict=verdict, by=by)) + "\n")
                if verdict not in ("caught", "tests"): print(verdict, p, "|", anchor.strip().split("\n")[0], "|", code, "|", by if verdict != "nobuild" else by[:300], tally, flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
print(tally)
shutil.rmtree(BASE, ignore_errors=True)
