"""Builds the two overlays of /repo's current working tree under /verif/build.

sym     every source file run through the rewriter `rw` (floats -> symbolic reals), the DSP
        crates replaced by the stand-ins in /verif/stubs, decoding / media element / media
        recorder replaced by the module stand-ins in /verif/stubs/modules
native  the source files exactly as they are in /repo, with the real dependencies

Both get the contract modules of /verif/contracts appended to the file they specify (so that
contracts reach private items) and `mod x;` declarations widened to `pub(crate)`.
"""
import os, re, subprocess, sys, shutil, json, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings --cap-lints allow")


class BuildError(Exception):
    pass


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def run(cmd, cwd, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError(what + ":\n" + p.stdout[-6000:])
    return p.stdout


def rw_binary():
    tgt = os.path.join(BUILD, "target-rw")
    run(["cargo", "build", "--release", "--offline", "--target-dir", tgt], os.path.join(VERIF, "rw"), "rewriter build")
    return os.path.join(tgt, "release", "rw")


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src")))
    return sorted(out)


def contract_files():
    out = []
    base = os.path.join(VERIF, "contracts")
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".rs"):
                out.append(os.path.relpath(os.path.join(d, f), base))
    return sorted(out)


def feat(rel):
    return "k_" + re.sub(r"[^a-z0-9]", "_", rel[:-3].lower())


def modpath(rel):
    # contract file a/b.rs or a/b__part.rs belongs to src/a/b.rs (or src/a/b/mod.rs)
    p = host(rel)[:-3]
    parts = p.split("/")
    if parts[-1] == "mod":
        parts = parts[:-1]
    if parts == ["lib"]:
        parts = []
    return "::".join(["crate"] + parts)


def host(rel):
    """source file a contract file is appended to"""
    stem = rel[:-3]
    d, b = os.path.split(stem)
    b = b.split("__")[0]
    cand = os.path.join(d, b + ".rs")
    if os.path.exists(os.path.join(REPO, "src", cand)):
        return cand
    cand2 = os.path.join(d, b, "mod.rs")
    return cand2


def modname(rel):
    b = os.path.basename(rel)[:-3]
    return "vc_" + b


def with_contracts(rel, text):
    """original text + contract modules"""
    text = re.sub(r"(?m)^mod (\w+);", r"pub(crate) mod \1;", text)
    for c in contract_files():
        if host(c) == rel:
            body = open(os.path.join(VERIF, "contracts", c)).read()
            text += '\n#[cfg(feature = "%s")]\n#[allow(dead_code, unused_imports, unused_variables, unused_mut)]\npub(crate) mod %s {\nuse super::*;\n%s\n}\n' % (feat(c), modname(c), body)
    if rel == "lib.rs":
        text += "\npub fn verif_all_contracts() -> Vec<symrt::Contract> {\n#[allow(unused_mut)]\nlet mut v: Vec<symrt::Contract> = vec![];\n"
        for c in contract_files():
            text += '#[cfg(feature = "%s")]\nv.extend(%s::%s::contracts());\n' % (feat(c), modpath(c), modname(c))
        text += "v\n}\n"
    return text


MAIN = "fn main() { symrt::main_entry(web_audio_api::verif_all_contracts()); }\n"

# modules outside the extraction: decoders, disk streams and the WAV encoder
MODULE_STUBS = ["decoding.rs", "media_element.rs", "media_recorder/mod.rs"]
STUB_CRATES = ["hrtf", "fft-convolver", "rubato", "vecmath", "num-complex", "realfft", "float_eq", "almost", "dasp_sample", "no_denormals"]


def repo_deps():
    import tomllib
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        return tomllib.load(f)


def gen_sym():
    root = os.path.join(BUILD, "sym")
    src = os.path.join(root, "src")
    pre = os.path.join(BUILD, "pre")
    rw = rw_binary()
    srcs = sources()
    pairs = []
    for rel in srcs:
        stub = os.path.join(VERIF, "stubs", "modules", rel)
        if rel in MODULE_STUBS:
            write(os.path.join(src, rel), open(stub).read())
            continue
        if rel in ("io/cpal.rs", "io/cubeb.rs", "io/microphone.rs"):
            continue
        text = with_contracts(rel, open(os.path.join(REPO, "src", rel)).read())
        if rel == "lib.rs":
            text += "impl symrt::CastTo<u8> for crate::context::AudioContextState { fn cast_to(self) -> u8 { match self { crate::context::AudioContextState::Suspended => 0, crate::context::AudioContextState::Running => 1, crate::context::AudioContextState::Closed => 2 } } }\n"
        p = os.path.join(pre, rel)
        o = os.path.join(src, rel)
        same = False
        try:
            same = open(p).read() == text and os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(rw)
        except OSError:
            pass
        if not same:
            write(p, text)
            pairs.append((p, o))
    # files that disappeared
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            if rel not in srcs and rel != "bin/vc.rs":
                os.remove(os.path.join(d, f))
    if pairs:
        tmp = []
        for p, o in pairs:
            os.makedirs(os.path.dirname(o), exist_ok=True)
            tmp += [p, o + ".new"]
        run([rw] + tmp, root, "extraction")
        for p, o in pairs:
            txt = open(o + ".new").read()
            os.remove(o + ".new")
            write(o, txt)
            os.utime(o)
    write(os.path.join(src, "bin", "vc.rs"), MAIN)
    toml = repo_deps()
    deps = dict(toml.get("dependencies", {}))
    lines = []
    for name, spec in deps.items():
        if name in ("cpal", "cubeb", "creek", "symphonia", "hound"):
            continue
        if name in STUB_CRATES:
            lines.append('%s = { path = "%s" }' % (name, os.path.join(VERIF, "stubs", name)))
        elif isinstance(spec, str):
            lines.append('%s = "%s"' % (name, spec))
        else:
            fe = spec.get("features", [])
            lines.append('%s = { version = "%s", default-features = %s, features = %s }' % (name, spec["version"], "true" if spec.get("default-features", True) else "false", json.dumps(fe)))
    if "no_denormals" not in deps:
        lines.append('no_denormals = { path = "%s" }' % os.path.join(VERIF, "stubs", "no_denormals"))
    lines.append('symrt = { path = "%s" }' % os.path.join(VERIF, "symrt"))
    feats = "\n".join("%s = []" % feat(c) for c in contract_files())
    write(os.path.join(root, "Cargo.toml"), """[package]
name = "web-audio-api"
version = "0.0.0"
edition = "2021"
[dependencies]
%s
[features]
cubeb = []
cpal = []
%s
[profile.dev]
opt-level = 1
debug = 1
overflow-checks = true
debug-assertions = true
[profile.dev.package.symrt]
opt-level = 3
[workspace]
""" % ("\n".join(lines), feats))
    lock = os.path.join(VERIF, "tools", "sym.Cargo.lock")
    dst = os.path.join(root, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(dst):
        shutil.copy(lock, dst)
    for n in ("README.md", "resources"):
        l = os.path.join(root, n)
        if not os.path.lexists(l):
            os.symlink(os.path.join(REPO, n), l)
    return root


def gen_native():
    root = os.path.join(BUILD, "native")
    src = os.path.join(root, "src")
    srcs = sources()
    for rel in srcs:
        write(os.path.join(src, rel), with_contracts(rel, open(os.path.join(REPO, "src", rel)).read()))
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            if rel not in srcs and rel != "bin/vc.rs":
                os.remove(os.path.join(d, f))
    write(os.path.join(src, "bin", "vc.rs"), MAIN)
    s = open(os.path.join(REPO, "Cargo.toml")).read()
    s = re.sub(r"\[dev-dependencies\].*?\n(?=\[\[?[a-z])", "", s, flags=re.S)
    s = re.sub(r"\[\[bench\]\].*?harness = false\n", "", s, flags=re.S)
    s = re.sub(r"(?s)include = \[.*?\]\n", "", s)
    s = re.sub(r'(?m)^default = .*$', "default = []", s)
    s = s.replace("[dependencies]\n", '[dependencies]\nsymrt = { path = "%s", features = ["native"] }\n' % os.path.join(VERIF, "symrt"), 1)
    feats = "\n".join("%s = []" % feat(c) for c in contract_files())
    s = s.replace("[features]\n", "[features]\n" + feats + "\n", 1)
    s += "\n[profile.dev]\nopt-level = 1\noverflow-checks = true\ndebug-assertions = true\ndebug = 1\n[workspace]\n"
    write(os.path.join(root, "Cargo.toml"), s)
    lock = os.path.join(VERIF, "tools", "native.Cargo.lock")
    dst = os.path.join(root, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(dst):
        shutil.copy(lock, dst)
    for n in ("README.md", "resources"):
        l = os.path.join(root, n)
        if not os.path.lexists(l):
            os.symlink(os.path.join(REPO, n), l)
    return root


def build(kind, files):
    """compile the overlay with the contract modules of `files`; returns the binary"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        root = gen_sym() if kind == "sym" else gen_native()
        tgt = os.path.join(BUILD, "target-" + kind)
        cmd = ["cargo", "build", "--offline", "--bin", "vc", "--target-dir", tgt]
        if files:
            cmd += ["--features", ",".join(feat(f) for f in files)]
        run(cmd, root, kind + " overlay build")
        return os.path.join(tgt, "debug", "vc")


if __name__ == "__main__":
    kind = sys.argv[1]
    files = sys.argv[2:] or contract_files()
    try:
        print(build(kind, files))
    except BuildError as e:
        print(e)
        sys.exit(2)
