"""Build the MIR dumper and the fixture program against /repo's working tree."""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, ".build")
DRIVER = os.path.join(BUILD, "driver")


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "MIRDUMP")) and k not in ("CARGO_HOME",):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def sh(cmd, cwd, e, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


def build_driver():
    rc, out, er = sh(["cargo", "build", "--offline", "--release", "--quiet"], os.path.join(VERIF, "driver"),
                     env(CARGO_TARGET_DIR=DRIVER))
    if rc:
        raise BuildError("mirdump does not build:\n" + er[-3000:])
    return os.path.join(DRIVER, "release", "mirdump")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        os.utime(path)
        return
    with open(path, "w") as f:
        f.write(text)


def sysroot_lib():
    rc, out, er = sh(["rustc", "--print", "sysroot"], "/", env())
    return os.path.join(out.strip(), "lib")


CARGO = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[workspace]

[lib]
path = "src/lib.rs"

[dependencies]
instant-xml = { path = "%s/instant-xml", features = ["chrono"] }
chrono = "0.4.23"
"""


FEATURES = "#![feature(try_trait_v2, try_trait_v2_residual, pattern)] "       # on the first line: line numbers stay


def build_crate(name, source, out, cut="", folder=None):
    """Compile `source` as crate `name` with the dumper; returns the error text, or None."""
    d = os.path.join(BUILD, folder or name)
    write(os.path.join(d, "Cargo.toml"), CARGO % (name, REPO))
    if name in ("fixtures", "walker"):
        source = FEATURES + source + "\n" + open(os.path.join(HERE, "shims.rs")).read()
    write(os.path.join(d, "src", "lib.rs"), source)
    if os.path.exists(out):
        os.remove(out)
    e = env(CARGO_TARGET_DIR=os.path.join(BUILD, "target"), LD_LIBRARY_PATH=sysroot_lib(),
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
            RUSTC_WRAPPER=os.path.join(DRIVER, "release", "mirdump"),
            MIRDUMP_CRATE=name, MIRDUMP_OUT=out, MIRDUMP_CUT=cut)
    rc, so, er = sh(["cargo", "build", "--offline", "--message-format=json"], d, e)
    if rc == 0 and os.path.exists(out):
        return None, []
    lines = []
    texts = []
    for l in so.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        texts.append(m["message"].get("rendered") or m["message"]["message"])
        for s in m["message"]["spans"]:
            s2 = s
            while s2:
                if s2["file_name"].endswith("src/lib.rs") and m["target"]["name"] == name:
                    lines.append(s2["line_start"])
                s2 = (s2.get("expansion") or {}).get("span")
    return "\n".join(texts)[-6000:] or er[-6000:], lines


def build_macros(out):
    """Dump of the derive macros' own crate (all its functions, without the bodies of its dependencies)."""
    target = os.path.join(BUILD, "target")
    for sub in ("build", ".fingerprint"):               # have cargo compile it again
        fp = os.path.join(target, "debug", sub)
        for n in os.listdir(fp) if os.path.isdir(fp) else ():
            if n == "instant-xml-macros" or n.startswith("instant-xml-macros-"):
                shutil.rmtree(os.path.join(fp, n))
    d = os.path.join(BUILD, "macros")
    write(os.path.join(d, "Cargo.toml"), CARGO % ("macros", REPO))
    write(os.path.join(d, "src", "lib.rs"), "")
    if os.path.exists(out):
        os.remove(out)
    e = env(CARGO_TARGET_DIR=target, LD_LIBRARY_PATH=sysroot_lib(),
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
            RUSTC_WRAPPER=os.path.join(DRIVER, "release", "mirdump"), MIRDUMP_ALL="1",
            MIRDUMP_CRATES="instant_xml_macros,core,alloc,std,hashbrown",
            MIRDUMP_CRATE="instant_xml_macros", MIRDUMP_OUT=out, MIRDUMP_CUT="")
    rc, so, er = sh(["cargo", "build", "--offline"], d, e)
    if rc or not os.path.exists(out):
        raise BuildError("the macros do not compile:\n" + er[-3000:])


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def fixtures(specs):
    """Dump of the fixture program.  Types the current macros refuse are left out (and reported)."""
    build_driver()
    out = os.path.join(BUILD, "fixtures.json")
    dropped = {}
    for attempt in range(8):
        src, owner = specs.render_owned(set(dropped))
        er, lines = build_crate("fixtures", src, out)
        if er is None:
            return out, dropped
        new = {}
        for n in lines:
            o = owner.get(n)
            if o and o not in dropped:
                new[o] = er[-1500:]
        if not new:
            raise BuildError("the fixture program does not compile:\n" + er)
        dropped.update(new)
        dropped.update({k: "uses " + v for k, v in specs.users_of(set(dropped)).items() if k not in dropped})
    raise BuildError("the fixture program does not compile")


if __name__ == "__main__":
    with Lock():
        print(build_driver())
